// Recorded results against the state of the model at the end of each step, and the results file against the records.
#include <netcdf.h>

#include <cstring>
#include <filesystem>
#include <fstream>

#include "ResultWriter.h"
#include "trace.h"
using namespace mon;
using namespace gen;

namespace {
struct Nc {  // own reading of a file
    int id = -1;
    std::string err;
    explicit Nc(const std::string& p) { if (nc_open(p.c_str(), NC_NOWRITE, &id) != NC_NOERR) { id = -1; err = "cannot be opened"; } }
    ~Nc() { if (id >= 0) nc_close(id); }
    std::vector<size_t> shape(const char* name, int& v) {
        std::vector<size_t> s;
        int n = 0, d[NC_MAX_VAR_DIMS];
        if (nc_inq_varid(id, name, &v) != NC_NOERR || nc_inq_varndims(id, v, &n) != NC_NOERR || nc_inq_vardimid(id, v, d) != NC_NOERR) { err = std::string("no variable ") + name; v = -1; return s; }
        for (int i = 0; i < n; ++i) { size_t l = 0; nc_inq_dimlen(id, d[i], &l); s.push_back(l); }
        return s;
    }
    std::vector<double> get(const char* name, std::vector<size_t> want) {
        int v;
        auto s = shape(name, v);
        if (v < 0) return {};
        if (s != want) { err = std::string("shape of ") + name; return {}; }
        size_t n = 1;
        for (auto x : s) n *= x;
        std::vector<double> r(n);
        if (n && nc_get_var_double(id, v, r.data()) != NC_NOERR) err = std::string("cannot read ") + name;
        return r;
    }
    std::vector<std::string> strings(const char* att) {
        size_t n = 0;
        std::vector<std::string> r;
        nc_type t;
        if (nc_inq_att(id, NC_GLOBAL, att, &t, &n) != NC_NOERR) { err = std::string("no attribute ") + att; return r; }
        if (n == 0) return r;
        if (t != NC_STRING) { err = std::string("type of ") + att; return r; }
        std::vector<char*> p(n);
        nc_get_att_string(id, NC_GLOBAL, att, p.data());
        for (auto x : p) r.push_back(x ? x : "");
        nc_free_string(n, p.data());
        return r;
    }
    std::string text(const char* var, const char* att) {
        int v;
        size_t n = 0;
        if (nc_inq_varid(id, var, &v) != NC_NOERR || nc_inq_attlen(id, v, att, &n) != NC_NOERR) return "";
        std::string s(n, ' ');
        if (n && nc_get_att_text(id, v, att, s.data()) != NC_NOERR) return "";
        return s;
    }
};
bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
}  // namespace

static std::string checkFile(const std::string& path, ModelHydro& m, const Spec& s, const Outputs& o) {
    Nc f(path);
    if (!f.err.empty()) return f.err;
    size_t T = o.time.size(), U = s.units.size();
    auto t = f.get("time", {T});
    auto ids = f.get("hydro_units_ids", {U}), st = f.get("hydro_units_structure_ids", {U}), ar = f.get("hydro_units_areas", {U});
    auto sb = f.get("sub_basin_values", {o.sb.size(), T}), hu = f.get("hydro_units_values", {o.hu.size(), U, T});
    if (f.strings("labels_aggregated") != o.sbLabels) return "labels_aggregated";
    if (f.strings("labels_distributed") != o.huLabels) return "labels_distributed";
    if (!f.err.empty()) return f.err;
    for (size_t i = 0; i < T; ++i) if (t[i] != o.time[i]) return fmt("date %zu: %.12g instead of %.12g", i, t[i], o.time[i]);
    for (size_t u = 0; u < U; ++u) {
        if (ids[u] != s.units[u].id) return fmt("unit %zu has the identifier %g", u, ids[u]);
        if (ar[u] != s.units[u].area) return fmt("unit %zu has the area %.12g", u, ar[u]);
        if (st[u] != m.GetSubBasin()->GetHydroUnit(u)->GetStructureId()) return fmt("unit %zu has the structure %g", u, st[u]);
    }
    for (size_t l = 0; l < o.sb.size(); ++l)
        for (size_t i = 0; i < T; ++i) if (!same(sb[l * T + i], o.sb[l][i])) return fmt("%s, date %zu: %.17g instead of %.17g", o.sbLabels[l].c_str(), i, sb[l * T + i], o.sb[l][i]);
    for (size_t l = 0; l < o.hu.size(); ++l)
        for (size_t u = 0; u < U; ++u)
            for (size_t i = 0; i < T; ++i)
                if (!same(hu[(l * U + u) * T + i], o.hu[l](i, u))) return fmt("%s, unit %zu, date %zu: %.17g instead of %.17g", o.huLabels[l].c_str(), u, i, hu[(l * U + u) * T + i], o.hu[l](i, u));
    if (!o.frLabels.empty()) {
        auto fr = f.get("land_cover_fractions", {o.fr.size(), U, T});
        if (f.strings("labels_land_covers") != o.frLabels) return "labels_land_covers";
        if (!f.err.empty()) return f.err;
        for (size_t l = 0; l < o.fr.size(); ++l)
            for (size_t u = 0; u < U; ++u)
                for (size_t i = 0; i < T; ++i) if (!same(fr[(l * U + u) * T + i], o.fr[l](i, u))) return fmt("fraction of %s, unit %zu, date %zu", o.frLabels[l].c_str(), u, i);
    }
    if (f.text("time", "units") != "days since 1858-11-17 00:00:00.0") return "time unit: " + f.text("time", "units");
    for (const char* v : {"sub_basin_values", "hydro_units_values"}) if (f.text(v, "units") != "mm") return std::string("unit of ") + v;
    return "";
}

// The text file holds the same numbers as the record.
static std::string checkText(const std::string& dir, const Outputs& o) {
    vecAxd v(o.sb.begin(), o.sb.end());
    if (!ResultWriter().WriteCSV(dir, o.time, o.sbLabels, v)) return "the text file was refused";
    std::ifstream f(dir + "/results.csv");
    std::string line, want = "time";
    for (auto& l : o.sbLabels) want += "," + l;
    if (!std::getline(f, line) || line != want) return "header " + line;
    for (long t = 0; t < o.time.size(); ++t) {
        if (!std::getline(f, line)) return fmt("only %ld rows", t);
        const char* p = line.c_str();
        for (size_t l = 0; l <= v.size(); ++l) {
            char* e;
            double x = std::strtod(p, &e), w = l ? v[l - 1][t] : o.time[t];
            if (e == p || *e != (l < v.size() ? ',' : '\0') || !same(x, w)) return fmt("row %ld column %zu: \"%s\" instead of %.17g", t, l, line.c_str(), w);
            p = e + 1;
        }
    }
    return std::getline(f, line) ? "more rows than dates" : "";
}

static void run(Ctx& c) {
    Rng& r = c.rng;
    Opts o;
    o.allowExchange = true; o.allowSubdaily = true; o.anyOrder = true; o.allowCorrection = false; o.allowChanges = true; o.lateralAnyOrder = true;
    o.minSteps = 2; o.maxSteps = c.thorough ? 150 : 50; o.maxUnits = 5;
    Spec s = randomSpec(r, o);
    s.logAll = r.p(0.6);
    c.sample = s.describe();
    auto b = std::make_unique<Built>();
    buildSettings(b->sm, s);
    std::set<std::string> want;  // the labels asked for (when not everything is recorded)
    std::vector<TProc> up = declaredUnit(s), sp = declaredSubBasin(s);
    if (!s.logAll) {
        int nst = b->sm.GetStructureCount();
        struct Item { int kind; std::string brick, proc, item; };
        std::vector<Item> items;
        for (auto& p : up) {
            if (r.p(0.3) && p.to[0].name != "lateral" && p.type.rfind("routing", 0) != 0) items.push_back({0, p.brick, p.proc, "output"});
            if (r.p(0.2)) items.push_back({0, p.brick, "", r.p(0.5) ? "water_content" : "water"});
            if (r.p(0.2) && p.from == ContentType::Snow) items.push_back({0, p.brick, "", r.p(0.5) ? "snow_content" : "snow"});
            if (r.p(0.2) && p.from == ContentType::Ice) items.push_back({0, p.brick, "", r.p(0.5) ? "ice_content" : "ice"});
        }
        for (auto& p : sp) if (r.p(0.4)) items.push_back({1, p.brick, p.proc, r.p(0.5) ? "output" : "water_content"});
        if (r.p(0.3) && s.snow) { items.push_back({2, "snow_rain_transition", "", "rain"}); items.push_back({2, "snow_rain_transition", "", "snow"}); }
        for (size_t i = items.size(); i > 1; --i) std::swap(items[i - 1], items[r.i(0, (int)i - 1)]);
        for (int k = 1; k <= nst; ++k) {
            b->sm.SelectStructure(k);
            for (auto& x : items) {
                if (x.kind == 2) {
                    if (!b->sm.SelectHydroUnitSplitterIfFound(x.brick)) continue;
                    b->sm.AddSplitterLogging(x.item);
                    want.insert(x.brick + ":" + x.item);
                    continue;
                }
                if (x.kind == 1 ? k > 1 || !b->sm.SelectSubBasinBrickIfFound(x.brick) : !b->sm.SelectHydroUnitBrickIfFound(x.brick)) continue;
                bool proc = x.item == "output";
                if (proc) { b->sm.SelectProcess(x.proc); b->sm.AddProcessLogging(x.item); }
                else b->sm.AddBrickLogging(x.item);
                want.insert(proc ? x.brick + ":" + x.proc + ":output" : x.brick + ":" + x.item);
            }
            if (k == 1 && r.p(0.5)) b->sm.AddLoggingToItem("outlet");
        }
        b->sm.SelectStructure(1);
        if (r.p(0.3)) b->sm.SetRecordFractions(true);
        want.insert("outlet");
    }
    buildBasin(b->sb, s);
    b->model = std::make_unique<ModelHydro>();
    auto rr = b->model->InitializeWithBasin(b->sm, b->sb);
    if (!rr) { c.fail("refused", "initialization refused: " + rr.error() + " " + capturedLog().substr(0, 300) + "; " + c.sample); return; }
    ModelHydro& m = *b->model;
    setInitialIce(m, s);
    if (!s.changes.empty()) {
        auto a = std::make_unique<ActionLandCoverChange>();
        for (auto& x : s.changes) a->AddChange(s.dateOf(x.step) - x.early / 1440.0, s.units[x.unit].id, s.covers[x.cover], x.frac * s.units[x.unit].area);
        if (!m.AddAction(a.get())) return;
        b->actions.push_back(std::move(a));
    }
    attachForcing(m, s);
    std::string dir = scratchDir() + fmt("/i01-%ld", c.index);
    std::filesystem::create_directories(dir);
    if (r.p(0.1)) {  // nothing simulated yet: everything is missing
        if (!m.DumpOutputs(dir)) c.fail("export", "the export of an empty record failed: " + capturedLog().substr(0, 200) + "; " + c.sample);
        Nc f(dir + "/results.nc");
        auto t = f.get("time", {(size_t)s.nsteps});
        for (double x : t) if (!std::isnan(x)) { c.fail("empty-record", fmt("date %g in the file before any run; ", x) + c.sample); break; }
        c.count("empty records");
    }
    Trace tr;
    tr.attach(m, s);
    int runs = r.p(0.2) ? 2 : 1;
    for (int k = 0; k < runs; ++k) {
        if (k) { m.Reset(); tr = Trace(); tr.attach(m, s); }
        auto res = m.Run();
        if (!res) { c.count("refused runs"); onEvent() = nullptr; std::filesystem::remove_all(dir); return; }
    }
    onEvent() = nullptr;
    Outputs out = collect(m);
    size_t T = tr.content.size();
    auto bad = [&](const std::string& key, const std::string& d) { c.fail(key, d + "; " + c.sample); };
    if ((long)T != s.nsteps || out.time.size() != s.nsteps) { bad("rows", fmt("%zu steps, %ld dates recorded instead of %d", T, (long)out.time.size(), s.nsteps)); return; }
    for (size_t t = 0; t < T; ++t) if (!close(out.time[t], s.dateOf(t), 1e-8)) bad("dates", fmt("row %zu is dated %.9g instead of %.9g", t, out.time[t], s.dateOf(t)));
    // Labels.
    std::set<std::string> hl(out.huLabels.begin(), out.huLabels.end()), sl(out.sbLabels.begin(), out.sbLabels.end());
    if (hl.size() != out.huLabels.size() || sl.size() != out.sbLabels.size()) bad("labels", "a label is repeated");
    if (out.hu.size() != out.huLabels.size() || out.sb.size() != out.sbLabels.size() || out.fr.size() != out.frLabels.size()) { bad("labels", "not one record per label"); return; }
    if (!s.logAll) {
        std::set<std::string> all = hl;
        all.insert(sl.begin(), sl.end());
        for (auto& w : want) if (!all.count(w)) bad("labels", "nothing recorded for " + w);
        for (auto& l : all) if (!want.count(l)) bad("labels", "not asked for: " + l);
    } else {
        for (auto& p : up) if (p.to[0].name != "lateral" && !hl.count(p.brick + ":" + p.proc + ":output")) bad("labels", "nothing recorded for the process " + p.brick + ":" + p.proc);
        for (auto& x : tr.st) {
            std::string l = x.name + (x.type == ContentType::Water ? ":water_content" : x.type == ContentType::Snow ? ":snow_content" : ":ice_content");
            if (!(x.unit ? hl : sl).count(l)) bad("labels", "nothing recorded for the store " + l);
        }
        for (auto& p : sp) if (!sl.count(p.brick + ":" + p.proc + ":output")) bad("labels", "nothing recorded for the process " + p.brick + ":" + p.proc);
    }
    // Values.
    auto values = [&](const std::string& l, int u, auto&& at) {
        size_t a = l.find(':'), z = l.rfind(':');
        std::string brick = l.substr(0, a), item = l.substr(z + 1), proc = a == z ? "" : l.substr(a + 1, z - a - 1);
        if (l == "outlet") {
            for (size_t t = 0; t < T; ++t) if (!same(at(t), tr.q[t])) { bad("value", fmt("outlet, row %zu: %.17g instead of %.17g", t, at(t), tr.q[t])); return; }
            c.count("values compared", T);
            return;
        }
        if (brick == "snow_rain_transition") {
            for (size_t t = 0; t < T; ++t) {
                double ra, sn;
                rainSnow(s, u, (int)t, ra, sn);
                double e = item == "rain" ? ra : sn;
                if (!close(at(t), e, splitTol(s, u, (int)t) + 1e-9)) { bad("value", fmt("%s, unit %d, row %zu: %.17g instead of %.17g", l.c_str(), u, t, at(t), e)); return; }
            }
            c.count("values compared", T);
            return;
        }
        if (proc.empty()) {
            ContentType ty = item.rfind("snow", 0) == 0 ? ContentType::Snow : item.rfind("ice", 0) == 0 ? ContentType::Ice : ContentType::Water;
            int i = tr.store(u, brick, ty);
            for (size_t t = 0; t < T; ++t) {
                double e = i < 0 ? NAN : tr.content[t][i];
                if (std::isinf(e)) continue;  // the unlimited ice is recorded as zero
                if (!same(at(t), e)) { bad(i < 0 ? "missing" : "value", fmt("%s, unit %d, row %zu: %.17g instead of %.17g", l.c_str(), u, t, at(t), e)); return; }
            }
            c.count(i < 0 ? "missing values" : "values compared", T);
            return;
        }
        if (item != "output") return;
        int i = tr.flux(u, brick, proc, 0);
        for (size_t t = 0; t < T; ++t) {
            double e = i < 0 ? NAN : tr.amount[t][i];
            if (!same(at(t), e)) { bad(i < 0 ? "missing" : "value", fmt("%s, unit %d, row %zu: %.17g instead of %.17g", l.c_str(), u, t, at(t), e)); return; }
        }
        c.count(i < 0 ? "missing values" : "values compared", T);
    };
    for (size_t l = 0; l < out.sbLabels.size(); ++l) values(out.sbLabels[l], -1, [&](size_t t) { return out.sb[l][t]; });
    for (size_t l = 0; l < out.huLabels.size(); ++l)
        for (size_t u = 0; u < s.units.size(); ++u) values(out.huLabels[l], (int)u, [&](size_t t) { return out.hu[l](t, u); });
    axd q = m.GetOutletDischarge();
    for (size_t t = 0; t < T; ++t) if (q[t] != tr.q[t]) { bad("value", fmt("discharge, row %zu: %.17g instead of %.17g", t, q[t], tr.q[t])); break; }
    for (size_t l = 0; l < out.frLabels.size(); ++l) {
        size_t k = 0;
        while (k < s.covers.size() && s.covers[k] != out.frLabels[l]) ++k;
        if (k == s.covers.size()) { bad("labels", "fraction of an unknown cover " + out.frLabels[l]); continue; }
        for (size_t u = 0; u < s.units.size(); ++u)
            for (size_t t = 0; t < T; ++t) {
                double e = tr.frac[t][u * s.covers.size() + k];
                if (!same(out.fr[l](t, u), e)) { bad("fraction", fmt("fraction of %s, unit %zu, row %zu: %.17g instead of %.17g", s.covers[k].c_str(), u, t, out.fr[l](t, u), e)); break; }
            }
        c.count("fractions compared", (long)(T * s.units.size()));
    }
    if (s.logAll && out.frLabels.size() != s.covers.size()) bad("labels", fmt("%zu fractions recorded for %zu covers", out.frLabels.size(), s.covers.size()));
    // The records asked for one by one.
    if (m.GetRecordedHydroUnitLabels() != out.huLabels || m.GetRecordedHydroUnitFractionLabels() != out.frLabels) bad("accessor", "labels");
    vecInt ids = m.GetHydroUnitIds();
    axd ars = m.GetHydroUnitAreas();
    if (ids.size() != s.units.size() || ars.size() != (long)s.units.size()) bad("accessor", fmt("%zu identifiers and %ld areas", ids.size(), (long)ars.size()));
    else for (size_t u = 0; u < ids.size(); ++u) if (ids[u] != s.units[u].id || ars[u] != s.units[u].area) bad("accessor", fmt("unit #%zu: identifier %d, area %.17g", u, ids[u], ars[u]));
    auto one = [&](const std::string& l, const axxd& w, auto&& get) {
        axxd v = get(l);
        bool eq = v.rows() == w.rows() && v.cols() == w.cols();
        for (long t = 0; eq && t < w.rows(); ++t) for (long u = 0; eq && u < w.cols(); ++u) eq = same(v(t, u), w(t, u));
        if (!eq) bad("accessor", "the values given for '" + l + "' are not those recorded");
        std::string near = r.p(0.5) ? l + "x" : l.substr(0, l.size() - 1);
        if (std::find(out.huLabels.begin(), out.huLabels.end(), near) == out.huLabels.end() && std::find(out.frLabels.begin(), out.frLabels.end(), near) == out.frLabels.end()) {
            bool given = true;
            try { get(near); } catch (const std::exception&) { given = false; }
            if (given) bad("accessor", "values are given for '" + near + "'");
        }
        c.count("records asked for by label");
    };
    for (size_t l = 0; l < out.huLabels.size(); ++l) one(out.huLabels[l], out.hu[l], [&](const std::string& x) { return m.GetHydroUnitValues(x); });
    for (size_t l = 0; l < out.frLabels.size(); ++l) one(out.frLabels[l], out.fr[l], [&](const std::string& x) { return m.GetHydroUnitFractions(x); });
    // The file.
    if (r.p(0.2)) {
        if (m.DumpOutputs(dir + "/absent")) bad("export", "an export to a missing directory was reported as done");
        c.count("missing directories");
    }
    if (r.p(0.25)) {
        std::string d = checkText(dir, out);
        if (!d.empty()) bad("text", d);
        c.count("text files compared");
    }
    if (r.p(0.1)) m.DumpOutputs(dir);  // an export over an earlier one
    if (!m.DumpOutputs(dir)) bad("export", "the export failed: " + capturedLog().substr(0, 300));
    else {
        std::string d = checkFile(dir + "/results.nc", m, s, out);
        if (!d.empty()) bad("file", d);
        c.count("files compared");
    }
    std::filesystem::remove_all(dir);
    c.signature = s.shortSig() + (s.logAll ? "|all" : fmt("|%zu", want.size()));
}

Check mon::GetCheck() {
    return {"I01", 4000, 20000, run,
            "every recorded row equals the contents, flux amounts, cover fractions and discharge of the model at the end of that step (bit for bit), every asked "
            "label is recorded once, values of stores a unit does not have are missing, and the results file read by an independent reader holds the same dates, "
            "labels, identifiers, areas, structures and values"};
}
