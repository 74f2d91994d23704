// Forcing files: the series read against the file's content (own writer), damaged files, and runs driven by the file.
#include <filesystem>

#include "Forcing.h"
#include "TimeSeries.h"
#include "TimeSeriesData.h"
#include "gen.h"
#include "ncw.h"
using namespace mon;
using namespace gen;

namespace {
struct Kind { VariableType type; std::vector<std::string> names; };
const std::map<std::string, Kind>& kinds() {
    static const std::map<std::string, Kind> k = {
        {"precipitation", {VariableType::Precipitation, {"precipitation", "p", "P", "Precipitation", "PRECIPITATION"}}},
        {"temperature", {VariableType::Temperature, {"temperature", "t", "T", "Temperature"}}},
        {"temperature_min", {VariableType::TemperatureMin, {"temperature_min", "t_min", "T_min"}}},
        {"temperature_max", {VariableType::TemperatureMax, {"temperature_max", "t_max", "T_MAX"}}},
        {"solar_radiation", {VariableType::Radiation, {"solar_radiation", "r_solar", "r", "R"}}},
        {"pet", {VariableType::PET, {"pet", "PET", "etp", "ETP"}}}};
    return k;
}
struct Content {
    std::vector<double> time;  // exact dates
    double stepDays;
    std::vector<int> ids;
    std::map<std::string, std::vector<std::vector<double>>> v;  // variable, column, date
    std::vector<std::string> order;                             // variables in the order of the file
};

ncw::File makeFile(Rng& r, const Spec& s, Content& e) {
    ncw::File f;
    f.format = r.p(0.6) ? NC_NETCDF4 : r.p(0.5) ? 0 : NC_64BIT_OFFSET;
    long rows = s.dataBefore + s.nsteps + s.dataAfter;
    std::vector<int> from;
    for (int j = 0; j < (int)s.units.size(); ++j) { e.ids.push_back(s.units[j].id); from.push_back(j); }
    for (int k = r.p(0.4) ? r.i(1, 3) : 0; k > 0; --k) { e.ids.push_back(100000 + k); from.push_back(-1); }
    for (size_t i = e.ids.size(); i > 1; --i) { int j = r.i(0, (int)i - 1); std::swap(e.ids[i - 1], e.ids[j]); std::swap(from[i - 1], from[j]); }
    size_t n = e.ids.size();
    f.dims = {{"time", (size_t)rows, r.p(0.15)}, {"hydro_units", n}};
    if (f.format == NC_NETCDF4 && r.p(0.2)) f.dims[1].unlimited = r.p(0.5);
    if (!f.dims[0].unlimited && !f.dims[1].unlimited && r.p(0.5)) std::swap(f.dims[0], f.dims[1]);
    if (f.format == NC_NETCDF4 && r.p(0.5)) std::swap(f.dims[0], f.dims[1]);
    e.stepDays = s.stepDays();
    bool whole = s.stepMinutes() % 1440 == 0 && s.startMin == 0;
    std::vector<double> t;
    for (long i = 0; i < rows; ++i) { e.time.push_back(s.dateOf(i - s.dataBefore)); t.push_back(e.time.back()); }
    nc_type tt = whole ? (r.p(0.4) ? NC_DOUBLE : r.p(0.5) ? NC_INT : NC_FLOAT) : NC_DOUBLE;
    if (tt == NC_DOUBLE && !whole && r.p(0.3)) { double w = r.p(0.5) ? 1e-9 : 0.3 / 86400; for (auto& x : t) x += r.uni(-w, w); }  // as computed by other tools
    ncw::Var tv{"time", tt, {"time"}, t, {}, r.p(0.3), {}};
    if (r.p(0.7)) tv.atts.push_back({"units", r.p(0.6) ? "days since 1858-11-17 00:00:00" : r.p(0.5) ? "days since 1858-11-17" : "days since 1858-11-17 00:00:00.0"});
    if (r.p(0.3)) tv.atts.push_back({"comment", "Modified Julian Day"});
    f.vars.push_back(tv);
    f.vars.push_back({"id", r.p(0.8) ? NC_INT : NC_DOUBLE, {"hydro_units"}, std::vector<double>(e.ids.begin(), e.ids.end()), {}, false, {}});
    auto add = [&](const std::string& name, auto&& value) {
        auto& k = kinds().at(name);
        ncw::Var v{r.p(0.5) ? k.names[0] : r.pick(k.names), r.p(0.5) ? NC_DOUBLE : NC_FLOAT, {}, {}, {}, r.p(0.3), {}};
        bool timeFirst = f.dim("hydro_units")->unlimited && f.format != NC_NETCDF4 ? false : f.dim("time")->unlimited && f.format != NC_NETCDF4 ? true : r.p(0.5);
        v.dims = timeFirst ? std::vector<std::string>{"time", "hydro_units"} : std::vector<std::string>{"hydro_units", "time"};
        v.values.resize(n * rows);
        auto& c = e.v[name];
        c.assign(n, std::vector<double>(rows));
        for (size_t j = 0; j < n; ++j)
            for (long i = 0; i < rows; ++i) {
                double x = value(i, from[j]);
                v.values[timeFirst ? i * n + j : j * rows + i] = x;
                c[j][i] = ncw::stored(x, v.type);
            }
        if (r.p(0.5)) v.atts.push_back({"units", "mm"});
        f.vars.push_back(v);
    };
    for (auto& [name, data] : s.forcing) add(name, [&](long i, int j) { return j >= 0 ? data(i, j) : r.uni(-50, 50); });
    for (auto& [name, k] : kinds()) if (!e.v.count(name) && r.p(0.1)) add(name, [&](long, int) { return r.uni(-50, 50); });  // not used by the model
    for (size_t i = f.vars.size(); i > 1; --i) std::swap(f.vars[i - 1], f.vars[r.i(0, (int)i - 1)]);
    for (auto& v : f.vars) for (auto& [name, k] : kinds()) for (auto& a : k.names) if (a == v.name && std::find(e.order.begin(), e.order.end(), name) == e.order.end()) e.order.push_back(name);
    if (r.p(0.2)) f.dims.push_back({"other", (size_t)r.i(1, 9)});
    f.atts.push_back({"version", {"1.0"}, false});
    return f;
}

std::string damage(Rng& r, ncw::File& f, const Content& e) {
    size_t n = e.ids.size(), T = e.time.size();
    std::vector<ncw::Var*> data;
    for (auto& v : f.vars) if (v.name != "id" && v.name != "time") data.push_back(&v);
    ncw::Var *v = data[r.i(0, (int)data.size() - 1)], *time = f.var("time"), *id = f.var("id");
    auto drop = [&](const std::string& name) { for (size_t i = 0; i < f.vars.size(); ++i) if (f.vars[i].name == name) { f.vars.erase(f.vars.begin() + i); return; } };
    auto rename = [&](const std::string& a, const std::string& b) { f.dim(a)->name = b; for (auto& x : f.vars) for (auto& d : x.dims) if (d == a) d = b; };
    auto units = [&](const std::string& u) {
        for (auto& a : time->atts) if (a.first == "units") { a.second = u; return; }
        time->atts.push_back({"units", u});
    };
    switch (r.i(0, 21)) {
        case 0: drop("time"); return "no time";
        case 1: drop("id"); return "no id";
        case 2: rename("time", "t_dim"); return "no time dimension";
        case 3: rename("hydro_units", "units"); return "no dimension of the units";
        case 4: v->name = "humidity"; return "unknown variable";
        case 5: v->dims = {"time"}; return "data without units";
        case 6: v->dims = {"hydro_units"}; return "data without dates";
        case 7: v->dims = {}; return "a single value";
        case 8: f.dims.push_back({"third", (size_t)r.i(1, 3)}); v->dims.insert(v->dims.begin() + r.i(0, 2), "third"); return "data with three dimensions";
        case 9: f.dims.push_back({"stations", r.p(0.5) ? n : (size_t)r.i(1, 40)}); for (auto& d : v->dims) if (d == "hydro_units") d = "stations"; return "data of other places";
        case 10: f.dims.push_back({"time2", r.p(0.5) ? T : (size_t)r.i(1, 400)}); for (auto& d : v->dims) if (d == "time") d = "time2"; return "data of other dates";
        case 11: if (f.format != NC_NETCDF4 && f.dim("time")->unlimited) return ""; v->dims = {"time", "time"}; return "dates twice";
        case 12: v->dims = {"hydro_units", "hydro_units"}; return "units twice";
        case 13: { f.dims.push_back({"other_ids", n + (size_t)r.i(1, 5)}); id->dims = {"other_ids"}; return "more identifiers than units"; }
        case 14: { f.dims.push_back({"other_times", T + (size_t)r.i(1, 5)}); time->dims = {"other_times"}; return "more dates than data"; }
        case 15: units(r.pick(std::vector<std::string>{"days since 1970-01-01", "hours since 1858-11-17 00:00:00", "seconds since 1970-01-01 00:00:00", "days since 2000-01-01 00:00:00", "minutes since 1858-11-17", "days since 1899-12-30", "days since 1858-11-16 00:00:00", "days since 1850-01-01"})); return "other time unit";
        case 16: { if (T < 3) return ""; size_t i = r.i(1, (int)T - 1); time->type = NC_DOUBLE; time->values[i] += e.stepDays * (r.p(0.5) ? r.uni(0.6, 3) : -r.uni(0.6, 3)); return "irregular dates"; }
        case 17: { time->type = NC_DOUBLE; time->values[r.i(0, (int)T - 1)] = NAN; return "missing date"; }
        case 18: { time->type = NC_DOUBLE; std::reverse(time->values.begin(), time->values.end()); return "decreasing dates"; }
        case 19: { if (T < 4) return ""; time->type = NC_DOUBLE; size_t i = r.i(0, (int)T - 2); time->values[i + 1] = time->values[i]; return "repeated date"; }
        case 20: v->type = NC_CHAR; return "text instead of data";
        case 21: { if (T < 5) return ""; time->type = NC_DOUBLE; size_t i = r.i(1, (int)T - 3); for (size_t k = i; k < T; ++k) time->values[k] += e.stepDays; return "gap in the dates"; }
    }
    return "";
}
}  // namespace

static void runCase(Ctx& c, const std::string& dir) {
    Rng& r = c.rng;
    auto bad = [&](const std::string& key, const std::string& d) { c.fail(key, d + "; " + c.sample); };
    Opts o;
    o.minSteps = 2; o.maxSteps = 60; o.maxUnits = 5; o.allowSubdaily = true; o.anyOrder = true; o.allowLateral = false;
    Spec s = randomSpec(r, o);
    Content e;
    ncw::File f = makeFile(r, s, e);
    c.sample = fmt("%zu dates, %zu columns, %zu variables, format %d, ", e.time.size(), e.ids.size(), e.v.size(), f.format) + s.describe();
    c.signature = fmt("%zu|%zu|%zu|%d|", e.time.size(), e.ids.size(), e.v.size(), f.format) + s.shortSig();
    std::vector<std::unique_ptr<TimeSeries>> list;
    // Damaged files first: nothing is added to the list.
    for (int k = r.i(0, 2); k > 0; --k) {
        std::string p = dir + "/damaged.nc", what;
        std::filesystem::remove_all(p);
        int kind = r.i(0, 9);
        if (kind <= 6) {
            ncw::File g = f;
            what = damage(r, g, e);
            if (what.empty() || !g.write(p)) continue;
        } else if (kind == 7) {
            what = "missing file";
        } else if (kind == 8) {
            if (f.format != NC_NETCDF4 || !f.write(p)) continue;
            std::string t = ncw::slurp(p);
            t.resize(r.i(0, (int)t.size() - 1));
            ncw::spill(p, t);
            what = "truncated file";
        } else {
            what = "no NetCDF file";
            ncw::spill(p, r.p(0.3) ? "" : "time,precipitation\n");
        }
        bool ok = true;
        try { ok = TimeSeries::Parse(p, list); } catch (std::exception& x) { bad("exception", what + ": " + x.what()); continue; }
        if (ok) bad("accepted", "accepted although: " + what);
        if (!ok && !list.empty()) bad("changed", "a refused file (" + what + ") added series");
        list.clear();
        c.count("damaged files");
    }
    std::string path = dir + "/forcing.nc";
    if (!f.write(path)) { c.count("not written"); return; }
    if (!TimeSeries::Parse(path, list)) { bad("refused", "a valid file is refused: " + capturedLog().substr(0, 300)); return; }
    if (list.size() != e.v.size()) { bad("content", fmt("%zu series instead of %zu", list.size(), e.v.size())); return; }
    size_t T = e.time.size();
    for (auto& [name, cols] : e.v) {
        TimeSeries* ts = nullptr;
        for (auto& x : list) if (x->GetVariableType() == kinds().at(name).type) { if (ts) bad("content", "two series of " + name); ts = x.get(); }
        if (!ts) { bad("content", "no series of " + name); return; }
        if (!ts->IsValid() || !ts->IsDistributed()) bad("content", "the series of " + name + " is not valid");
        if (!close(ts->GetStart(), e.time[0], 1e-6) || !close(ts->GetEnd(), e.time[T - 1], 1e-6)) bad("dates", fmt("%s from %.9g to %.9g instead of %.9g to %.9g", name.c_str(), ts->GetStart(), ts->GetEnd(), e.time[0], e.time[T - 1]));
        if (!close(ts->GetTimeStepInDays(), e.stepDays, 1e-9)) bad("dates", fmt("time step %.9g instead of %.9g", ts->GetTimeStepInDays(), e.stepDays));
        for (size_t j = 0; j < e.ids.size(); ++j) {
            TimeSeriesData* d = ts->GetDataPointer(e.ids[j]);
            bool jump = r.p(0.5);
            for (size_t i = 0; i < T; ++i) {
                bool ok = jump || i == 0 ? d->SetCursorToDate(e.time[i]) : d->AdvanceOneTimeStep();
                double x = ok ? d->GetCurrentValue() : NAN;
                if (x != cols[j][i]) { bad("content", fmt("%s, unit %d, date %zu: %.17g instead of %.17g", name.c_str(), e.ids[j], i, x, cols[j][i])); break; }
            }
            if (d->SetCursorToDate(e.time[0] - e.stepDays) || d->SetCursorToDate(e.time[T - 1] + e.stepDays)) bad("dates", "a date out of the file has a value");
        }
        c.count("values compared", (long)(T * e.ids.size()));
    }
    c.count("files compared");
    SettingsBasin sb;
    buildBasin(sb, s);
    double area = 0;
    for (auto& u : s.units) area += u.area;
    for (auto& [name, cols] : e.v)
        for (auto& x : list) if (x->GetVariableType() == kinds().at(name).type) {
            double want = 0, mag = 0;
            for (auto& u : s.units) for (size_t j = 0; j < e.ids.size(); ++j) if (e.ids[j] == u.id) for (double q : cols[j]) { want += q * u.area / area; mag += std::fabs(q) * u.area / area; }
            if (!close(x->GetTotal(&sb), want, 1e-9 * mag + 1e-9)) bad("total", fmt("total of %s %.12g instead of %.12g", name.c_str(), x->GetTotal(&sb), want));
        }
    if (!c.violations.empty() || !r.p(0.5)) return;
    // A run driven by the file against one with the same data given directly.
    try {
        Spec s2 = s;
        for (auto& [name, data] : s2.forcing)
            for (size_t j = 0; j < e.ids.size(); ++j)
                for (size_t u = 0; u < s.units.size(); ++u) if (s.units[u].id == e.ids[j]) for (size_t i = 0; i < T; ++i) data((long)i, (long)u) = e.v[name][j][i];
        auto direct = buildModel(s2);
        auto b = buildModel(s2, false);
        bool used = true;
        for (auto& x : list) used &= b->model->AddTimeSeries(std::move(x));
        if (!used || !b->model->AttachTimeSeriesToHydroUnits()) { bad("refused", "the series read are refused: " + capturedLog().substr(0, 300)); return; }
        auto r1 = direct->model->Run();
        auto r2 = b->model->Run();
        if ((bool)r1 != (bool)r2) { bad("run", "only one of the runs is refused"); return; }
        if (!r1) { c.count("refused runs"); return; }
        std::string df = diff(collect(*direct->model), collect(*b->model));
        if (!df.empty()) bad("run", "the run with the series read differs: " + df);
        c.count("runs compared");
    } catch (std::runtime_error& x) { c.count("not built"); if (c.verbose) printf("%s\n", x.what()); }
}

static void run(Ctx& c) {
    std::string dir = scratchDir() + fmt("/i03-%ld", c.index);
    std::filesystem::create_directories(dir);
    runCase(c, dir);
    std::filesystem::remove_all(dir);
}

Check mon::GetCheck() {
    return {"I03", 6000, 40000, run,
            "variables, dates, time step, unit identifiers and every value read from a forcing file (both orders of the dimensions, all names and types) equal those "
            "written by an independent writer, damaged files are refused without adding a series, and a run driven by the file equals bit for bit the one with the data given directly"};
}
