// Basin files: what is read against what was written (own writer), damaged files, and runs of the basins read.
#include <filesystem>

#include "gen.h"
#include "ncw.h"
using namespace mon;
using namespace gen;

namespace {
struct Expect {
    std::vector<int> ids;
    std::vector<double> area, elev;
    bool hasElev = false;
    std::vector<std::string> covers, types;
    std::vector<std::vector<double>> frac;  // cover, unit
    struct P { std::string name, unit; std::vector<double> v; };
    std::vector<P> props;
};

// The content of the settings as text (to see that a refused file changes nothing).
std::string dump(SettingsBasin& sb, size_t from = 0) {
    std::string d;
    for (size_t i = from; i < (size_t)sb.GetHydroUnitCount(); ++i) {
        HydroUnitSettings u = sb.GetHydroUnitSettings((int)i);
        d += fmt("%d %.17g %.17g;", u.id, u.area, u.elevation);
        for (auto& c : u.landCovers) d += fmt("%s/%s/%.17g;", c.name.c_str(), c.type.c_str(), c.fraction);
        for (auto& p : u.propertiesDouble) d += fmt("%s/%s/%.17g;", p.name.c_str(), p.unit.c_str(), p.value);
        for (auto& p : u.propertiesString) d += p.name + "/" + p.value + ";";
        d += "\n";
    }
    if (from == 0) for (auto& l : sb.GetLateralConnections()) d += fmt("%d>%d %.17g %s\n", l.giverHydroUnitId, l.receiverHydroUnitId, l.fraction, l.type.c_str());
    return d;
}
bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

std::string compare(SettingsBasin& sb, int from, const Expect& e) {
    int n = (int)e.ids.size();
    if (sb.GetHydroUnitCount() != from + n) return fmt("%d units instead of %d", sb.GetHydroUnitCount() - from, n);
    for (int i = 0; i < n; ++i) {
        HydroUnitSettings u = sb.GetHydroUnitSettings(from + i);
        if (u.id != e.ids[i]) return fmt("unit %d has the identifier %d instead of %d", i, u.id, e.ids[i]);
        if (!same(u.area, e.area[i])) return fmt("unit %d has the area %.17g instead of %.17g", i, u.area, e.area[i]);
        if (e.hasElev && !same(u.elevation, e.elev[i])) return fmt("unit %d has the elevation %.17g instead of %.17g", i, u.elevation, e.elev[i]);
        if (u.landCovers.size() != e.covers.size()) return fmt("unit %d has %zu covers instead of %zu", i, u.landCovers.size(), e.covers.size());
        for (size_t k = 0; k < e.covers.size(); ++k) {
            auto& c = u.landCovers[k];
            if (c.name != e.covers[k] || c.type != e.types[k]) return fmt("unit %d, cover %zu: %s (%s) instead of %s (%s)", i, k, c.name.c_str(), c.type.c_str(), e.covers[k].c_str(), e.types[k].c_str());
            if (!same(c.fraction, e.frac[k][i])) return fmt("unit %d: fraction of %s %.17g instead of %.17g", i, c.name.c_str(), c.fraction, e.frac[k][i]);
        }
        std::set<std::string> seen;
        for (auto& p : u.propertiesDouble) {
            if (!seen.insert(p.name).second) return fmt("unit %d has the property %s twice", i, p.name.c_str());
            bool known = false;
            for (auto& x : e.props) if (x.name == p.name) {
                known = true;
                if (!same(p.value, x.v[i]) || p.unit != x.unit) return fmt("unit %d, property %s: %.17g [%s] instead of %.17g [%s]", i, p.name.c_str(), p.value, p.unit.c_str(), x.v[i], x.unit.c_str());
            }
            for (size_t k = 0; k < e.covers.size(); ++k) if (e.covers[k] == p.name) {  // the fractions are also offered as properties
                known = true;
                if (!same(p.value, e.frac[k][i])) return fmt("unit %d, property %s: %.17g instead of %.17g", i, p.name.c_str(), p.value, e.frac[k][i]);
            }
            if (!known) return fmt("unit %d has the property %s, which the file does not contain", i, p.name.c_str());
        }
        for (auto& x : e.props) if (!seen.count(x.name)) return fmt("unit %d lacks the property %s", i, x.name.c_str());
        if (!u.propertiesString.empty() || !u.surfaceComponents.empty()) return fmt("unit %d has properties or components which the file does not contain", i);
    }
    return "";
}

// The properties of a unit asked for in the unit of the file, in another one, or in one they cannot have.
std::string askProperties(Rng& r, const HydroUnitSettings& us, const Expect& e, int i, Ctx& c) {
    HydroUnitSettings copy = us;
    HydroUnit unit;
    unit.SetProperties(copy);
    if (unit.GetId() != e.ids[i]) return fmt("the unit has the identifier %d instead of %d", (int)unit.GetId(), e.ids[i]);
    static const std::vector<std::string> deg = {"degrees", "degree", "deg", "°"}, sq = {"m2", "m^2"};
    static const std::vector<std::string> all = {"", "m", "degrees", "degree", "deg", "°", "radians", "rad", "percent", "%", "m/m", "m_per_m", "m2", "m^2", "ha", "km2", "km^2", "mm", "K"};
    auto in = [](const std::vector<std::string>& v, const std::string& x) { return std::find(v.begin(), v.end(), x) != v.end(); };
    for (auto& p : e.props) for (int k = 0; k < 3; ++k) {
        std::string to = k == 0 ? p.unit : r.pick(all);
        double x = p.v[i], want = NAN;
        bool known = true;
        if (to == p.unit) want = x;
        else if (in(deg, p.unit) && in(deg, to)) want = x;
        else if (in(deg, p.unit) && (to == "radians" || to == "rad")) want = x * M_PI / 180;
        else if (in(deg, p.unit) && (to == "percent" || to == "%")) want = 100 * std::tan(x * M_PI / 180);
        else if (in(deg, p.unit) && (to == "m/m" || to == "m_per_m")) want = std::tan(x * M_PI / 180);
        else if (in(sq, p.unit) && to == "ha") want = x / 1e4;
        else if (in(sq, p.unit) && (to == "km2" || to == "km^2")) want = x / 1e6;
        else known = false;
        // A conversion which is not offered may be added, but must then be right; between unlike units it cannot be.
        bool maybe = !known && !p.unit.empty() && !to.empty() && p.unit != "m" && to != "m" && to != "mm" && to != "K";
        try {
            double got = unit.GetPropertyDouble(p.name, to);
            if (!known && !maybe) return fmt("unit %d, property %s [%s] is given as %.17g [%s]", i, p.name.c_str(), p.unit.c_str(), got, to.c_str());
            double slack = std::abs(std::cos(x * M_PI / 180)) < 1e-3 ? INFINITY : 1e-9;  // tangents close to the vertical
            if (known && !close(got, want, slack, 1e-9) && !same(got, want)) return fmt("unit %d, property %s: %.17g [%s] instead of %.17g (%.17g [%s])", i, p.name.c_str(), got, to.c_str(), want, x, p.unit.c_str());
            if (known && !same(unit.GetPropertyFloat(p.name, to), (float)got)) return fmt("unit %d, property %s in single precision differs", i, p.name.c_str());
            c.count("properties asked for");
        } catch (std::exception& ex) {
            if (known) return fmt("unit %d, property %s [%s] is not given in [%s]: %s", i, p.name.c_str(), p.unit.c_str(), to.c_str(), ex.what());
            c.count("conversions refused");
        }
    }
    for (std::string no : {"slop", "no such property"}) {
        bool given = true;
        try { (void)unit.GetPropertyDouble(no, ""); } catch (std::exception&) { given = false; }
        if (given) return "a property that does not exist (" + no + ") is given";
    }
    return "";
}

// A random valid file and what it contains.
ncw::File randomFile(Rng& r, Expect& e, const Spec* s) {
    ncw::File f;
    f.format = r.p(0.6) ? NC_NETCDF4 : r.p(0.5) ? 0 : NC_64BIT_OFFSET;
    int n = s ? (int)s->units.size() : r.i(1, 12);
    f.dims.push_back({"hydro_units", (size_t)n, r.p(0.1)});
    auto real = [&] { return s || r.p(0.5) ? NC_DOUBLE : NC_FLOAT; };
    std::vector<int> id(n);
    int base = r.i(-5, 1000);
    for (int i = 0; i < n; ++i) { id[i] = s ? s->units[i].id : base + i * r.i(1, 1); }
    if (!s) for (int i = n; i > 1; --i) std::swap(id[i - 1], id[r.i(0, i - 1)]);
    e.ids = id;
    auto add = [&](const std::string& name, nc_type t, std::vector<double> v, std::vector<std::pair<std::string, std::string>> atts) {
        f.vars.push_back({name, t, {"hydro_units"}, v, atts, r.p(0.3), {}});
        for (auto& x : v) x = ncw::stored(x, t);
        return v;
    };
    add("id", r.p(0.8) ? NC_INT : NC_DOUBLE, std::vector<double>(id.begin(), id.end()), {});
    std::vector<double> a(n), z(n);
    for (int i = 0; i < n; ++i) { a[i] = s ? s->units[i].area : r.logu(1, 1e9); z[i] = s ? s->units[i].elev : r.uni(-400, 8000); }
    e.area = add("area", real(), a, {{"units", "m2"}});
    e.hasElev = s || r.p(0.8);
    if (e.hasElev) { e.elev = add("elevation", real(), z, {{"units", "m"}}); e.props.push_back({"elevation", "m", e.elev}); }
    std::vector<std::string> pool = {"ground", "open", "glacier", "glacier_ice", "glacier_debris", "forest", "lake", "Rocks and debris"};
    int nc = s ? (int)s->covers.size() : r.p(0.1) ? 0 : r.i(1, 6);
    if (f.format != NC_NETCDF4 && nc > 1) { if (s) f.format = NC_NETCDF4; else nc = 1; }
    for (int k = 0; k < nc; ++k) {
        if (!s) { int j = r.i(0, (int)pool.size() - 1); e.covers.push_back(pool[j]); pool.erase(pool.begin() + j); }
        else e.covers.push_back(s->covers[k]);
        e.types.push_back(s ? s->ctypes[k] : r.p(0.5) ? "generic_land_cover" : "glacier");
    }
    e.frac.resize(nc);
    std::vector<std::vector<double>> fr(nc, std::vector<double>(n));
    for (int i = 0; i < n; ++i) {
        double left = 1;
        for (int k = 0; k < nc; ++k) {
            fr[k][i] = s ? s->units[i].frac[k] : k == nc - 1 ? left : r.p(0.3) ? 0 : left * r.u();
            left -= fr[k][i];
        }
    }
    for (int k = 0; k < nc; ++k) e.frac[k] = add(e.covers[k], real(), fr[k], {{"units", "fraction"}, {"type", e.types[k]}});
    if (nc > 0 || r.p(0.5)) {
        bool str = f.format == NC_NETCDF4 && (nc != 1 || r.p(0.5));
        const char* name = r.p(0.6) ? "land_covers" : "surface_names";
        if (nc > 0) f.atts.push_back({name, e.covers, str});
        else if (str) f.atts.push_back({name, {}, true});
        if (nc > 0 && std::string(name) == "land_covers" && r.p(0.2)) f.atts.push_back({"surface_names", {"something"}, false});  // the first name counts
    }
    f.atts.push_back({"version", {"1.0"}, false});
    // Properties with or without units.
    std::vector<std::string> names = {"slope", "aspect", "latitude", "longitude", "x", "cat-1", "area_factor", "area2", "id_parent", "ident", "elevation_mean", "elev", "fraction", "type"};
    if (s) {
        std::vector<double> sl;
        for (auto& u : s->units) sl.push_back(u.slopeDeg);
        std::string su = r.pick(std::vector<std::string>{"degrees", "degree", "deg", "°"});
        e.props.push_back({"slope", su, add("slope", NC_DOUBLE, sl, {{"units", su}})});
        names.erase(names.begin());
    }
    for (int k = r.i(0, 3); k > 0; --k) {
        int j = r.i(0, (int)names.size() - 1);
        std::vector<double> v(n);
        for (auto& x : v) x = std::floor(r.uni(-1000, 1000)) + (r.p(0.5) ? r.u() : 0);
        nc_type t = r.p(0.4) ? NC_DOUBLE : r.p(0.4) ? NC_FLOAT : r.p(0.5) ? NC_INT : NC_SHORT;
        for (auto& x : v) if (t == NC_INT || t == NC_SHORT) x = std::floor(x);
        std::string unit = r.p(0.2) ? "" : r.pick(std::vector<std::string>{"m", "m", "degrees", "degree", "deg", "°", "m2", "m^2", "km2", "ha", "percent", "rad", "m/m"});
        std::vector<std::pair<std::string, std::string>> atts;
        if (!unit.empty()) atts.push_back({"units", unit});
        if (r.p(0.3)) atts.push_back({"long_name", "a name"});
        e.props.push_back({names[j], unit, add(names[j], t, v, atts)});
        names.erase(names.begin() + j);
    }
    // Content that does not describe units.
    if (r.p(0.3)) { f.dims.push_back({"bands", r.p(0.5) ? (size_t)n : (size_t)r.i(1, 5)}); f.vars.push_back({"band_limits", NC_DOUBLE, {"bands"}, {1, 2, 3}, {}}); }
    if (r.p(0.2)) { f.dims.push_back({"months", 12}); f.vars.push_back({"monthly", NC_FLOAT, r.p(0.5) ? std::vector<std::string>{"hydro_units", "months"} : std::vector<std::string>{"months", "hydro_units"}, {1, 2, 3}, {}}); }
    if (r.p(0.2)) f.vars.push_back({"crs", NC_INT, {}, {4326}, {{"grid_mapping_name", "x"}}});
    for (size_t i = f.vars.size(); i > 1; --i) std::swap(f.vars[i - 1], f.vars[r.i(0, (int)i - 1)]);
    if (r.p(0.5) && f.dims.size() > 1) {  // another position of the dimension (an unlimited one must come first in classic files)
        if (!f.dims[0].unlimited || f.format == NC_NETCDF4) std::swap(f.dims[0], f.dims[1]);
    }
    if (f.format != NC_NETCDF4) f.dim("hydro_units")->unlimited = false;
    return f;
}

// Damages the description: the file cannot be read as a basin any more. Empty: not applicable.
std::string damage(Rng& r, ncw::File& f, const Expect& e) {
    size_t n = e.ids.size();
    auto drop = [&](const std::string& name) { for (size_t i = 0; i < f.vars.size(); ++i) if (f.vars[i].name == name) { f.vars.erase(f.vars.begin() + i); return; } };
    auto reshape = [&](ncw::Var* v, const std::string& what) -> std::string {
        int k = r.i(0, 3);
        std::string base = v->name;
        if (k == 0) { f.dims.push_back({"short_dim", n > 1 ? n - 1 : 2}); v->dims = {"short_dim"}; return what + " is too short"; }
        if (k == 1) { f.dims.push_back({"long_dim", n + (size_t)r.i(1, 30)}); v->dims = {"long_dim"}; return what + " is too long"; }
        if (k == 2) { f.dims.push_back({"second", (size_t)r.i(2, 6)}); v->dims = r.p(0.5) ? std::vector<std::string>{"hydro_units", "second"} : std::vector<std::string>{"second", "hydro_units"}; return what + " has two dimensions"; }
        if (n == 1) return "";
        v->dims.clear();
        return what + " is a single value";
    };
    switch (r.i(0, 9)) {
        case 0: drop("id"); return "no id";
        case 1: drop("area"); return "no area";
        case 2: if (e.covers.empty()) return ""; drop(r.pick(e.covers)); return "no values of a cover";
        case 3: {
            if (e.covers.empty()) return "";
            auto* v = f.var(r.pick(e.covers));
            for (size_t i = 0; i < v->atts.size(); ++i) if (v->atts[i].first == "type") { v->atts.erase(v->atts.begin() + i); break; }
            return "no type of a cover";
        }
        case 4: f.dim("hydro_units")->name = "units"; for (auto& v : f.vars) for (auto& d : v.dims) if (d == "hydro_units") d = "units"; return "no dimension of the units";
        case 5: return reshape(f.var("id"), "id");
        case 6: return reshape(f.var("area"), "area");
        case 7: if (e.covers.empty()) return ""; return reshape(f.var(r.pick(e.covers)), "a cover");
        case 8: { auto* v = f.var(r.p(0.5) ? "id" : "area"); v->type = NC_CHAR; return v->name + " is text"; }
        case 9: { f.var("area")->name = "Area_m2"; return "another name of the area"; }
    }
    return "";
}
}  // namespace

static void runCase(Ctx& c, const std::string& dir) {
    Rng& r = c.rng;
    auto bad = [&](const std::string& key, const std::string& d) { c.fail(key, d + "; " + c.sample); };
    bool model = r.p(0.3);
    Spec s;
    if (model) {
        Opts o;
        o.allowAspect = false; o.allowLateral = true; o.minSteps = 2; o.maxSteps = 40; o.maxUnits = 5; o.allowSubdaily = true; o.anyOrder = true;
        s = randomSpec(r, o);
        s.omitZero = false;
    }
    Expect e;
    ncw::File f = randomFile(r, e, model ? &s : nullptr);
    std::string path = dir + "/basin.nc";
    c.sample = fmt("%zu units, %zu covers, %zu properties, format %d", e.ids.size(), e.covers.size(), e.props.size(), f.format) + (model ? ", " + s.describe() : "");
    c.signature = fmt("%zu|%zu|%zu|%d|%ld", e.ids.size(), e.covers.size(), e.props.size(), f.format, c.index);
    // What the settings contain already.
    SettingsBasin sb;
    int from = 0;
    if (!model && r.p(0.3)) {
        from = r.i(1, 3);
        for (int i = 0; i < from; ++i) { sb.AddHydroUnit(90000 + i, 10.0 + i, 5); sb.AddLandCover("ground", "generic_land_cover", 1); sb.AddHydroUnitPropertyDouble("slope", 1, "degrees"); sb.AddHydroUnitPropertyString("aspect_class", "N"); }
        sb.AddLateralConnection(90000, 90001, 0.5);
        if (r.p(0.5)) {
            sb.Clear();
            if (sb.GetHydroUnitCount() != 0 || !sb.GetLateralConnections().empty()) bad("clear", "the cleared settings are not empty");
            from = 0;
        }
    }
    std::string before = dump(sb);
    int damages = r.i(0, 2);
    for (int k = 0; k < damages; ++k) {  // damaged files first: the settings stay as they were
        std::string p = dir + "/damaged.nc", what;
        int kind = r.i(0, 9);
        std::filesystem::remove_all(p);
        if (kind <= 5) {
            ncw::File g = f;
            what = damage(r, g, e);
            if (what.empty() || !g.write(p)) continue;
        } else if (kind == 6) {
            what = "missing file";
        } else if (kind == 7) {
            what = "directory or text";
            if (r.p(0.5)) std::filesystem::create_directories(p);
            else ncw::spill(p, r.p(0.5) ? "" : std::string("id,area\n1,2\n"));
        } else {
            // The NetCDF and HDF5 libraries do not survive every corruption, and fill the missing end of a truncated classic file.
            std::string t;
            if (kind == 8) {
                if (f.format != NC_NETCDF4 || !f.write(p)) continue;
                t = ncw::slurp(p);
                what = fmt("truncated file (%zu bytes", t.size());
                t.resize(r.i(0, (int)t.size() - 1));
                what += fmt(" to %zu)", t.size());
            } else {
                what = "random bytes";
                for (int q = r.i(1, 2000); q > 0; --q) t += (char)r.i(0, 255);
                t[0] = '#';
            }
            ncw::spill(p, t);
        }
        bool ok = true;
        try { ok = sb.Parse(p); } catch (std::exception& x) { bad("exception", what + ": " + x.what()); }
        if (ok) bad("accepted", "accepted although: " + what);
        std::string now = dump(sb);
        if (!ok && now != before) { bad("changed", "a refused file (" + what + ") changed the settings from " + before.substr(0, 200) + " to " + now.substr(0, 200)); return; }
        c.count("damaged files");
    }
    if (!f.write(path)) { c.count("not written"); return; }
    if (!sb.Parse(path)) { bad("refused", "a valid file is refused: " + capturedLog().substr(0, 300)); return; }
    std::string d = compare(sb, from, e);
    if (!d.empty()) bad("content", d);
    if (e.ids.size() && r.p(0.5)) {
        int i = r.i(0, (int)e.ids.size() - 1);
        std::string p = askProperties(r, sb.GetHydroUnitSettings(from + i), e, i, c);
        if (!p.empty()) bad("property", p);
    }
    c.count("files compared");
    c.count("units compared", (long)e.ids.size());
    double total = 0;
    for (double a : e.area) total += a;
    for (int i = 0; i < from; ++i) total += 10.0 + i;
    if (!close(sb.GetTotalArea(), total, 0, 1e-12)) bad("content", fmt("total area %.17g instead of %.17g", sb.GetTotalArea(), total));
    if (!model || !c.violations.empty()) return;
    // A basin that makes no sense is refused by the reading or the building of the model.
    if (r.p(0.4)) {
        ncw::File g = f;
        size_t i = r.i(0, (int)e.ids.size() - 1), k = r.i(0, (int)e.covers.size() - 1);
        auto& area = g.var("area")->values[i];
        auto& fr = g.var(e.covers[k])->values[i];
        std::string what;
        int lateral = 0;
        switch (r.i(0, 9)) {
            case 0: area = 0; what = "no area"; break;
            case 1: area = -area; what = "negative area"; break;
            case 2: area = NAN; what = "missing area"; break;
            case 3: fr = NAN; what = "missing fraction"; break;
            case 4: fr += r.p(0.5) ? r.uni(0.001, 0.5) : -r.uni(0.001, 0.5); what = "fractions do not sum to one"; break;
            case 5: {
                if (e.covers.size() < 2) break;
                double d = fr + r.uni(0.01, 0.5);
                fr -= d;
                g.var(e.covers[(k + 1) % e.covers.size()])->values[i] += d;
                what = "negative fraction";
                break;
            }
            case 6: area = INFINITY; what = "infinite area"; break;
            default: lateral = r.i(1, 4); what = lateral == 1 ? "connection to an unknown unit" : lateral == 2 ? "connection from an unknown unit" : "fraction of a connection"; break;
        }
        if (!what.empty() && g.write(dir + "/nonsense.nc")) {
            SettingsBasin nb;
            SettingsModel sm;
            buildSettings(sm, s);
            if (nb.Parse(dir + "/nonsense.nc")) {
                int id = s.units[0].id, other = s.units.back().id, no = 987654;
                if (lateral == 1) nb.AddLateralConnection(id, no, 0.5);
                if (lateral == 2) nb.AddLateralConnection(no, id, 0.5);
                if (lateral == 3) nb.AddLateralConnection(id, other, r.p(0.5) ? r.uni(1.01, 3) : -r.uni(0, 1));
                if (lateral == 4) nb.AddLateralConnection(id, other, r.p(0.5) ? 0 : NAN);
                ModelHydro m;
                bool ok = false;
                try { ok = (bool)m.InitializeWithBasin(sm, nb); } catch (std::exception& x) { bad("exception", what + ": " + x.what()); }
                if (ok) bad("accepted", "a model is built although: " + what);
            }
            c.count("inconsistent basins");
        }
    }
    // The model built from the file runs as the one built directly.
    try {
        auto direct = buildModel(s);
        for (auto& l : s.lats) sb.AddLateralConnection(l.giver, l.receiver, l.fraction);
        auto b = std::make_unique<Built>();
        buildSettings(b->sm, s);
        b->model = std::make_unique<ModelHydro>();
        auto rr = b->model->InitializeWithBasin(b->sm, sb);
        if (!rr) { bad("refused", "the basin read from the file is refused: " + rr.error()); return; }
        setInitialIce(*b->model, s);
        attachForcing(*b->model, s);
        auto r1 = direct->model->Run();
        auto r2 = b->model->Run();
        if ((bool)r1 != (bool)r2) { bad("run", "only one of the runs is refused"); return; }
        if (!r1) { c.count("refused runs"); return; }
        std::string df = diff(collect(*direct->model), collect(*b->model));
        if (!df.empty()) bad("run", "the run of the basin read differs: " + df);
        c.count("runs compared");
        b->model.reset();
    } catch (std::runtime_error& x) { c.count("not built"); if (c.verbose) printf("%s\n", x.what()); }
}

static void run(Ctx& c) {
    std::string dir = scratchDir() + fmt("/i02-%ld", c.index);
    std::filesystem::create_directories(dir);
    runCase(c, dir);
    std::filesystem::remove_all(dir);
}

Check mon::GetCheck() {
    return {"I02", 8000, 40000, run,
            "the units, areas, elevations, properties with units, covers with types and fractions read from a basin file equal those written by an independent writer, "
            "damaged files are refused without changing the settings, and a model built from the file runs bit for bit as one built directly"};
}
