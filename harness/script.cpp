#include "script.h"

#include <cmath>
#include <filesystem>
#include <limits>
#include <sstream>

#include "ActionGlacierEvolutionAreaScaling.h"
#include "ActionGlacierEvolutionDeltaH.h"
#include "ActionGlacierSnowToIceTransformation.h"
#include "Parameter.h"
#include "ParameterModifier.h"
#include "gen_build.h"

namespace script {
using gen::Spec;
using mon::fmt;
using mon::Rng;

std::string Op::str() const {
    std::ostringstream o;
    o << f << '(';
    for (size_t i = 0; i < s.size(); ++i) o << (i ? "," : "") << '"' << s[i] << '"';
    for (size_t i = 0; i < d.size(); ++i) o << (i || !s.empty() ? "," : "") << d[i];
    o << ')';
    return o.str();
}

static int toInt(double v) {
    if (!(v == v)) return 0;
    if (v >= 2147483647.0) return std::numeric_limits<int>::max();
    if (v <= -2147483648.0) return std::numeric_limits<int>::min();
    return (int)v;
}

std::vector<Op> record(const Spec& s, bool withParams) {
    Recorder r;
    gen::tpl::buildSettings(r, s, withParams);
    gen::tpl::buildBasin(r, s);
    return r.ops;
}

std::vector<Op> workload(Rng& r, const Spec& s) {
    std::vector<Op> o;
    o.push_back({"Init", {}, {}});
    if (!s.initIce.empty() && !s.infGl) o.push_back({"SetIce", {}, {}});
    if (!s.changes.empty()) o.push_back({"AddChanges", {}, {}});
    for (size_t i = 0; i < s.tables.size(); ++i) o.push_back({"AddTable", {}, {(double)i}});
    for (size_t i = 0; i < s.iceDates.size(); ++i) o.push_back({"AddIceDate", {}, {(double)i}});
    for (auto& [n, d] : s.forcing) o.push_back({"AddForcing", {n}, {0}});
    o.push_back({"Attach", {}, {}});
    o.push_back({"Run", {}, {}});
    int n = r.i(0, 5);
    for (int i = 0; i < n; ++i) {
        double q = r.u();
        if (q < 0.25) o.push_back({"Getters", {}, {}});
        else if (q < 0.4) o.push_back({"Dump", {}, {}});
        else if (q < 0.5) o.push_back({"SaveState", {}, {}});
        else if (q < 0.6) o.push_back({"Update", {}, {0}});
        else if (q < 0.65) { o.push_back({"ClearForcing", {}, {}}); for (auto& [k, d] : s.forcing) o.push_back({"AddForcing", {k}, {0}}); o.push_back({"Attach", {}, {}}); }
        else { o.push_back({"Reset", {}, {}}); o.push_back({"Run", {}, {}}); }
    }
    return o;
}

static const std::vector<std::string>& processTypes() {
    static const std::vector<std::string> v = {"capillary:hbv", "et:exponential", "et:gr4j", "et:hbv", "et:linear", "et:open_water", "et:power_law",
        "et:socont", "infiltration:gr4j", "infiltration:hbv", "infiltration:socont", "interception:gr4j", "melt:cemaneige", "melt:degree_day",
        "melt:degree_day_aspect", "melt:temperature_index", "outflow:direct", "outflow:linear", "outflow:overflow", "outflow:percolation", "outflow:rest",
        "outflow:snow_holding", "outflow:threshold", "overflow", "percolation:constant", "percolation:gr4j", "production:gr4j", "refreeze:degree_day",
        "routing:gr4j", "routing:gr6j", "routing:hbv", "runoff:hbv", "runoff:socont", "sublimation:constant", "sublimation:pet",
        "transform:snow_ice_constant", "transformation:snow_ice_swat", "transport:snow_redistribution_frey", "transport:snow_redistribution_frey_dynamic",
        "transport:snow_slide", "nonexistent", ""};
    return v;
}
static const std::vector<std::string>& brickTypes() {
    static const std::vector<std::string> v = {"storage", "generic_land_cover", "ground", "generic", "open", "glacier", "snowpack", "interception_storage", "nonexistent", ""};
    return v;
}
static double hostile(Rng& r) {
    static const std::vector<double> v = {0, -0.0, 1, -1, 2, 0.5, -0.5, 1e-9, -1e-9, 1e-300, 1e9, -1e9, 1e30, 1e300, -1e300, std::nan(""),
        std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), 2147483647, -2147483648.0, 3, 7, 100, 13, 365};
    return r.pick(v);
}

std::string mutate(Rng& r, std::vector<Op>& ops, const Spec& s, int n) {
    std::string log;
    std::vector<std::string> names = {"", "outlet", "lateral", "atmosphere", "nonexistent", "rain_splitter", "snow_splitter", "snow_rain_transition", "lateral:snow", "a:b:c", ":", "ü"};
    for (auto& c : s.covers) { names.push_back(c); names.push_back(c + "_snowpack"); names.push_back(c + "_canopy"); names.push_back(c + ":ice"); names.push_back(c + "_snowpack:snow"); }
    for (auto& o : ops) if (o.f == "AddHydroUnitBrick" || o.f == "AddSubBasinBrick" || o.f == "AddBrickProcess") names.push_back(o.s[0]);
    std::vector<std::string> pnames = {"capacity", "infinite_storage", "no_melt_when_snow_cover", "nonexistent"};
    for (auto& o : ops) if (o.f == "SetParameterValue") pnames.push_back(o.s[1]);
    for (int k = 0; k < n && !ops.empty(); ++k) {
        size_t i = r.next() % ops.size();
        double q = r.u();
        if (r.p(0.06)) {  // the basin is described anew, from its beginning or in its middle
            std::vector<Op> g;
            if (r.p(0.6)) g.push_back(Op{r.p(0.5) ? "BasinSelect" : "AddHydroUnit", {}, {(double)r.i(0, 2), 100, 500}});
            g.push_back(Op{"BasinClear", {}, {}});
            for (int a = r.i(1, 3); a > 0; --a) {
                double w = r.u();
                if (w < 0.3) g.push_back(Op{"AddLandCover", {r.pick(names), r.pick(brickTypes())}, {r.u()}});
                else if (w < 0.6) g.push_back(Op{"AddHydroUnitPropertyDouble", {"slope", "m/m"}, {r.u()}});
                else if (w < 0.7) g.push_back(Op{"AddHydroUnitPropertyString", {"name", r.pick(names)}, {}});
                else if (w < 0.8) g.push_back(Op{"BasinSelect", {}, {(double)r.i(0, 2)}});
                else if (w < 0.9) g.push_back(Op{"AddHydroUnit", {}, {(double)r.i(1, 30), 100, 500}});
                else g.push_back(Op{"AddLateralConnection", {}, {1, 2, 0.5}});
            }
            size_t at = i;
            for (size_t j = 0; j < ops.size(); ++j) if (ops[j].f == "AddHydroUnit" && r.p(0.4)) { at = j + 1; break; }
            log += fmt("anew@%zu ", at);
            for (auto& o : g) log += o.str() + " ";
            log += "; ";
            ops.insert(ops.begin() + at, g.begin(), g.end());
            continue;
        }
        if (q < 0.15) { log += "del " + ops[i].str() + "; "; ops.erase(ops.begin() + i); }
        else if (q < 0.25) {
            size_t j = r.p(0.5) ? i + 1 : r.next() % (ops.size() + 1);
            Op c = ops[i];
            log += fmt("repeat@%zu ", j) + c.str() + "; ";
            ops.insert(ops.begin() + j, c);
        } else if (q < 0.35) {
            size_t j = r.p(0.6) && i + 1 < ops.size() ? i + 1 : r.next() % ops.size();
            log += fmt("swap %zu %zu ", i, j) + ops[i].str() + "/" + ops[j].str() + "; ";
            std::swap(ops[i], ops[j]);
        } else if (q < 0.75) {
            Op& o = ops[i];
            std::string before = o.str();
            if (!o.s.empty() && (o.d.empty() || r.p(0.6))) {
                size_t a = r.next() % o.s.size();
                if (o.f == "AddBrickProcess" && a == 1) o.s[a] = r.pick(processTypes());
                else if ((o.f == "AddHydroUnitBrick" || o.f == "AddLandCoverBrick" || o.f == "AddSubBasinBrick" || o.f == "AddLandCover") && a == 1) o.s[a] = r.pick(brickTypes());
                else if (o.f == "GenerateSnowpacks" || (o.f == "GenerateSnowpacksWithWaterRetention") || o.f.rfind("AddSnow", 0) == 0) o.s[a] = r.pick(processTypes());
                else if (o.f == "SetSolver") o.s[a] = r.pick(std::vector<std::string>{"rk4", "euler_explicit", "heun_explicit", "implicit_euler", "crank_nicolson", "exponential_euler", "nonexistent", ""});
                else if (o.f == "GeneratePrecipitationSplitters") o.s[a] = r.pick(std::vector<std::string>{"snow_rain:linear", "snow_rain:threshold", "snow_rain:cemaneige", "multi_fluxes", "rain", "nonexistent", ""});
                else if (o.f == "SetParameterValue" && a == 1) o.s[a] = r.pick(pnames);
                else if (o.f == "SetTimer") o.s[a] = a == 2 ? r.pick(std::vector<std::string>{"day", "hour", "week", "month", "", "nonsense"}) : r.pick(std::vector<std::string>{"", "2020-13-45", "1850-01-01", "20200101", "nonsense", "2020-01-01", s.nsteps > 0 ? gen::dateStr(s.start()) : "", "01.02.2020", "2020-02-30 25:61:00"});
                else if (o.f == "AddHydroUnitPropertyDouble" && a == 1) o.s[a] = r.pick(std::vector<std::string>{"", "m", "degrees", "radians", "nonsense", "m/m", "percent"});
                else o.s[a] = r.pick(names);
            } else if (!o.d.empty()) {
                size_t a = r.next() % o.d.size();
                if (o.f == "SetTimer") o.d[a] = r.pick(std::vector<double>{0, -1, 1, 2, 3, 7, 100});
                else if (o.f == "AddHydroUnit" && a == 0) o.d[a] = r.p(0.5) ? (double)s.units[r.i(0, (int)s.units.size() - 1)].id : hostile(r);
                else o.d[a] = hostile(r);
            } else { k--; if (r.p(0.2)) k++; continue; }
            log += before + "->" + o.str() + "; ";
        } else {
            // A call that the construction does not use, anywhere.
            static const std::vector<std::string> fs = {"SelectSubBasinBrick", "SelectHydroUnitBrick", "SelectHydroUnitBrickI", "SelectSubBasinBrickI", "SelectProcess", "SelectProcessI", "SelectStructure",
                "SelectHydroUnitSplitter", "SelectHydroUnitSplitterI", "SelectSubBasinSplitterI", "AddHydroUnitSplitter", "AddSubBasinSplitter", "AddSplitterOutput", "AddSplitterParameter", "AddSplitterForcing", "AddSplitterLogging",
                "AddBrickLogging", "AddProcessLogging", "AddBrickForcing", "AddProcessForcing", "AddProcessParameter", "SetProcessParameterValue", "SetBrickParameterValue", "SetSplitterParameterValue",
                "SetProcessOutputsAsStatic", "SetProcessOutputsAsInstantaneous", "OutputProcessToSameBrick", "SetCurrentBrickComputedDirectly", "SetSurfaceComponentParent", "AddSurfaceComponentBrick",
                "AddBrickProcess", "AddProcessOutput", "AddStructure", "AddSnowpackRefreezing", "AddSnowpackSublimation", "AddSnowIceTransformation", "AddSnowRedistribution", "GenerateSnowpacks",
                "GenerateCanopyInterception", "SetRecordFractions", "AddLoggingToItem", "ChangeSplitterOutputTarget", "BasinClear", "BasinSelect", "SelectProcessWithParameter", "AddHydroUnitBrick", "AddSubBasinBrick",
                "AddLandCover", "AddLateralConnection", "AddHydroUnit", "AddHydroUnitPropertyDouble", "SetParameterValue"};
            static const std::vector<std::string> ms = {"Init", "Run", "Reset", "SaveState", "Update", "Dump", "Getters", "ClearForcing", "Attach", "AddForcing", "AddBadTable", "AddBadChange", "AddBadIceDate", "Actions", "NewModel"};
            bool model = r.p(0.35);
            Op o{model ? r.pick(ms) : r.pick(fs), {}, {}};
            for (int a = 0; a < 3; ++a) o.s.push_back(r.pick(names));
            if (o.f == "AddBrickProcess") o.s[1] = r.pick(processTypes());
            if (o.f.find("Brick") != std::string::npos && o.f != "AddBrickProcess") o.s[1] = r.pick(brickTypes());
            if (o.f == "AddSnowpackRefreezing" || o.f == "AddSnowpackSublimation" || o.f == "AddSnowIceTransformation" || o.f == "AddSnowRedistribution" || o.f == "GenerateSnowpacks") o.s[0] = r.pick(processTypes());
            if (o.f.find("Forcing") != std::string::npos) o.s[0] = r.pick(std::vector<std::string>{"precipitation", "temperature", "temperature_min", "temperature_max", "pet", "solar_radiation", "nonsense", ""});
            if (o.f.find("Logging") != std::string::npos) o.s[0] = r.pick(std::vector<std::string>{"outlet", "water_content", "snow_content", "ice_content", "output", "rain", "snow", "nonsense", ""});
            if (o.f.find("Param") != std::string::npos) o.s[o.f == "SetParameterValue" ? 1 : 0] = r.pick(pnames);
            if (o.f == "AddHydroUnitSplitter" || o.f == "AddSubBasinSplitter") o.s[1] = r.pick(std::vector<std::string>{"snow_rain:linear", "snow_rain:threshold", "snow_rain:cemaneige", "multi_fluxes", "rain", "nonexistent", ""});
            for (int a = 0; a < 3; ++a) o.d.push_back(hostile(r));
            log += fmt("insert@%zu ", i) + o.str() + "; ";
            ops.insert(ops.begin() + i, o);
        }
    }
    return log;
}

static axxd badTable(const std::vector<double>& d, int rows, int cols) {
    axxd t(rows, cols);
    for (int i = 0; i < rows; ++i) for (int j = 0; j < cols; ++j) t(i, j) = d[(i + j) % d.size()] * (rows - i);
    return t;
}

static void call(Session& x, const Op& o) {
    auto S = [&](size_t i) -> std::string { return i < o.s.size() ? o.s[i] : ""; };
    auto D = [&](size_t i) -> double { return i < o.d.size() ? o.d[i] : 0; };
    auto I = [&](size_t i) -> int { return toInt(D(i)); };
    auto F = [&](size_t i) -> float { return std::isfinite(D(i)) && std::fabs(D(i)) > 3e38 ? (float)(D(i) > 0 ? 3e38 : -3e38) : (float)D(i); };
    auto refuse = [&](bool ok) { if (!ok) x.refused++; };
    const std::string& f = o.f;
    SettingsModel& m = x.sm;
    ModelHydro* h = x.model.get();
    // ------------------------------------------------------------------ settings of the model
    if (f == "SetSolver") m.SetSolver(S(0));
    else if (f == "SetTimer") m.SetTimer(S(0), S(1), I(0), S(2));
    else if (f == "SetSpinupDays") m.SetSpinupDays(I(0));
    else if (f == "SetLogAll") m.SetLogAll(I(0) != 0);
    else if (f == "SetRecordFractions") m.SetRecordFractions(true);
    else if (f == "GeneratePrecipitationSplitters") m.GeneratePrecipitationSplitters(I(0) != 0, S(0));
    else if (f == "AddLandCoverBrick") m.AddLandCoverBrick(S(0), S(1));
    else if (f == "AddHydroUnitBrick") m.AddHydroUnitBrick(S(0), S(1));
    else if (f == "AddSubBasinBrick") m.AddSubBasinBrick(S(0), S(1));
    else if (f == "AddSurfaceComponentBrick") m.AddSurfaceComponentBrick(S(0), S(1));
    else if (f == "SetSurfaceComponentParent") m.SetSurfaceComponentParent(S(0));
    else if (f == "SelectHydroUnitBrick") m.SelectHydroUnitBrick(S(0));
    else if (f == "SelectSubBasinBrick") m.SelectSubBasinBrick(S(0));
    else if (f == "SelectHydroUnitBrickI") m.SelectHydroUnitBrick(I(0));
    else if (f == "SelectSubBasinBrickI") m.SelectSubBasinBrick(I(0));
    else if (f == "SelectProcess") m.SelectProcess(S(0));
    else if (f == "SelectProcessI") m.SelectProcess(I(0));
    else if (f == "SelectProcessWithParameter") m.SelectProcessWithParameter(S(0));
    else if (f == "SelectHydroUnitSplitter") m.SelectHydroUnitSplitter(S(0));
    else if (f == "SelectHydroUnitSplitterI") m.SelectHydroUnitSplitter(I(0));
    else if (f == "SelectSubBasinSplitterI") m.SelectSubBasinSplitter(I(0));
    else if (f == "AddBrickParameter") m.AddBrickParameter(S(0), F(0));
    else if (f == "SetBrickParameterValue") m.SetBrickParameterValue(S(0), F(0));
    else if (f == "AddBrickForcing") m.AddBrickForcing(S(0));
    else if (f == "AddBrickProcess") m.AddBrickProcess(S(0), S(1), S(2));
    else if (f == "AddProcessParameter") m.AddProcessParameter(S(0), F(0));
    else if (f == "SetProcessParameterValue") m.SetProcessParameterValue(S(0), F(0));
    else if (f == "AddProcessForcing") m.AddProcessForcing(S(0));
    else if (f == "AddProcessOutput") m.AddProcessOutput(S(0));
    else if (f == "AddProcessLogging") m.AddProcessLogging(S(0));
    else if (f == "AddBrickLogging") m.AddBrickLogging(S(0));
    else if (f == "SetProcessOutputsAsInstantaneous") m.SetProcessOutputsAsInstantaneous();
    else if (f == "SetProcessOutputsAsStatic") m.SetProcessOutputsAsStatic();
    else if (f == "OutputProcessToSameBrick") m.OutputProcessToSameBrick();
    else if (f == "SetCurrentBrickComputedDirectly") m.SetCurrentBrickComputedDirectly();
    else if (f == "GenerateCanopyInterception") m.GenerateCanopyInterception(S(0), S(1));
    else if (f == "GenerateSnowpacks") m.GenerateSnowpacks(S(0));
    else if (f == "GenerateSnowpacksWithWaterRetention") m.GenerateSnowpacksWithWaterRetention(S(0), S(1), I(0) != 0);
    else if (f == "AddSnowpackRefreezing") m.AddSnowpackRefreezing(S(0));
    else if (f == "AddSnowIceTransformation") m.AddSnowIceTransformation(S(0));
    else if (f == "AddSnowRedistribution") m.AddSnowRedistribution(S(0), I(0) != 0);
    else if (f == "AddSnowpackSublimation") m.AddSnowpackSublimation(S(0));
    else if (f == "AddLoggingToItem") m.AddLoggingToItem(S(0));
    else if (f == "AddHydroUnitSplitter") m.AddHydroUnitSplitter(S(0), S(1));
    else if (f == "AddSubBasinSplitter") m.AddSubBasinSplitter(S(0), S(1));
    else if (f == "AddSplitterOutput") m.AddSplitterOutput(S(0));
    else if (f == "AddSplitterParameter") m.AddSplitterParameter(S(0), F(0));
    else if (f == "SetSplitterParameterValue") m.SetSplitterParameterValue(S(0), F(0));
    else if (f == "AddSplitterForcing") m.AddSplitterForcing(S(0));
    else if (f == "AddSplitterLogging") m.AddSplitterLogging(S(0));
    else if (f == "ChangeSplitterOutputTarget") m.ChangeSplitterOutputTarget(S(0), S(1));
    else if (f == "AddStructure") m.AddStructure();
    else if (f == "SelectStructure") refuse(m.SelectStructure(I(0)));
    else if (f == "SetParameterValue") refuse(m.SetParameterValue(S(0), S(1), F(0)));
    // ------------------------------------------------------------------ basin
    else if (f == "AddHydroUnit") x.sb.AddHydroUnit(I(0), D(1), D(2));
    else if (f == "AddHydroUnitPropertyDouble") x.sb.AddHydroUnitPropertyDouble(S(0), D(0), S(1));
    else if (f == "AddHydroUnitPropertyString") x.sb.AddHydroUnitPropertyString(S(0), S(1));
    else if (f == "AddLandCover") x.sb.AddLandCover(S(0), S(1), D(0));
    else if (f == "AddLateralConnection") x.sb.AddLateralConnection(I(0), I(1), D(2));
    else if (f == "BasinClear") x.sb.Clear();
    else if (f == "BasinSelect") x.sb.SelectUnit(I(0));
    // ------------------------------------------------------------------ model
    else if (f == "Init") refuse((bool)h->InitializeWithBasin(m, x.sb));
    else if (f == "NewModel") { x.model = std::make_unique<ModelHydro>(); x.actions.clear(); }
    else if (f == "SetIce") { if (h->GetSubBasin()) gen::setInitialIce(*h, *x.spec); }
    else if (f == "AddForcing") {
        const auto& fo = x.spec->forcing;
        auto it = fo.find(S(0));
        const axxd& src = it != fo.end() ? it->second : fo.begin()->second;
        int nu = (int)x.spec->units.size();
        axi ids(nu);
        for (int j = 0; j < nu; ++j) ids[j] = x.spec->units[j].id;
        axd time(src.rows());
        for (int t = 0; t < src.rows(); ++t) time[t] = x.spec->dateOf(t - x.spec->dataBefore);
        axxd data = src;
        double v = D(0);
        if (v != 0) {  // malformed forcing
            switch ((int)((unsigned)toInt(v) % 1000000u) % 13) {
                case 0: time.conservativeResize(time.size() / 2); break;
                case 1: data = axxd(data.topRows(data.rows() / 2)); break;
                case 2: ids.conservativeResize(std::max(0, nu - 1)); break;
                case 3: data = axxd(0, 0); break;
                case 4: time = axd(0); break;
                case 5: ids = axi(0); break;
                case 6: if (nu > 1) ids[1] = ids[0]; break;
                case 7: data = data * v; break;
                case 8: data(0, 0) = v; break;
                case 9: time = time.reverse().eval(); break;
                case 10: if (time.size() > 2) time[2] = v; break;
                case 11: ids = ids + 1; break;
                default: data = axxd(data.transpose()); break;
            }
        }
        refuse(h->CreateTimeSeries(S(0), time, ids, data));
    }
    else if (f == "Attach") refuse(h->AttachTimeSeriesToHydroUnits());
    else if (f == "ClearForcing") h->ClearTimeSeries();
    else if (f == "AddChanges") {
        auto a = std::make_unique<ActionLandCoverChange>();
        for (auto& c : x.spec->changes) a->AddChange(x.spec->dateOf(c.step) - c.early / 1440.0, x.spec->units[c.unit].id, x.spec->covers[c.cover], c.frac * x.spec->units[c.unit].area);
        x.actions.push_back(std::move(a));
        refuse(h->AddAction(x.actions.back().get()));
    }
    else if (f == "AddTable") {
        const auto& t = x.spec->tables[toInt(D(0)) < 0 ? 0 : (size_t)toInt(D(0)) % x.spec->tables.size()];
        axi ids(t.units.size());
        for (size_t i = 0; i < t.units.size(); ++i) ids[i] = x.spec->units[t.units[i]].id;
        if (t.deltaH) { auto a = std::make_unique<ActionGlacierEvolutionDeltaH>(); a->AddLookupTables(t.month, t.cover, ids, t.area, t.volume); x.actions.push_back(std::move(a)); }
        else { auto a = std::make_unique<ActionGlacierEvolutionAreaScaling>(); a->AddLookupTables(t.month, t.cover, ids, t.area, t.volume); x.actions.push_back(std::move(a)); }
        refuse(h->AddAction(x.actions.back().get()));
    }
    else if (f == "AddIceDate") {
        const auto& t = x.spec->iceDates[(size_t)std::max(0, toInt(D(0))) % x.spec->iceDates.size()];
        x.actions.push_back(std::make_unique<ActionGlacierSnowToIceTransformation>(t.month, t.day, t.cover));
        refuse(h->AddAction(x.actions.back().get()));
    }
    else if (f == "AddBadTable") {
        int rows = (unsigned)toInt(D(0)) % 4, cols = (unsigned)toInt(D(1)) % 4, n = (unsigned)toInt(D(2)) % 4;
        axi ids(n);
        for (int i = 0; i < n; ++i) ids[i] = i < (int)x.spec->units.size() ? x.spec->units[i].id : toInt(D(1));
        bool dh = toInt(D(0)) & 1;
        axxd a = badTable(o.d, rows, cols), v = badTable(o.d, toInt(D(2)) & 2 ? rows : 3, cols);
        if (dh) { auto t = std::make_unique<ActionGlacierEvolutionDeltaH>(); t->AddLookupTables(I(2), S(0), ids, a, v); x.actions.push_back(std::move(t)); }
        else { auto t = std::make_unique<ActionGlacierEvolutionAreaScaling>(); t->AddLookupTables(I(2), S(0), ids, a, v); x.actions.push_back(std::move(t)); }
        refuse(h->AddAction(x.actions.back().get()));
    }
    else if (f == "AddBadChange") {
        auto a = std::make_unique<ActionLandCoverChange>();
        a->AddChange(D(0) == D(0) && std::fabs(D(0)) < 1e6 ? x.spec->start() + D(0) : D(0), toInt(D(1)) % 2 ? x.spec->units[0].id : I(1), S(0), D(2));
        if (toInt(D(1)) % 3 == 0) a->AddChange(x.spec->start() + 1, x.spec->units[0].id, S(1), D(2));
        x.actions.push_back(std::move(a));
        refuse(h->AddAction(x.actions.back().get()));
    }
    else if (f == "AddBadIceDate") {
        x.actions.push_back(std::make_unique<ActionGlacierSnowToIceTransformation>(I(0), I(1), S(0)));
        refuse(h->AddAction(x.actions.back().get()));
    }
    else if (f == "Actions") {
        (void)h->GetActionCount(); (void)h->GetSporadicActionItemCount();
        for (auto& a : x.actions) {
            if (auto t = dynamic_cast<ActionGlacierSnowToIceTransformation*>(a.get())) { (void)t->GetLandCoverName(); (void)t->Init(); t->Reset(); (void)t->Apply(x.spec->start()); }
            if (auto t = dynamic_cast<ActionLandCoverChange*>(a.get())) { (void)t->GetChangeCount(); (void)t->GetLandCoverCount(); }
            if (auto t = dynamic_cast<ActionGlacierEvolutionDeltaH*>(a.get())) { (void)t->GetLandCoverName(); (void)t->GetHydroUnitIds(); (void)t->GetLookupTableArea(); (void)t->GetLookupTableVolume(); }
            if (auto t = dynamic_cast<ActionGlacierEvolutionAreaScaling*>(a.get())) { (void)t->GetLandCoverName(); (void)t->GetHydroUnitIds(); (void)t->GetLookupTableArea(); (void)t->GetLookupTableVolume(); }
        }
    }
    else if (f == "Run") { bool ok = (bool)h->Run(); refuse(ok); x.runs += ok; }
    else if (f == "Reset") h->Reset();
    else if (f == "SaveState") h->SaveAsInitialState();
    else if (f == "Update") h->UpdateParameters(x.other && D(0) != 0 ? *x.other : m);
    else if (f == "Dump") refuse(h->DumpOutputs(toInt(D(0)) == 13 ? x.dir + "/none/none" : x.dir));
    else if (f == "Getters") {
        (void)h->IsValid(); (void)h->ForcingLoaded();
        (void)h->GetHydroUnitIds(); (void)h->GetHydroUnitAreas(); (void)h->GetRecordedHydroUnitLabels(); (void)h->GetRecordedHydroUnitFractionLabels();
        (void)h->GetOutletDischarge();
        for (auto& l : h->GetRecordedHydroUnitLabels()) (void)h->GetHydroUnitValues(l);
        for (auto& l : h->GetRecordedHydroUnitFractionLabels()) (void)h->GetHydroUnitFractions(l);
        (void)h->GetTotalOutletDischarge(); (void)h->GetTotalET();
        (void)h->GetTotalWaterStorageChanges(); (void)h->GetTotalSnowStorageChanges(); (void)h->GetTotalGlacierStorageChanges();
        (void)h->GetHydroUnitValues(S(0));
    }
    else throw std::logic_error("harness: unknown call " + f);
}

void exec(Session& x, const Op& op) {
    long before = x.refused;
    try {
        call(x, op);
        x.done++;
        if (x.refused > before) x.refusals[op.f]++;
    } catch (const std::logic_error& e) {
        if (std::string(e.what()).rfind("harness:", 0) == 0) throw;
        x.refused++;
        x.refusals[op.f]++;
    } catch (const std::exception& e) {
        x.refused++;
        x.refusals[op.f]++;
        if (x.verbose) fprintf(stderr, "    refused: %s\n", e.what());
    }
}

}  // namespace script
