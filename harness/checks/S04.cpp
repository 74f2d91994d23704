// Parameters set on a built model (any order, several times, by component, list or type) against a model built with them.
#include "gen.h"
using namespace mon;
using namespace gen;

// Every (component, parameter) of the settings, by component type.
struct Entry { std::string component, type; std::set<std::string> names; };
static std::vector<Entry> entries(SettingsModel& sm, int structures) {
    std::vector<Entry> v;
    for (int k = 1; k <= structures; ++k) {
        if (!sm.SelectStructure(k)) continue;
        auto add = [&](const BrickSettings& b) {
            Entry e{b.name, b.type, {}};
            for (auto& p : b.parameters) e.names.insert(p.GetName());
            for (auto& q : b.processes) for (auto& p : q.parameters) e.names.insert(p.GetName());
            v.push_back(e);
        };
        for (int i = 0; i < sm.GetHydroUnitBrickCount(); ++i) add(sm.GetHydroUnitBrickSettings(i));
        for (int i = 0; i < sm.GetSubBasinBrickCount(); ++i) add(sm.GetSubBasinBrickSettings(i));
    }
    sm.SelectStructure(1);
    return v;
}

// A run may be refused (rates beyond what the solvers accept): then it must be in both models.
static std::string attempt(Built& b) {
    try { runModel(b); return ""; } catch (const std::exception& e) { return e.what(); }
}

static void run(Ctx& c) {
    Rng& r = c.rng;
    Opts o;
    o.allowExchange = true; o.allowSubdaily = true; o.allowChanges = true; o.allowCorrection = true;
    o.maxSteps = c.thorough ? 150 : 60; o.maxUnits = 3;
    Spec s = randomSpec(r, o);
    std::vector<std::string> toggled;  // glacier covers made infinite and finite again
    bool toggle = s.tables.empty() && r.p(0.4);
    for (size_t k = 0; k < s.covers.size(); ++k) if (s.ctypes[k] == "glacier" && toggle) toggled.push_back(s.covers[k]);
    for (auto& x : toggled) s.initIce.erase(x);
    Spec f = s;
    c.sample = s.describe();
    std::vector<std::unique_ptr<SettingsModel>> others;  // outlive the model
    auto a = buildModel(s);
    ModelHydro& m = *a->model;
    std::map<std::pair<std::string, std::string>, float> value;
    for (auto& p : s.pars) value[{p.component, p.name}] = p.value;
    int rounds = r.i(1, 3);
    std::string log;
    for (int round = 0; round < rounds; ++round) {
        if (r.p(0.6)) { m.Reset(); attempt(*a); c.count("runs in between"); }
        // What is set in this round, in the end.
        Spec t = s;
        t.pars.clear();
        randomParams(r, t, o);
        std::vector<ParSpec> ops = t.pars;
        for (auto& x : toggled) { ops.push_back({x, "infinite_storage", r.p(0.5) ? 1.0f : 0.0f}); c.count("unlimited ice switched"); }
        for (int i = (int)ops.size() - 1; i > 0; --i) std::swap(ops[i], ops[r.i(0, i)]);
        std::vector<ParSpec> all;
        for (auto& p : ops) {  // other values first
            if (r.p(0.2)) all.push_back({p.component, p.name, p.value * (float)r.uni(0.1, 3)});
        }
        for (int i = (int)all.size() - 1; i > 0; --i) std::swap(all[i], all[r.i(0, i)]);
        all.insert(all.end(), ops.begin(), ops.end());
        auto set = [&](const std::string& comp, const std::string& name, float v, bool expect) {
            bool ok;
            try { ok = a->sm.SetParameterValue(comp, name, v); } catch (const std::exception& e) { ok = false; c.count("refused by exception"); }
            log += fmt("%s:%s=%g ", comp.c_str(), name.c_str(), v);
            if (ok != expect) c.fail(expect ? "refused" : "accepted", fmt("setting %s:%s %s ", comp.c_str(), name.c_str(), expect ? "is refused" : "is reported as done") + c.sample);
            c.count(expect ? "parameters set" : "refused settings");
        };
        auto ents = entries(a->sm, s.multi ? 2 : 1);
        auto bad = [&]() {
            const ParSpec& p = r.pick(ops);
            float v = p.value * 3 + 1;
            switch (r.i(0, 7)) {
                case 0: set(p.component + "x", p.name, v, false); break;
                case 1: set(p.component, p.name + "_", v, false); break;
                case 2: set("type:nothing", p.name, v, false); break;
                case 3: set(p.component + ", nowhere", p.name, v, false); break;
                case 4: set("nowhere," + p.component, p.name, v, false); break;
                case 5: set("", p.name, v, false); break;
                case 6: set("snow_rain", p.name, v, false); break;
                default: {  // a type whose components do not all have it
                    std::string ty = r.pick(ents).type;
                    bool every = true;
                    for (auto& e : ents) if (e.type == ty && !e.names.contains(p.name)) every = false;
                    if (!every) { set("type:" + ty, p.name, v, false); c.count("types refused"); }
                }
            }
        };
        for (auto& p : all) {
            if (r.p(0.1)) bad();
            set(p.component, p.name, p.value, true);
            value[{p.component, p.name}] = p.value;
        }
        // Lists and types: the same value for all of them.
        for (int k = r.i(0, 3); k > 0; --k) {
            const ParSpec p = r.pick(ops);
            std::string comp, ty;
            std::set<std::string> targets;
            for (auto& e : ents) if (e.component == p.component) ty = e.type;
            if (ty.empty()) continue;
            auto isLand = [](const std::string& x) { return x == "generic_land_cover" || x == "glacier" || x == "ground" || x == "open" || x == "generic"; };
            bool land = r.p(0.3) && isLand(ty);
            bool every = true;
            for (auto& e : ents) {
                bool match = e.type == ty || (land && isLand(e.type));
                if (!match) continue;
                if (e.names.contains(p.name)) targets.insert(e.component); else every = false;
            }
            if (every && r.p(0.6)) { comp = land ? "type:land_cover" : "type:" + ty; c.count("set by type"); }
            else {
                for (auto& x : targets) comp += (comp.empty() ? "" : r.p(0.5) ? ", " : ",") + x;
                c.count("set by list");
            }
            float v = p.value;
            set(comp, p.name, v, true);
            for (auto& x : targets) value[{x, p.name}] = v;
        }
        if (r.p(0.3)) bad();
        auto current = value;
        SettingsModel* latest = &a->sm;
        bool before = r.p(0.5);
        if (before) m.Reset();
        if (s.multi && r.p(0.5) && a->sm.SelectStructure(2)) c.count("another structure selected");
        if (r.p(0.25)) {  // another settings object of the same structure, with the same values
            Spec g = s;
            g.pars.clear();
            if (r.p(0.7)) {  // with values of its own; the first object keeps the former ones
                Spec w = s;
                w.pars.clear();
                randomParams(r, w, o);
                for (auto& p : w.pars) if (current.contains({p.component, p.name}) && r.p(0.6)) current[{p.component, p.name}] = p.value;
            }
            for (auto& [k, v] : current) g.pars.push_back({k.first, k.second, v});
            others.push_back(std::make_unique<SettingsModel>());
            buildSettings(*others.back(), g);
            latest = others.back().get();
            m.UpdateParameters(*latest);
            c.count("updates from other settings");
        } else m.UpdateParameters(a->sm);
        if (r.p(0.1)) m.UpdateParameters(*latest);
        if (!before) m.Reset();
        if (round + 1 < rounds && r.p(0.5)) continue;
        std::string ea = attempt(*a);
        Outputs x = collect(m);
        f.pars.clear();
        for (auto& [k, v] : current) f.pars.push_back({k.first, k.second, v});
        auto b = buildModel(f);
        std::string eb = attempt(*b);
        if (ea != eb) c.fail("outcome", "updated: '" + ea + "', built with the values: '" + eb + "' after " + log + c.sample);
        if (!ea.empty() || !eb.empty()) { c.count("runs refused"); continue; }
        std::string d = diff(x, collect(*b->model));
        if (!d.empty()) c.fail("update", "updated vs built with the values: " + d + " after " + log + c.sample);
        c.count("models compared");
        if (s.changes.empty() && r.p(0.3)) {  // a new model from the settings as they are now
            ModelHydro n;
            auto res = n.InitializeWithBasin(*latest, a->sb);
            if (!res) { c.fail("rebuild", "the settings are refused after the updates: " + res.error() + " " + c.sample); return; }
            setInitialIce(n, s);
            attachForcing(n, s);
            auto rr = n.Run();
            if (!rr) { c.fail("rebuild", "the run fails after the updates: " + rr.error() + " " + c.sample); return; }
            d = diff(x, collect(n));
            if (!d.empty()) c.fail("rebuild", "updated vs rebuilt from the same settings: " + d + " after " + log + c.sample);
            c.count("models rebuilt");
        }
    }
    double mx = 0;
    for (double q : m.GetLogger()->GetOutletDischarge()) mx = std::max(mx, q);
    if (mx > 0) c.signature = s.shortSig() + fmt("/%d", rounds);
}

Check mon::GetCheck() { return {"S04", 16000, 80000, run, "distinct model structure with discharge and number of parameter updates"}; }
