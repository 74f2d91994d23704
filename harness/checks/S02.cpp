// Saved state: segments run one after the other from saved states against one uninterrupted run.
#include "gen.h"
using namespace mon;
using namespace gen;

static void run(Ctx& c) {
    Rng& r = c.rng;
    Opts o;
    o.allowSpinup = false; o.allowExchange = true; o.allowSubdaily = true; o.allowExtraData = false; o.anyOrder = true; o.lateralAnyOrder = true;
    o.minSteps = 6; o.maxSteps = c.thorough ? 300 : 120; o.maxUnits = 3;
    if (r.p(0.3)) o.fams = {GR4J, GR6J, HBV};
    Spec s = randomSpec(r, o);  // the uninterrupted run
    if (s.iceT == "transformation:snow_ice_swat") { s.iceT = "transformation:snow_ice_constant"; std::erase_if(s.pars, [](auto& p) { return (p.name.starts_with("snow_ice_transformation") || p.name == "north_hemisphere"); }); }
    int k = r.i(2, std::min(4, s.nsteps / 2)), n = s.nsteps / k;
    s.nsteps = n * k;
    for (auto& [name, f] : s.forcing) { axxd g = f.topRows(s.nsteps); f = g; }
    Spec p = s;  // one segment
    p.nsteps = n;
    if (r.p(0.3)) {  // each cover changes at most once, in the first segment: later runs ask for what already is
        randomChanges(r, p);
        std::set<std::pair<int, int>> seen;
        std::vector<ChangeSpec> kept;
        for (auto& x : p.changes) if (seen.insert({x.unit, x.cover}).second) kept.push_back(x);
        // dropping a change may ask for more than is left: keep only what fits in any order
        for (size_t i = 0; i < kept.size(); ++i) {
            double tot = 0;
            for (size_t cv = 1; cv < s.covers.size(); ++cv) {
                double f = s.units[kept[i].unit].frac[cv];
                for (auto& z : kept) if (z.unit == kept[i].unit && z.cover == (int)cv) f = std::max(f, z.frac);
                tot += f;
            }
            if (tot > 1) { kept.clear(); break; }
        }
        p.changes = s.changes = kept;
    }
    double tol = p.changes.empty() ? 0 : 1e-9;
    c.sample = fmt("%d segments of ", k) + p.describe();
    auto segment = [&](int i) { for (auto& [name, f] : p.forcing) { axxd g = s.forcing[name].middleRows(i * n, n); f = g; } };
    segment(0);
    auto b = buildModel(s);
    runModel(*b);
    Outputs whole = collect(*b->model);
    auto a = buildModel(p);
    ModelHydro& m = *a->model;
    if (r.p(0.3)) m.SaveAsInitialState();  // saving the state of a new model changes nothing
    std::vector<double> total;
    for (int i = 0; i < k; ++i) {
        if (i) {
            m.SaveAsInitialState();
            if (r.p(0.2)) m.SaveAsInitialState();
            double before = totalStorage(m);
            m.ClearTimeSeries();
            segment(i);
            attachForcing(m, p);
            int detours = r.i(0, 2);
            for (int d = 0; d < detours; ++d) {  // whatever runs now, a reset comes back to the saved state
                m.Reset();
                if (r.p(0.7)) { Spec t = p; randomForcing(r, t); m.ClearTimeSeries(); attachForcing(m, t); }
                (void)m.Run();
                m.ClearTimeSeries();
                attachForcing(m, p);
                c.count("detours");
            }
            m.Reset();
            if (!close(totalStorage(m), before, 1e-9, 1e-12)) c.fail("stored", fmt("%.12g mm stored after the reset of segment %d, %.12g saved ", totalStorage(m), i, before) + c.sample);
        } else if (r.p(0.5)) m.Reset();
        runModel(*a);
        Outputs seg = collect(m);
        std::string d = diffRows(whole, i * n, seg, 0, n, tol, tol);
        if (!d.empty()) c.fail("continue", fmt("segment %d: uninterrupted vs continued: ", i) + d + " " + c.sample);
        c.count("rows compared", n);
        c.count("segments");
    }
    auto sb = stores(*b->model), sa = stores(m);
    for (size_t i = 0; i < sb.size(); ++i) if (sb[i].brick->GetContent(sb[i].type) != sa[i].brick->GetContent(sa[i].type) && !close(sb[i].brick->GetContent(sb[i].type), sa[i].brick->GetContent(sa[i].type), tol, tol)) c.fail("end", fmt("final content of %s: %.17g vs %.17g ", sb[i].name.c_str(), sb[i].brick->GetContent(sb[i].type), sa[i].brick->GetContent(sa[i].type)) + c.sample);
    if (!p.changes.empty()) c.count("with land cover changes");
    if (!s.lats.empty()) c.count("with lateral transport");
    if (s.melt == "melt:cemaneige" && s.snow) c.count("with cold content");
    if (s.redist.ends_with("dynamic")) c.count("with snow density");
    if (s.fam == GR4J || s.fam == GR6J || s.fam == HBV) c.count("with delay lines");
    double mx = 0;
    for (int t = n; t < s.nsteps; ++t) mx = std::max(mx, whole.outlet[t]);
    if (mx > 0) c.signature = s.shortSig() + fmt("/k%d/n%d", k, n);
}

Check mon::GetCheck() { return {"S02", 20000, 80000, run, "distinct model and split, with discharge after the first split, rows compared with the uninterrupted run"}; }
