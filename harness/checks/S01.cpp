// Reset: whatever was run, changed or failed in between, a run after a reset repeats the first one and equals a fresh model.
#include "gen.h"
using namespace mon;
using namespace gen;

static void run(Ctx& c) {
    Rng& r = c.rng;
    Opts o;
    o.allowExchange = true; o.allowSubdaily = true; o.anyOrder = true; o.roundFractions = true; o.lateralAnyOrder = true;
    o.minSteps = 5; o.maxSteps = c.thorough ? 250 : 80; o.maxUnits = 4;
    bool gl = r.p(0.35);
    if (gl) { o.fams = {SOCONT, HBV}; o.allowInfGlacier = false; }
    Spec s;
    int tries = 0;
    do s = randomSpec(r, o); while (gl && s.covers.size() < 2 && ++tries < 50);
    if (gl && r.p(0.5)) { s.nsteps = r.i(60, 250); randomForcing(r, s); }
    if (gl && r.p(0.75)) randomGlacierActions(r, s);
    if (r.p(0.45)) randomChanges(r, s, s.tables.empty());
    for (auto& x : s.iceDates) if (s.infGl) { x.day = 0; }
    c.sample = s.describe();
    auto a = buildModel(s);
    ModelHydro& m = *a->model;
    bool preReset = r.p(0.6);
    if (preReset) m.Reset();
    auto contents = [&](ModelHydro& x) { std::vector<double> v; for (auto& st : stores(x)) { v.push_back(st.brick->GetContent(st.type)); if (auto* lc = dynamic_cast<LandCover*>(st.brick)) v.push_back(lc->GetAreaFraction()); } return v; };
    std::vector<double> c0 = contents(m);
    runModel(*a);
    Outputs ref = collect(m);
    double totET = m.GetTotalET(), totQ = m.GetTotalOutletDischarge(), dW = s.logAll ? m.GetTotalWaterStorageChanges() : 0;
    std::string ops;
    bool fresh = false;  // reset and not run since
    int n = r.i(1, 4);
    for (int i = 0; i < n; ++i) {
        double q = r.u();
        fresh = false;
        if (q < 0.25) {  // another parameter set
            Spec t = s;
            t.pars.clear();
            randomParams(r, t, o);
            std::vector<ParSpec> keep;
            for (auto& p : t.pars) for (auto& z : s.pars) if (z.component == p.component && z.name == p.name) { keep.push_back(p); break; }
            applyParams(a->sm, keep);
            if (r.p(0.3)) m.Reset();
            m.UpdateParameters(a->sm);
            bool done = r.p(0.8);
            if (done) m.Reset();
            ops += " other parameters";
            auto rr = m.Run();
            if (!rr && done) c.count("runs with other parameters ended by an error");
            applyParams(a->sm, s.pars);
            bool before = r.p(0.5);
            if (before) m.UpdateParameters(a->sm);
            m.Reset();
            if (!before) m.UpdateParameters(a->sm);
            fresh = true;
            c.count("with other parameters");
        } else if (q < 0.5) {  // other forcing
            Spec t = s;
            randomForcing(r, t);
            m.ClearTimeSeries();
            attachForcing(m, t);
            m.Reset();
            ops += " other forcing";
            auto rr = m.Run();
            if (!rr) c.count("runs with other forcing ended by an error");
            m.ClearTimeSeries();
            if (r.p(0.3)) { if (m.Run()) c.fail("no-forcing", "a run without forcing succeeded " + c.sample); ops += " no forcing"; c.count("refused runs"); }
            attachForcing(m, s);
            c.count("with other forcing");
        } else if (q < 0.7) {
            ops += " no reset";  // a second run without a reset is refused
            if (m.GetTimeMachine()->GetDate() != m.GetTimeMachine()->GetStart() && m.Run()) c.fail("no-reset", "a second run without a reset was accepted " + c.sample);
            c.count("without reset");
        } else if (q < 0.85) {
            ops += " same";
            m.Reset();
            runModel(*a);
            std::string d = diff(ref, collect(m));
            if (!d.empty()) c.fail("second-run", d + " after [" + ops + " ] " + c.sample);
            c.count("plain repetitions");
        } else {  // somebody wrote into the stores
            ops += " contents";
            for (auto& st : stores(m)) if (!st.wc->IsInfiniteStorage() && r.p(0.5)) st.brick->UpdateContent(r.uni(0, 50), st.type);
            for (int k = 0; k < m.GetSubBasin()->GetHydroUnitCount(); ++k)
                for (size_t cv = 1; cv < s.covers.size(); ++cv)
                    if (auto* lc = m.GetSubBasin()->GetHydroUnit(k)->TryGetLandCover(s.covers[cv])) (void)m.GetSubBasin()->GetHydroUnit(k)->ChangeLandCoverAreaFraction(s.covers[cv], lc->GetAreaFraction() * r.u());
            c.count("with written contents");
        }
    }
    m.Reset();
    if (r.p(0.2)) m.Reset();
    std::vector<double> c1 = contents(m);
    for (size_t i = 0; i < c0.size(); ++i) if (c0[i] != c1[i]) { c.fail("state", fmt("content or extent %zu is %.17g after the reset, %.17g at first, after [", i, c1[i], c0[i]) + ops + " ] " + c.sample); break; }
    runModel(*a);
    Outputs got = collect(m);
    std::string d = diff(ref, got);
    if (!d.empty()) c.fail("repeat", d + " after [" + ops + " ] " + c.sample);
    if (m.GetTotalET() != totET || m.GetTotalOutletDischarge() != totQ || (s.logAll && m.GetTotalWaterStorageChanges() != dW)) c.fail("totals", "reported totals differ after [" + ops + " ] " + c.sample);
    auto f = buildModel(s);
    if (!preReset) f->model->Reset();
    runModel(*f);
    d = diff(ref, collect(*f->model));
    if (!d.empty()) c.fail("fresh", std::string("a fresh model ") + (preReset ? "without" : "with") + " a reset before its run differs: " + d + " " + c.sample);
    c.count("rows compared", 2 * s.nsteps);
    if (!s.tables.empty()) c.count("with glacier evolution");
    if (!s.changes.empty()) c.count("with land cover changes");
    if (!s.iceDates.empty()) c.count("with snow-to-ice dates");
    if (!s.lats.empty()) c.count("with lateral transport");
    if (s.spinup) c.count("with spin-up");
    if (s.melt == "melt:cemaneige" && s.snow) c.count("with cold content");
    if (s.redist.ends_with("dynamic")) c.count("with snow density");
    double mx = 0;
    for (int t = 0; t < s.nsteps; ++t) mx = std::max(mx, ref.outlet[t]);
    if (mx > 0) c.signature = s.shortSig() + "/" + ops + fmt("/t%zu/%d", s.tables.size(), s.nsteps);
}

Check mon::GetCheck() { return {"S01", 15000, 80000, run, "distinct model and sequence of operations between the runs, with non-zero discharge, outputs compared bit for bit"}; }
