// Spin-up: a run with a spin-up against one longer run without it, and what a spin-up must not touch.
#include "gen.h"
using namespace mon;
using namespace gen;

static void run(Ctx& c) {
    Rng& r = c.rng;
    Opts o;
    o.allowSpinup = false; o.allowExchange = true; o.allowSubdaily = true; o.allowChanges = true; o.anyOrder = true;
    o.maxSteps = c.thorough ? 200 : 80; o.maxUnits = 3;
    o.lateralAnyOrder = true;
    Spec s = randomSpec(r, o);
    if (s.iceT == "transformation:snow_ice_swat") { s.iceT = "transformation:snow_ice_constant"; std::erase_if(s.pars, [](auto& p) { return (p.name.starts_with("snow_ice_transformation") || p.name == "north_hemisphere"); }); }
    // Spin-up from a day to beyond the period.
    double days = s.nsteps * s.stepDays();
    double q = r.u();
    s.spinup = q < 0.15 ? 1 : q < 0.25 ? std::max(1, (int)days - r.i(-1, 1)) : q < 0.35 ? (int)days + r.i(2, 400) : std::max(1, r.i(1, std::max(1, (int)days)));
    long n = std::min<long>(s.nsteps, s.spinup * 1440L / s.stepMinutes());
    c.sample = s.describe();
    auto a = buildModel(s);
    long spins = 0, steps = 0, late = 0;
    bool bad = false;
    std::map<const void*, double> ext;
    onEvent() = [&](const char* ev, ModelHydro* m) {
        if (m != a->model.get()) return;
        std::string e = ev;
        if (e == "spinup") {
            ++spins;
            if (steps) ++late;
            for (int k = 0; k < m->GetSubBasin()->GetHydroUnitCount(); ++k)
                for (auto& cv : s.covers)
                    if (auto* lc = m->GetSubBasin()->GetHydroUnit(k)->TryGetLandCover(cv)) {
                        auto [it, isNew] = ext.insert({lc, lc->GetAreaFraction()});
                        bad |= it->second != lc->GetAreaFraction();
                    }
        }
        if (e == "begin") ++steps;
    };
    int runs = r.i(1, 3);
    std::vector<Outputs> out;
    for (int i = 0; i < runs; ++i) {
        spins = steps = 0;
        if (i > 0 || r.p(0.5)) a->model->Reset();
        runModel(*a);
        out.push_back(collect(*a->model));
        if (spins != n) c.fail("length", fmt("run %d: %ld spin-up steps, %ld expected ", i, spins, n) + c.sample);
        if (steps != s.nsteps) c.fail("period", fmt("run %d: %ld steps after the spin-up, %d expected ", i, steps, s.nsteps) + c.sample);
        if (late) c.fail("order", "spin-up after the beginning of the period " + c.sample);
        if (bad) c.fail("extents", "the extents change during the spin-up " + c.sample);
        if (out.back().time.size() != s.nsteps) c.fail("rows", fmt("%ld rows recorded for %d steps ", (long)out.back().time.size(), s.nsteps) + c.sample);
        c.count("spin-up steps", spins); c.count("runs");
        std::string d = i ? diff(out[0], out[i]) : "";
        if (!d.empty()) c.fail("repeat", fmt("run %d differs from the first: ", i) + d + " " + c.sample);
    }
    onEvent() = nullptr;
    // The same water, without a spin-up: the warm-up days come first and the period follows.
    Spec l = s;
    l.spinup = 0;
    l.nsteps = s.nsteps + (int)n;
    for (auto& [name, f] : l.forcing) {
        axxd g(s.dataBefore + n + s.nsteps + s.dataAfter, f.cols());
        g.topRows(s.dataBefore + n) = f.topRows(s.dataBefore + n);
        g.bottomRows(s.nsteps + s.dataAfter) = f.bottomRows(s.nsteps + s.dataAfter);
        f = g;
    }
    for (auto& x : l.changes) x.step += n;
    auto b = buildModel(l);
    double before = 0; long k = 0;
    double st0[3] = {0, 0, 0};
    (void)before;
    auto sums = [&](ModelHydro& m, double* v) {
        v[0] = v[1] = v[2] = 0;
        double A = m.GetSubBasin()->GetArea();
        for (auto& x : stores(m)) if (!x.wc->IsInfiniteStorage()) v[x.type == ContentType::Water ? 0 : x.type == ContentType::Snow ? 1 : 2] += (x.unit ? x.unit->GetArea() / A : 1.0) * coverFraction(x) * x.brick->GetContent(x.type);
    };
    onEvent() = [&](const char* ev, ModelHydro* m) {
        if (m == b->model.get() && std::string(ev) == "begin" && k++ == n) sums(*m, st0);
    };
    runModel(*b);
    onEvent() = nullptr;
    Outputs lo = collect(*b->model);
    std::string d = diffRows(out[0], 0, lo, (int)n, s.nsteps);
    if (!d.empty()) c.fail("warm-up", fmt("spin-up of %ld steps vs the same steps simulated beforehand: ", n) + d + " " + c.sample);
    c.count("rows compared", s.nsteps);
    double st1[3];
    sums(*b->model, st1);
    if (s.logAll && s.fam != GR4J && s.fam != GR6J) {
        double got = a->model->GetTotalSnowStorageChanges(), want = st1[1] - st0[1];
        c.count("storage totals");
        if (!close(got, want, 1e-6, 1e-9) && !close(got, want, 1e-9 * std::fabs(st1[1]))) c.fail("totals", fmt("snow storage change %.12g, %.12g after the warm-up ", got, want) + c.sample);
    }
    double mx = 0;
    for (int t = 0; t < s.nsteps; ++t) mx = std::max(mx, out[0].outlet[t]);
    if (mx > 0 && n > 0) c.signature = s.shortSig() + fmt("/n%ld/%d", n, s.nsteps);
    if (n == s.nsteps) c.count("whole period");
    if (n == 0) c.count("no whole step");
    if (!s.changes.empty()) c.count("with land cover changes");
    if (!s.lats.empty()) c.count("with lateral transport");
}

Check mon::GetCheck() { return {"T05", 20000, 80000, run, "distinct model and spin-up length, with non-zero discharge, compared row by row with the warm-up simulated beforehand"}; }
