// Calendar of a run: every date from start to end exactly once, in order, one recorded row each.
#include "gen.h"
using namespace mon;
using namespace gen;

static void run(Ctx& c) {
    Opts o;
    o.fams = {CHAIN};
    o.allowSnow = c.rng.p(0.3);
    o.maxUnits = 2;
    o.allowLateral = false;
    o.solvers = {"euler_explicit", "rk4", "crank_nicolson"};
    Spec s = randomSpec(c.rng, o);
    double q = c.rng.u();
    static const std::vector<int> D{1, 1, 2, 3, 5, 7, 10}, H{1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 18, 24, 36, 48}, M{10, 12, 15, 20, 30, 45, 50, 60, 70, 90, 100, 144, 180, 240, 360, 720, 1440};
    if (q < 0.3) { s.stepUnit = "day"; s.stepN = c.rng.pick(D); }
    else if (q < 0.65) { s.stepUnit = "hour"; s.stepN = c.rng.pick(H); }
    else { s.stepUnit = "minute"; s.stepN = c.rng.p(0.3) ? c.rng.i(7, 200) : c.rng.pick(M); }
    long sm = s.stepMinutes();
    s.nsteps = c.rng.p(0.1) ? c.rng.i(1, 3) : c.rng.p(0.15) ? c.rng.i(500, c.thorough ? 9000 : 3000) : c.rng.i(2, 400);
    if (c.rng.p(0.5)) s.startMin = c.rng.p(0.5) ? 60 * c.rng.i(0, 23) : c.rng.i(0, 1439);
    if (c.rng.p(0.5)) s.endExtraMin = c.rng.p(0.3) ? (int)sm - 1 : c.rng.i(0, (int)sm - 1);
    if (c.rng.p(0.3)) {  // around the end of February and of the year
        static const std::vector<int> Y{1899 + 2, 1999, 2000, 2004, 2023, 2024, 2096, 2099};
        s.y0 = c.rng.pick(Y);
        if (c.rng.p(0.5)) { s.m0 = 2; s.d0 = c.rng.i(20, 28); } else { s.m0 = 12; s.d0 = c.rng.i(20, 31); }
    }
    while (s.dateOf(s.nsteps + 1) > 88400) s.nsteps = s.nsteps / 2;  // text dates reach the year 2100
    if (s.nsteps < 1) { s.nsteps = 1; s.y0 = 2024; }
    s.dataBefore = c.rng.i(0, 5);
    s.dataAfter = c.rng.i(1, 5);
    if (s.nsteps + s.dataBefore + s.dataAfter < 2) s.dataAfter = 2;
    s.spinup = c.rng.p(0.25) ? c.rng.i(1, 40) : 0;
    for (auto& p : s.pars) if (p.name == "percolation_rate" && p.value > 2) p.value = 2;
    randomForcing(c.rng, s);
    for (auto& [n, f] : s.forcing) if (n == "precipitation") f = f.min(2.0);
    c.sample = fmt("start+%dmin end+%dmin ", s.startMin, s.endExtraMin) + s.describe();
    auto b = buildModel(s);
    ModelHydro& m = *b->model;
    std::vector<double> dates;
    long spin = 0;
    onEvent() = [&](const char* ev, ModelHydro* mh) {
        if (std::string(ev) == "spinup") { ++spin; return; }
        if (ev[1] != 't') return;
        dates.push_back(mh->GetLogger()->GetTime()[(long)dates.size() < mh->GetLogger()->GetTime().size() ? (long)dates.size() : 0]);
    };
    int runs = c.rng.p(0.3) ? 2 : 1;
    for (int r = 0; r < runs; ++r) {
        dates.clear(); spin = 0;
        m.Reset();
        runModel(*b);
        long n = s.nsteps;
        long wantSpin = std::min<long>(n, s.spinup * 1440L / sm);
        c.count("runs"); c.count("steps", (long)dates.size()); c.count("spin-up steps", spin);
        if (spin != wantSpin) c.fail("spin-up steps", fmt("run %d: %ld spin-up steps, expected %ld ", r, spin, wantSpin) + c.sample);
        if ((long)dates.size() != n) c.fail("step count", fmt("run %d: %zu steps simulated, expected %ld ", r, dates.size(), n) + c.sample);
        axd time = m.GetLogger()->GetTime();
        if (time.size() != n) c.fail("row count", fmt("run %d: %ld rows recorded, expected %ld ", r, (long)time.size(), n) + c.sample);
        for (long k = 0; k < std::min<long>(n, time.size()); ++k) {
            double want = s.dateOf(k);
            if (std::fabs(time[k] - want) > 2e-8) { c.fail("date", fmt("run %d row %ld: date %.10f, expected %.10f ", r, k, time[k], want) + c.sample); break; }
            if (k > 0 && !(time[k] > time[k - 1])) { c.fail("order", fmt("run %d row %ld: date %.10f after %.10f ", r, k, time[k], time[k - 1]) + c.sample); break; }
        }
        // Every row was written (the discharge of a row that was not recorded is missing).
        axd q = m.GetOutletDischarge();
        for (long k = 0; k < q.size(); ++k) if (std::isnan(q[k])) { c.fail("empty row", fmt("run %d row %ld has no values ", r, k) + c.sample); break; }
        if (q.size() != n) c.fail("row count", fmt("run %d: %ld discharge rows, expected %ld ", r, (long)q.size(), n) + c.sample);
    }
    c.count("step unit: " + s.stepUnit);
    if (s.endExtraMin) c.count("periods ending between two steps");
    c.signature = fmt("%d%s/%d/%d/%d-%d/%d/%d", s.stepN, s.stepUnit.c_str(), s.nsteps, s.startMin, s.y0, s.m0, s.endExtraMin, s.spinup);
}

Check mon::GetCheck() { return {"T01", 25000, 150000, run, "distinct combination of time step, period, start time and unaligned end whose every recorded date was compared"}; }
