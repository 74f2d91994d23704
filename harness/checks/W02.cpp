// Store budgets: after every step, change of each store == forcing + fluxes declared into it - fluxes released.
#include "trace.h"
using namespace mon;
using namespace gen;

// A store solved with the others that sends water back to one computed before them, which could only receive it a step later:
// the model refuses it, or else nothing is lost or late.
static void feedback(Ctx& c) {
    Rng& r = c.rng;
    Opts o;
    o.fams = {SOCONT, HBV, CHAIN};
    o.maxSteps = 40; o.maxUnits = 3;
    Spec s = randomSpec(r, o);
    s.spinup = 0;
    Built b;
    buildSettings(b.sm, s);
    buildBasin(b.sb, s);
    std::vector<std::string> from;
    for (int i = 0; i < b.sm.GetHydroUnitBrickCount(); ++i) {
        const BrickSettings& k = b.sm.GetHydroUnitBrickSettings(i);
        bool direct = false;
        for (auto& p : k.processes) if (p.type == "outflow:direct" || p.type == "outflow:rest") direct = true;
        if (k.type == "storage" && !direct) from.push_back(k.name);
    }
    if (from.empty()) return;
    std::string src = r.pick(from), to = r.pick(s.covers);
    c.sample = "from " + src + " to " + to + ": " + s.describe();
    b.sm.SelectHydroUnitBrick(src);
    b.sm.AddBrickProcess("feedback", "outflow:linear", to);
    b.sm.SetProcessParameterValue("response_factor", 0.3f);
    c.count("structures with a flow back to a cover");
    b.model = std::make_unique<ModelHydro>();
    ModelHydro& m = *b.model;
    std::string refusal;
    try {
        auto q = m.InitializeWithBasin(b.sm, b.sb);
        if (!q) refusal = q.error();
        else if (!m.IsValid()) refusal = "not valid";
        else {
            setInitialIce(m, s);
            attachForcing(m, s);
            auto w = m.Run();
            if (!w) refusal = w.error();
        }
    } catch (const std::exception& e) { refusal = e.what(); }
    if (!refusal.empty()) { c.count("of them refused"); return; }
    double in = 0, area = 0;
    for (auto& u : s.units) area += u.area;
    for (size_t j = 0; j < s.units.size(); ++j) for (int t = 0; t < s.nsteps; ++t) in += s.forcing["precipitation"](s.dataBefore + t, j) * s.units[j].area / area;
    double res = in - m.GetTotalOutletDischarge() - m.GetTotalET() - m.GetTotalWaterStorageChanges() - m.GetTotalSnowStorageChanges() - m.GetTotalGlacierStorageChanges();
    if (s.infGl) return;
    if (!(std::fabs(res) <= 1e-6 * (1 + in + std::fabs(m.GetTotalGlacierStorageChanges())))) c.fail("flow back", fmt("accepted, and P=%.9g with a residual of %.9g ", in, res) + c.sample);
}

static void run(Ctx& c) {
    if (c.rng.p(0.02)) return feedback(c);
    Opts o;
    o.allowChanges = true;
    o.allowSubdaily = true; o.extremeShares = true;
    o.anyOrder = true;
    o.maxSteps = c.thorough ? 400 : 90;
    o.maxUnits = 5;
    o.allowCorrection = true;
    Spec s = randomSpec(c.rng, o);
    c.sample = s.describe();
    auto b = buildModel(s);
    b->model->Reset();
    setInitialIce(*b->model, s);
    Trace tr;
    tr.attach(*b->model, s);
    runModel(*b);
    Topo tp(s, tr);
    if ((int)tr.content.size() != s.nsteps) c.fail("steps", fmt("%zu steps observed, %d expected ", tr.content.size(), s.nsteps) + c.sample);
    const double dt = 1;
    int t0 = 0;
    for (int t = t0; t < (int)tr.content.size(); ++t) {
        for (size_t k = 0; k < tr.st.size(); ++k) {
            auto& x = tr.st[k];
            if (x.wc->IsInfiniteStorage()) continue;
            int u = -1;
            if (x.unit) for (size_t j = 0; j < s.units.size(); ++j) if (s.units[j].id == x.unit->GetId()) u = (int)j;
            int cv = u >= 0 ? coverOf(s, x.name) : -1;
            Budget bd = tp.budget(t, (int)k);
            double d = tr.content[t][k] - tr.before(t, (int)k);
            double want = bd.forcing + bd.in - bd.out;
            double mag = std::fabs(bd.forcing) + std::fabs(bd.in) + std::fabs(bd.out) + std::fabs(tr.content[t][k]);
            double tol = 5e-7 + 1e-10 * mag;
            if (bd.forcing > 0) tol += splitTol(s, u, t);
            if (cv >= 0) { double f = tr.f(t, u, cv); if (f > 0 && f < 1) tol += 1e-8 / f; }
            c.count("store budgets");
            if (bd.in != 0) c.count("stores with inflow");
            if (bd.out != 0) c.count("stores with outflow");
            if (std::fabs(d - want) > tol)
                c.fail("budget:" + x.name + ":" + (x.type == ContentType::Water ? "w" : x.type == ContentType::Snow ? "s" : "i"),
                       fmt("unit #%d %s type %d step %d: content %.12g -> %.12g (change %.12g), forcing %.12g in %.12g out %.12g (expected change %.12g) ", u, x.name.c_str(), (int)x.type, t,
                           tr.before(t, (int)k), tr.content[t][k], d, bd.forcing, bd.in, bd.out, want) + c.sample);
        }
        // The discharge is the sum of what is declared to go to the outlet.
        double q = 0;
        auto add = [&](int u, const TProc& p) {
            for (size_t k = 0; k < p.to.size(); ++k)
                if (p.to[k].name == "outlet") {
                    int cv = u >= 0 ? coverOf(s, p.brick) : -1;
                    if (cv >= 0 && tr.f(t, u, cv) <= 1e-8) continue;
                    q += tr.amt(t, u, p.brick, p.proc, (int)k);
                }
        };
        for (size_t j = 0; j < s.units.size(); ++j) for (auto& p : tp.up) add((int)j, p);
        for (auto& p : tp.sp) add(-1, p);
        c.count("discharge checks");
        if (q > 0) c.count("steps with discharge");
        if (!close(q, tr.q[t], 1e-9, 1e-10)) c.fail("discharge", fmt("step %d: outlet %.15g, sum of the fluxes to the outlet %.15g ", t, tr.q[t], q) + c.sample);
    }
    // Conservation between declared releases and received amounts: lateral deposits reach the receivers.
    c.count("runs");
    c.signature = s.shortSig();
}

Check mon::GetCheck() { return {"W02", 30000, 200000, run, "distinct structure/solver/process combination with every store budget of every step checked"}; }
