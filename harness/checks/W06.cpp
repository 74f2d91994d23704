// Unit hydrograph routing against an own convolution with the published S-curves, over runs with changed base times.
#include "gen.h"
#include "Flux.h"
using namespace mon;
using namespace gen;

static double sh1(double t, double x) { return t <= 0 ? 0 : t >= x ? 1 : std::pow(t / x, 2.5); }
static double sh2(double t, double x) { return t <= 0 ? 0 : t >= 2 * x ? 1 : t < x ? 0.5 * std::pow(t / x, 2.5) : 1 - 0.5 * std::pow(2 - t / x, 2.5); }
static double tri(double t, double b) {  // cumulative isosceles triangle of base b
    if (t <= 0) return 0;
    if (t >= b) return 1;
    return t <= b / 2 ? 2 * t * t / (b * b) : 1 - 2 * (b - t) * (b - t) / (b * b);
}

struct Handles { const double *store, *out, *qr, *qd, *exp, *r, *rexp; WaterContainer* wc; };

static void run(Ctx& c) {
    Rng& r = c.rng;
    int kind = r.i(0, 2);
    const char* kinds[] = {"gr4j", "gr6j", "hbv"};
    const char* par = kind == 2 ? "maxbas" : "uh_base_time";
    bool direct = r.p(0.5), inst = false;
    std::vector<std::string> solvers = {"rk4", "euler_explicit", "heun_explicit", "implicit_euler", "crank_nicolson", "exponential_euler"};
    std::string solver = r.pick(solvers);
    int nu = r.i(1, 3);
    Spec s;
    s.nsteps = r.i(30, c.thorough ? 300 : 120);
    s.y0 = r.i(1990, 2020); s.m0 = r.i(1, 12); s.d0 = r.i(1, 28);
    s.snow = false;
    s.solver = solver;
    for (int j = 0; j < nu; ++j) s.units.push_back({j + 1, r.logu(1e5, 1e8), r.uni(300, 3000), 10, "N", {1.0}});
    s.covers = {"open"}; s.ctypes = {"generic_land_cover"};
    auto base = [&]() -> double {
        double q = r.u();
        if (q < 0.2) return r.i(1, 12);
        if (q < 0.35) return r.i(1, 24) * 0.5;
        if (q < 0.45) return r.i(1, 9) + (r.p(0.5) ? 1e-3 : -1e-3);
        if (q < 0.55) return r.uni(0.2, 1);
        return r.uni(0.5, 20);
    };
    axxd P(s.nsteps, nu), E(s.nsteps, nu);
    E.setZero();
    int shape = r.i(0, 3);
    for (int t = 0; t < s.nsteps; ++t)
        for (int j = 0; j < nu; ++j)
            P(t, j) = shape == 0 ? (t == 3 * j ? r.uni(1, 150) : 0) : shape == 1 ? (t < s.nsteps / 2 && r.p(0.3) ? r.uni(0, 60) : 0) : shape == 2 ? r.uni(0, 20) : (r.p(0.05) ? r.uni(50, 180) : 0);
    s.forcing["precipitation"] = P;
    s.forcing["pet"] = E;

    Built b;
    SettingsModel& sm = b.sm;
    sm.SetSolver(solver);
    long d0 = civilToMjd(s.y0, s.m0, s.d0);
    sm.SetTimer(dateTimeStr(d0, 0), dateTimeStr(d0 + s.nsteps - 1, 0), 1, "day");
    sm.SetLogAll(true);
    sm.GeneratePrecipitationSplitters(false, "");
    sm.AddLandCoverBrick("open", "generic_land_cover");
    sm.SelectHydroUnitBrick("open");
    sm.AddBrickProcess("outflow", "outflow:direct", "uh");
    if (inst) sm.SetProcessOutputsAsInstantaneous();
    sm.AddHydroUnitBrick("uh", "storage");
    sm.AddBrickProcess("routing", std::string("routing:") + kinds[kind], "outlet");
    if (direct) sm.SetCurrentBrickComputedDirectly();
    sm.AddLoggingToItem("outlet");
    double X3 = (float)r.uni(10, 400), X6 = (float)r.uni(0.1, 20);
    double bt = (float)base();
    auto setp = [&](const char* n, double v) { if (!sm.SetParameterValue("uh", n, (float)v)) throw std::runtime_error("harness: parameter"); };
    setp(par, bt);
    if (kind < 2) { setp("exchange_factor", 0); setp("routing_capacity", X3); }
    if (kind == 1) { setp("exp_store_coeff", X6); setp("exchange_threshold", r.uni(-1, 1)); }
    buildBasin(b.sb, s);
    b.model = std::make_unique<ModelHydro>();
    ModelHydro& m = *b.model;
    if (auto q = m.InitializeWithBasin(b.sm, b.sb); !q) throw std::runtime_error("initialization refused: " + q.error());
    attachForcing(m, s);
    std::vector<Handles> hs(nu);
    SubBasin* sb = m.GetSubBasin();
    for (int j = 0; j < nu; ++j) {
        Brick* br = sb->GetHydroUnit(j)->GetBrick("uh");
        Process* p = br->GetProcess(0);
        hs[j] = {p->GetValuePointer("internal_storage"), p->GetValuePointer("output"), kind < 2 ? p->GetValuePointer("q_routing") : nullptr,
                 kind < 2 ? p->GetValuePointer("q_direct") : nullptr, kind == 1 ? p->GetValuePointer("q_exp") : nullptr,
                 kind < 2 ? p->GetValuePointer("routing_store") : nullptr, kind == 1 ? p->GetValuePointer("exp_store") : nullptr, br->GetWaterContainer()};
    }
    double area = 0;
    for (auto& u : s.units) area += u.area;
    int runs = r.i(2, 4);
    std::string hist;
    std::vector<std::vector<double>> init1(nu), init2(nu);  // what the saved state still holds in transit
    std::vector<double> R0(nu, 0), Re0(nu, 0), held0(nu, 0), R(nu, 0), Re(nu, 0), heldNow(nu, 0);
    std::vector<std::vector<double>> s1(nu), s2(nu);
    int tAll = 0;
    double saved = 0;
    auto another = [&]() {
        // Any value, or one with as many ordinates as before (or one less, or one more).
        double nb = base();
        if (r.p(0.6)) nb = std::max(0.2, std::ceil(bt) + r.i(-1, 1) - r.u());
        bt = (float)nb;
        setp(par, bt);
    };
    for (int k = 0; k < runs; ++k) {
        if (k > 0) {
            bool save = r.p(0.3);
            if (save) {
                m.SaveAsInitialState();
                saved = 0;
                for (int j = 0; j < nu; ++j) {
                    int n = s.nsteps;
                    init1[j].assign(s1[j].begin() + std::min<size_t>(n, s1[j].size()), s1[j].end());
                    init2[j].assign(s2[j].begin() + std::min<size_t>(n, s2[j].size()), s2[j].end());
                    R0[j] = R[j]; Re0[j] = Re[j]; held0[j] = heldNow[j];
                    saved += std::fabs(held0[j]);
                }
                hist += " -> saved";
                c.count("states saved with water in transit", saved > 0.01);
            }
            bool upd = r.p(0.5), resetFirst = r.p(0.5);
            if (resetFirst) m.Reset();
            another();
            if (upd) m.UpdateParameters(sm);
            if (!resetFirst) m.Reset();
            hist += fmt(" -> %.9g(%s%s)", bt, upd ? "updated" : "set", resetFirst ? " after reset" : "");
        } else {
            hist = fmt("%.9g", bt);
            if (r.p(0.5)) m.Reset();
        }
        c.sample = fmt("routing:%s %s %s%s units=%d steps=%d base time %s X3=%.6g X6=%.6g", kinds[kind], solver.c_str(), direct ? "direct" : "solver", inst ? "+inst" : "", nu, s.nsteps, hist.c_str(), X3, X6);
        // Own ordinates.
        std::vector<double> o1, o2;
        auto ordinates = [&]() {
            o1.clear(); o2.clear();
            double be = kind == 2 ? std::max(1.0, bt) : bt;
            for (int i = 1; i <= (int)std::ceil(be); ++i) o1.push_back(kind == 2 ? tri(i, be) - tri(i - 1, be) : sh1(i, be) - sh1(i - 1, be));
            if (kind < 2) for (int i = 1; i <= (int)std::ceil(2 * be); ++i) o2.push_back(sh2(i, be) - sh2(i - 1, be));
            c.count("ordinates", o1.size() + o2.size());
        };
        ordinates();
        // The base time may also change while the model runs: the water follows the ordinates in force when it entered.
        double pChange = r.p(0.4) ? r.uni(0.01, 0.2) : 0;
        s1 = init1; s2 = init2; R = R0; Re = Re0;
        int t = 0;
        std::vector<double> cumOut(nu, 0), cumIn = held0;
        double mass0 = saved;
        onEvent() = [&](const char* ev, ModelHydro*) {
            if (ev[1] != 't') return;
            for (int j = 0; j < nu; ++j) {
                Handles& h = hs[j];
                double mass = mass0;
                auto enter = [&](std::vector<double>& sc, const std::vector<double>& o) {
                    if (sc.size() < t + o.size()) sc.resize(t + o.size(), 0.0);
                    for (size_t i = 0; i < o.size(); ++i) sc[t + i] += o[i] * P(t, j);
                    return t < (int)sc.size() ? sc[t] : 0.0;
                };
                double q1 = enter(s1[j], o1), q2 = kind < 2 ? enter(s2[j], o2) : 0;
                for (int a = 0; a <= t; ++a) mass += P(a, j);
                double out = *h.out / (s.units[j].area / area);
                cumIn[j] += P(t, j);
                cumOut[j] += out;
                double scale = 1e-7 + 1e-9 * mass + 2e-8 * (tAll + 1);
                c.count("deliveries");
                auto bad = [&](const char* key, double want, double got) {
                    if (!(std::fabs(want - got) <= scale)) c.fail(std::string(key) + ":" + kinds[kind], fmt("run %d unit #%d step %d: expected %.12g, observed %.12g ", k, j, t, want, got) + c.sample);
                };
                if (kind == 2) {
                    bad("delivered", q1, out);
                } else if (kind == 0) {
                    bad("direct branch", 0.1 * q2, *h.qd);
                    double rp = R[j] + 0.9 * q1, qr = rp * (1 - std::pow(1 + std::pow(rp / X3, 4), -0.25));
                    bad("routing branch", qr, *h.qr);
                    R[j] = rp - qr;
                    bad("routing store", R[j], *h.r);
                    bad("delivered", qr + 0.1 * q2, out);
                } else {
                    bad("direct branch", 0.1 * q2, *h.qd);
                    double rp = R[j] + 0.54 * q1, qr = rp * (1 - std::pow(1 + std::pow(rp / X3, 4), -0.25));
                    double rx = Re[j] + 0.36 * q1, z = rx / X6, qx = z > 30 ? rx : X6 * std::log1p(std::exp(z));
                    bad("routing branch", qr, *h.qr);
                    R[j] = rp - qr; Re[j] = rx - qx;
                    bad("routing store", R[j], *h.r);
                    if (std::fabs(qx - *h.exp) > scale + 1e-3 * qx) bad("exponential branch", qx, *h.exp);
                    Re[j] += qx - *h.exp;
                    bad("exponential store", Re[j], *h.rexp);
                    bad("delivered", qr + *h.exp + 0.1 * q2, out);
                }
                // What entered is either delivered or still held, by the book of the process and of its store.
                bad("held", cumIn[j] - cumOut[j], *h.store);
                bad("content", cumIn[j] - cumOut[j], h.wc->GetContentWithoutChanges());
                heldNow[j] = cumIn[j] - cumOut[j];
            }
            ++t;
            ++tAll;
            if (pChange > 0 && t < s.nsteps && r.p(pChange)) {
                size_t n0 = o1.size();
                another();
                ordinates();
                c.sample += fmt(" | run %d step %d: %.9g", k, t, bt);
                c.count(o1.size() < n0 ? "base time shortened during a run" : o1.size() > n0 ? "base time lengthened during a run" : "base time changed within its number of steps during a run");
            }
        };
        runModel(b);
        onEvent() = nullptr;
        if (t != s.nsteps) c.fail("steps", fmt("%d of %d steps observed ", t, s.nsteps) + c.sample);
        c.count("runs");
        if (k > 0) c.count("runs after a change of base time");
    }
    c.signature = c.sample;
}

Check mon::GetCheck() { return {"W06", 30000, 150000, run, "distinct routing process, solver, base-time history and inflow with the delivery of every step compared with the published schedule"}; }
