// Discrete GR4J and GR6J against an own implementation of the published equations, step for step.
#include "laws.h"
using namespace mon;
using namespace gen;

static double ord1(int j, double x) { auto f = [&](double t) { return t <= 0 ? 0.0 : t >= x ? 1.0 : std::pow(t / x, 2.5); }; return f(j) - f(j - 1); }
static double ord2(int j, double x) {
    auto f = [&](double t) { return t <= 0 ? 0.0 : t >= 2 * x ? 1.0 : t < x ? 0.5 * std::pow(t / x, 2.5) : 1 - 0.5 * std::pow(2 - t / x, 2.5); };
    return f(j) - f(j - 1);
}

// One unit's model state (Perrin et al. 2003; Pushpalatha et al. 2011).
struct GR {
    double X1, X2, X3, X4, X5, X6, S = 0, R = 0, Rx = 0;
    bool six;
    double eps = 0;          // amounts that small may be dropped on the way
    std::vector<double> pr;  // past inputs of the unit hydrographs
    double Q, AE, EI, PRn, F;
    bool emptied = false, clampedD = false;
    void step(double P, double E) {
        double En = std::max(0.0, E - P), Pn = std::max(0.0, P - E), Ps = 0, Es = 0;
        EI = std::min(P, E);
        if (P > E) Ps = gr4jInfiltration(S, Pn, X1);
        else if (En > 0) Es = gr4jEvaporation(S, En, X1);
        S += Ps - Es;
        double perc = gr4jPercolation(S, X1);
        S -= perc;
        AE = Es;
        PRn = Pn - Ps + perc + eps;
        pr.push_back(PRn);
        double q9 = 0, q1 = 0;
        int n = (int)pr.size();
        for (int j = 1; j <= std::ceil(X4) && j <= n; ++j) q9 += 0.9 * ord1(j, X4) * pr[n - j];
        for (int j = 1; j <= std::ceil(2 * X4) && j <= n; ++j) q1 += 0.1 * ord2(j, X4) * pr[n - j];
        double r = R / X3;
        F = six ? X2 * (r - X5) : X2 * std::pow(r, 3.5);
        double R1 = R + (six ? 0.6 : 1.0) * q9 + F;
        emptied |= R1 < 0 && R > 0;
        R1 = std::max(0.0, R1) + eps;
        double qr = R1 * (1 - std::pow(1 + std::pow(R1 / X3, 4), -0.25));
        R = R1 - qr;
        double qx = 0;
        if (six) {
            Rx += 0.4 * q9 + F;
            double a = std::max(-33.0, std::min(33.0, Rx / X6));
            qx = a > 7 ? Rx + X6 / std::exp(a) : a < -7 ? X6 * std::exp(a) : X6 * std::log(std::exp(a) + 1);
            Rx -= qx;
        }
        clampedD |= q1 + F < 0 && q1 > 0;
        double qd = std::max(0.0, q1 + F);
        Q = std::max(0.0, qr + qx + qd);
    }
};

static void run(Ctx& c) {
    Rng& r = c.rng;
    Opts o;
    o.fams = {GR4J, GR6J};
    o.allowContinuousGR = false;
    o.allowExchange = true;
    o.allowSpinup = false;
    o.allowCorrection = true;
    o.maxSteps = c.thorough ? 1500 : 300;
    o.allowSnow = r.p(0.35);
    Spec s = randomSpec(r, o);
    bool six = s.fam == GR6J;
    // Anything within the published ranges, and well outside the usual ones.
    auto setp = [&](const char* comp, const char* n, double v) {
        for (auto& p : s.pars) if (p.component == comp && p.name == n) p.value = (float)v;
    };
    bool wild = r.p(0.5);
    setp("production_store", "capacity", wild ? r.logu(1, 3000) : r.uni(100, 1200));
    setp("uh_input", "routing_capacity", wild ? r.logu(1, 1000) : r.uni(20, 300));
    setp("uh_input", "uh_base_time", r.p(0.2) ? r.i(1, 10) : r.p(0.1) ? r.i(1, 9) + 0.5 : wild ? r.uni(0.5, 20) : r.uni(1.1, 2.9));
    setp("uh_input", "exchange_factor", r.p(0.15) ? 0 : wild ? r.uni(-10, 10) : r.uni(-5, 3));
    if (six) { setp("uh_input", "exchange_threshold", wild ? r.uni(-4, 4) : r.uni(-0.5, 0.5)); setp("uh_input", "exp_store_coeff", wild ? r.logu(0.05, 60) : r.uni(1, 20)); }
    auto &P = s.forcing["precipitation"], &E = s.forcing["pet"];
    int style = r.i(0, 4);
    for (int t = 0; t < P.rows(); ++t)
        for (int j = 0; j < P.cols(); ++j) {
            if (style == 0 && r.p(0.2)) P(t, j) = E(t, j);           // net-zero days
            if (style == 1 && (t / 40) % 2) P(t, j) = 0;             // dry spells
            if (style == 2 && r.p(0.1)) P(t, j) = r.uni(50, 400);    // storms
            if (style == 3 && r.p(0.3)) E(t, j) = r.p(0.5) ? 0 : r.uni(0, 15);
        }
    c.sample = s.describe() + fmt(" style %d", style);
    auto b = buildModel(s);
    ModelHydro& m = *b->model;
    int nu = (int)s.units.size();
    std::vector<double> S0(nu, 0.0);
    double X1 = par(s, "production_store", "capacity", 0);
    if (r.p(0.6))
        for (auto& st : stores(m))
            if (st.brick->GetName() == "production_store" && st.unit) {
                int j = 0;
                while (s.units[j].id != st.unit->GetId()) ++j;
                S0[j] = r.p(0.15) ? X1 : r.uni(0, X1);
                st.brick->UpdateContent(S0[j], ContentType::Water);
                st.brick->SetInitialState(S0[j], ContentType::Water);
            }
    m.Reset();
    setInitialIce(m, s);
    Trace tr;
    tr.attach(m, s);
    SubBasin* sb = m.GetSubBasin();
    std::vector<const double*> held(nu);
    for (int i = 0; i < nu; ++i) {
        HydroUnit* u = sb->GetHydroUnit(i);
        int j = 0;
        while (s.units[j].id != u->GetId()) ++j;
        held[j] = u->GetBrick("uh_input")->GetProcess(0)->GetValuePointer("routing_store");
    }
    std::vector<std::vector<double>> R, H;  // level of the routing store, all water held by the routing
    std::vector<const double*> all(nu);
    for (int j = 0; j < nu; ++j) all[j] = m.GetSubBasin()->GetHydroUnitById(s.units[j].id)->GetBrick("uh_input")->GetProcess(0)->GetValuePointer("internal_storage");
    auto inner = onEvent();
    onEvent() = [&](const char* ev, ModelHydro* mm) {
        inner(ev, mm);
        if (ev[1] != 't') return;
        R.emplace_back();
        H.emplace_back();
        for (int j = 0; j < nu; ++j) H.back().push_back(*all[j]);
        for (int j = 0; j < nu; ++j) R.back().push_back(*held[j]);
    };
    runModel(*b);
    Topo tp(s, tr);
    double area = 0;
    for (auto& u : s.units) area += u.area;
    for (int j = 0; j < nu; ++j) {
        GR g{};
        g.six = six;
        g.X1 = X1; g.X2 = par(s, "uh_input", "exchange_factor", 0); g.X3 = par(s, "uh_input", "routing_capacity", 90);
        g.X4 = par(s, "uh_input", "uh_base_time", 1.7); g.X5 = par(s, "uh_input", "exchange_threshold", 0); g.X6 = par(s, "uh_input", "exp_store_coeff", 4);
        g.S = S0[j];
        int gi = tr.store(j, s.covers[0], ContentType::Water), pi = tr.store(j, "production_store", ContentType::Water), ui = tr.store(j, "uh_input", ContentType::Water);
        GR h = g;  // the same unit with inputs changed by round-off: how far that moves the results
        h.eps = 1.5e-8;
        double drift = 0, scale = 0;
        double eS = 0, eR = 0, eX = 0;  // how far round-off may have moved the stores (an oscillating store can amplify it with changing sign)
        for (int t = 0; t < (int)tr.content.size(); ++t) {
            Budget bd = tp.budget(t, gi);
            double Pt = bd.in + bd.forcing;
            double E0 = forcingAt(s, "pet", j, t);
            GR lo = g, hi = g;
            lo.S = std::max(0.0, lo.S - eS); lo.R = std::max(0.0, lo.R - eR); lo.Rx -= eX;
            hi.S = std::min(X1, hi.S + eS); hi.R += eR; hi.Rx += eX;
            g.step(Pt, E0); lo.step(Pt, E0); hi.step(Pt, E0);
            auto far = [&](double GR::*x) { return std::max(std::fabs(lo.*x - g.*x), std::fabs(hi.*x - g.*x)); };
            eS = far(&GR::S) + 1e-9; eR = far(&GR::R) + 1e-9; eX = six ? far(&GR::Rx) + 1e-9 : 0;
            double moved = std::max({eS, eR, far(&GR::Q), far(&GR::AE)});
            scale = std::max({scale, g.Q, std::fabs(g.F), Pt});
            drift += splitTol(s, j, t) + (s.snow ? 1e-8 : 0);
            // Rates of 1e-8 and less and contents of 1e-8 and less are dropped; with snow the division is single precision.
            h.step(Pt * (1 + (s.snow ? 1e-6 : 1e-9)) + (s.snow ? 2e-7 : 2e-8) + splitTol(s, j, t), forcingAt(s, "pet", j, t));
            double sens = 3 * std::max({moved, std::fabs(h.S - g.S), std::fabs(h.R - g.R), std::fabs(h.Q - g.Q), std::fabs(h.AE - g.AE)});
            if (sens > 0.01) { c.count("units left after chaotic growth"); break; }
            double tol = sens + 2e-7 + 1e-8 * t + drift + 1e-8 * scale + (s.snow ? 2e-7 * scale : 0);
            double q = tr.amt(t, j, "uh_input", "routing") / (s.units[j].area / area);
            double ei = tr.amt(t, j, s.covers[0], "interception"), es = tr.amt(t, j, "production_store", "et");
            auto bad = [&](const char* key, double want, double got) {
                if (!(std::fabs(want - got) <= tol))
                    c.fail(std::string(key) + (six ? ":gr6j" : ":gr4j"), fmt("unit #%d step %d: published %.12g, observed %.12g (P %.9g, E %.9g, S0 %.9g) ", j, t, want, got, Pt, forcingAt(s, "pet", j, t), S0[j]) + c.sample);
            };
            bad("interception", g.EI, ei);
            bad("evaporation", g.AE, es);
            bad("production store", g.S, tr.content[t][pi]);
            bad("routing store", g.R, R[t][j]);
            bad("discharge", g.Q, q);
            // What the exchange adds or removes passes through the store: its content is what the routing holds.
            if (!six) { tol += 4e-8 * t; bad("routing content", H[t][j], tr.content[t][ui]); }
            c.count("unit steps");
            if (Pt == forcingAt(s, "pet", j, t) && Pt > 0) c.count("net-zero days");
            if (g.F < -1e-6) c.count("steps with loss");
            if (g.F > 1e-6) c.count("steps with gain");
        }
        if (g.emptied) c.count("routing store emptied by the exchange");
        if (g.clampedD) c.count("direct branch cut by the exchange");
    }
    // The basin discharge is the area-weighted sum.
    for (int t = 0; t < (int)tr.q.size(); ++t) {
        double q = 0;
        for (int j = 0; j < nu; ++j) q += tr.amt(t, j, "uh_input", "routing");
        if (std::fabs(q - tr.q[t]) > 1e-9 * (1 + q)) c.fail("outlet", fmt("step %d: %.12g vs %.12g ", t, q, tr.q[t]) + c.sample);
    }
    c.signature = s.shortSig() + fmt("/%d", style) + fmt("/%.3g/%.3g/%.3g/%.3g", X1, (double)par(s, "uh_input", "exchange_factor", 0), (double)par(s, "uh_input", "routing_capacity", 0), (double)par(s, "uh_input", "uh_base_time", 0));
}

Check mon::GetCheck() { return {"M01", 25000, 60000, run, "distinct model, parameter set and forcing style with every unit step compared with the published equations"}; }
