// Rain / snow division of every step's precipitation, its correction factors and its delivery to every cover.
#include "trace.h"
using namespace mon;
using namespace gen;

static void run(Ctx& c) {
    Opts o;
    o.allowCorrection = true;
    o.allowChanges = true;
    o.allowSubdaily = true;
    o.maxSteps = c.thorough ? 400 : 100;
    o.maxUnits = 5;
    o.allowSnow = !c.rng.p(0.1);
    o.allowLateral = c.rng.p(0.3);
    Spec s = randomSpec(c.rng, o);
    if (s.snow) {
        auto &T = s.forcing["temperature"], &P = s.forcing["precipitation"], &Tn = s.forcing["temperature_min"], &Tx = s.forcing["temperature_max"];
        double a = 0, b = 2;
        if (s.split == "snow_rain:linear") { a = par(s, "snow_rain_transition", "transition_start", 0); b = par(s, "snow_rain_transition", "transition_end", 2); }
        else if (s.split == "snow_rain:threshold") a = b = par(s, "snow_rain_transition", "threshold", 0);
        else { a = -1; b = 3; }
        bool rainy = c.rng.p(0.7);
        for (int t = 0; t < T.rows(); ++t)
            for (int j = 0; j < T.cols(); ++j) {
                if (rainy && c.rng.p(0.6)) P(t, j) = c.rng.uni(0, 40) * s.stepDays();
                if (c.rng.p(0.4)) {  // in and around the transition, including its ends
                    double q = c.rng.u();
                    T(t, j) = q < 0.1 ? a : q < 0.2 ? b : q < 0.3 ? std::nextafter(a, -99) : q < 0.4 ? std::nextafter(b, 99) : c.rng.uni(a - 1, b + 1);
                    q = c.rng.u();
                    Tn(t, j) = q < 0.1 ? 0 : q < 0.2 ? T(t, j) : T(t, j) - c.rng.uni(0, 8);
                    Tx(t, j) = q > 0.9 ? std::max(0.0, Tn(t, j)) : Tn(t, j) + (q < 0.1 && c.rng.p(0.5) ? 0 : c.rng.uni(0, 12));
                }
            }
        if (s.split == "snow_rain:cemaneige") for (auto& u : s.units) if (c.rng.p(0.3)) u.elev = c.rng.p(0.5) ? 1500 : c.rng.uni(1499, 1501);
        for (auto& u : s.units) if (std::fabs(u.elev - 1500) < 1e-9) u.elev = 1500;
    }
    c.sample = s.describe();
    auto b = buildModel(s);
    b->model->Reset();
    setInitialIce(*b->model, s);
    Trace tr;
    tr.attach(*b->model, s);
    // Amounts of the rain and snow fluxes, sampled with the trace.
    SubBasin* sb = b->model->GetSubBasin();
    int nu = (int)s.units.size();
    std::vector<const double*> rp(nu), sp(nu);
    for (int i = 0; i < sb->GetHydroUnitCount(); ++i) {
        HydroUnit* u = sb->GetHydroUnit(i);
        int j = 0;
        while (s.units[j].id != u->GetId()) ++j;
        Splitter* x = u->GetSplitter(s.snow ? "snow_rain_transition" : "rain");
        rp[j] = x->GetValuePointer("rain");
        sp[j] = s.snow ? x->GetValuePointer("snow") : nullptr;
    }
    std::vector<std::vector<std::pair<double, double>>> obs;
    auto inner = onEvent();
    onEvent() = [&](const char* ev, ModelHydro* m) {
        inner(ev, m);
        if (ev[1] != 't') return;
        obs.emplace_back();
        for (int j = 0; j < nu; ++j) obs.back().push_back({*rp[j], sp[j] ? *sp[j] : 0.0});
    };
    runModel(*b);
    Topo tp(s, tr);
    const std::string tc = s.snow ? "snow_rain_transition" : "rain";
    double rcf = par(s, tc, "rain_correction_factor", 1), scf = s.snow ? par(s, tc, "snow_correction_factor", 1) : 1;
    for (int j = 0; j < nu; ++j) {
        std::vector<std::pair<double, double>> share;  // temperature, snow share
        for (int t = 0; t < (int)obs.size(); ++t) {
            auto [R, S] = obs[t][j];
            double p = forcingAt(s, "precipitation", j, t), wr, ws;
            rainSnow(s, j, t, wr, ws);
            double tol = 1e-12 + 1e-6 * p + splitTol(s, j, t);
            c.count("partitions");
            if (R < 0 || S < 0 || !std::isfinite(R) || !std::isfinite(S)) c.fail("negative share", fmt("unit #%d step %d: rain %.12g snow %.12g of %.12g ", j, t, R, S, p) + c.sample);
            double sum = R / rcf + S / scf;
            if (std::fabs(sum - p) > 1e-12 + 4e-7 * p) c.fail("sum", fmt("unit #%d step %d: rain %.12g / %.9g + snow %.12g / %.9g != precipitation %.12g ", j, t, R, rcf, S, scf, p) + c.sample);
            if (std::fabs(R - wr) > tol || std::fabs(S - ws) > tol)
                c.fail("rule:" + (s.snow ? s.split : std::string("rain")), fmt("unit #%d step %d: rain %.12g snow %.12g, the rule gives %.12g and %.12g (P %.12g) ", j, t, R, S, wr, ws, p) + c.sample);
            if (R > 0 && S > 0) c.count("mixed");
            if (p > 1e-3 && s.snow && (s.split != "snow_rain:cemaneige" || s.units[j].elev >= 1500)) share.push_back({forcingAt(s, "temperature", j, t), S / scf / p});
        }
        std::sort(share.begin(), share.end());
        for (size_t k = 1; k < share.size(); ++k) {
            c.count("ordered pairs");
            if (share[k].second > share[k - 1].second + 1e-6 && share[k].first > share[k - 1].first)
                c.fail("monotonic", fmt("unit #%d: snow share %.9g at %.9g degrees, %.9g at %.9g ", j, share[k - 1].second, share[k - 1].first, share[k].second, share[k].first) + c.sample);
        }
    }
    // Delivery: the full depth reaches each cover's pack, canopy or ground.
    for (int t = 0; t < (int)tr.content.size(); ++t)
        for (size_t k = 0; k < tr.st.size(); ++k) {
            auto& x = tr.st[k];
            int cv = x.unit ? coverOf(s, x.name) : -1;
            if (cv < 0 || x.type == ContentType::Ice) continue;
            int u = 0;
            while (s.units[u].id != x.unit->GetId()) ++u;
            if (tr.f(t, u, cv) <= 1e-8) continue;
            Budget bd = tp.budget(t, (int)k);
            if (bd.forcing <= 0) continue;
            double d = tr.content[t][k] - tr.before(t, (int)k), got = d - bd.in + bd.out;
            double f = tr.f(t, u, cv);
            double tol = 5e-7 + 1e-9 * (std::fabs(bd.in) + std::fabs(bd.out) + std::fabs(tr.content[t][k])) + splitTol(s, u, t) + 1e-6 * bd.forcing + (f < 1 ? 1e-8 / f : 0);
            c.count("deliveries");
            if (std::fabs(got - bd.forcing) > tol)
                c.fail("delivery:" + std::string(x.type == ContentType::Snow ? "snow" : "rain"), fmt("unit #%d %s step %d: received %.12g from the sky, expected %.12g ", u, x.name.c_str(), t, got, bd.forcing) + c.sample);
        }
    c.signature = s.shortSig() + fmt("/%d%s/%g/%g", s.stepN, s.stepUnit.c_str(), rcf, scf);
}

Check mon::GetCheck() { return {"M03", 30000, 150000, run, "distinct structure, rule, parameters and time step with the division and delivery of every step judged"}; }
