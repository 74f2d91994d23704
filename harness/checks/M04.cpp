// Soil, evapotranspiration and runoff laws: observed fluxes of every step against the documented laws.
#include "laws.h"
using namespace mon;
using namespace gen;

static void run(Ctx& c) {
    Opts o;
    o.allowCorrection = true;
    o.allowSpinup = false;
    o.allowChanges = true;
    o.allowSubdaily = true;
    o.anyOrder = true;
    o.allowSnow = !c.rng.p(0.3);
    o.maxSteps = c.thorough ? 400 : 100;
    o.maxUnits = 3;
    o.fams = {SOCONT, HBV, CHAIN, CHAIN, GR4J};
    bool explicitEuler = c.rng.p(0.7);
    if (explicitEuler) o.solvers = {"euler_explicit"};
    Spec s;
    do s = randomSpec(c.rng, o); while (s.fam == GR4J && s.discrete && c.rng.p(0.8));
    c.sample = s.describe();
    auto b = buildModel(s);
    b->model->Reset();
    setInitialIce(*b->model, s);
    Trace tr;
    tr.attach(*b->model, s);
    runModel(*b);
    Topo tp(s, tr);
    Laws laws(s, tr, tp);
    std::map<std::string, double> capacity;  // of the solved stores
    for (auto& p : s.pars) if (p.name == "capacity") capacity[p.component] = p.value;
    bool holding = false;
    for (auto& x : s.chain) holding |= x.capacity > 0 && std::none_of(x.procs.begin(), x.procs.end(), [](auto& p) { return p.type == "overflow"; });
    for (int t = 0; t < (int)tr.content.size(); ++t) {
        // Land covers and canopies.
        laws.direct(t, [&](const LawItem& it) {
            if (it.brick.ends_with("_snowpack") || it.type.starts_with("melt:") || it.proc == "outflow_rain_snowmelt") return;
            double want = std::min(it.law, it.avail);
            double tol = 1e-6 + 3e-6 * std::fabs(want) + it.tol;
            bool bad = it.exact ? std::fabs(it.obs - want) > tol : it.obs > want + tol;
            // The soil state the infiltration depends on is the one of the former step in every scheme.
            c.count("law:" + it.type);
            if (it.obs > 0) c.count("active:" + it.type);
            if (bad)
                c.fail("law:" + it.type, fmt("unit #%d %s:%s out %d step %d: observed %.12g, the law gives %.12g (content %.12g) ", it.unit, it.brick.c_str(), it.proc.c_str(), it.out, t, it.obs, it.law, it.avail) + c.sample);
        });
        // Solved stores, explicit Euler.
        if (explicitEuler) {
            std::map<std::pair<int, std::string>, std::vector<LawItem>> byStore;
            laws.solved(t, [&](const LawItem& it) { byStore[{it.unit, it.brick}].push_back(it); });
            for (auto& [k, items] : byStore) {
                int st = tr.store(k.first, k.second, ContentType::Water);
                double end = tr.content[t][st], start = tr.before(t, st);
                bool emptied = end < 2e-7;
                double total = 0;
                for (auto& it : items) total += it.law;
                // Next to stores that hold back what is to come, the limits of the stores act on each other.
                if (holding && total > start - 1e-6) emptied = true;
                bool toCapped = false;  // a target may limit what it takes, and so change what is left for the others
                for (auto& it : items) {
                    bool capped = false;
                    for (auto& p : tp.up) if (p.brick == it.brick && p.proc == it.proc) { 
                        auto& g = p.to[it.out].name;
                        capped = capacity.count(g) > 0;
                        for (auto* v : {&tp.up, &tp.sp}) for (auto& q : *v) if (q.brick == g && q.type == "overflow") capped = false;  // takes everything, the excess leaves
                    }
                    toCapped |= capped;
                }
                for (auto& it : items) {
                    double tol = 1e-6 + 3e-6 * std::fabs(it.law) + it.tol;
                    bool exact = it.exact && !emptied && !toCapped;
                    bool bad = exact ? std::fabs(it.obs - it.law) > tol : it.obs > it.law + tol;
                    c.count("law:" + it.type);
                    if (it.obs > 0) c.count("active:" + it.type);
                    if (emptied && it.obs > 0) c.count("limited by the content");
                    if (bad)
                        c.fail("law:" + it.type, fmt("unit #%d %s:%s out %d step %d: observed %.12g, the law gives %.12g (content %.12g -> %.12g)%s ", it.unit, it.brick.c_str(), it.proc.c_str(), it.out, t, it.obs, it.law, start, end, exact ? "" : " bound") + c.sample);
                }
            }
        }
        // Any scheme: the evapotranspiration respects the demand; a store that overflows is full.
        std::map<int, double> coverEt;
        for (size_t k = 0; k < tr.pr.size(); ++k) {
            auto& p = tr.pr[k];
            const TProc* decl = nullptr;
            for (auto& d : (p.unit >= 0 ? tp.up : tp.sp)) if (d.brick == p.brick && d.proc == p.proc) decl = &d;
            if (!decl) continue;
            double a = tr.amount[t][k];
            if (p.unit >= 0 && decl->type.starts_with("et:")) {
                int cv = coverOf(s, p.brick);
                if (cv >= 0 && tr.f(t, p.unit, cv) <= 1e-8) continue;
                double pet = forcingAt(s, "pet", p.unit, t) * s.stepDays() * (decl->type == "et:hbv" ? par(s, p.brick, "et_correction_factor", 1) : 1);
                c.count("et demands");
                if (a > 0 && a > 0.98 * pet) c.count("et at the demand");
                if (a < 0 || a > pet + 1e-7 + 1e-6 * pet)
                    c.fail(s.solver == "exponential_euler" ? std::string("demand:exponential_euler") : "demand:" + decl->type, fmt("unit #%d %s step %d: evapotranspiration %.12g of a demand of %.12g ", p.unit, p.brick.c_str(), t, a, pet) + c.sample);
                int st = tr.store(p.unit, p.brick, ContentType::Water);
                Budget bd = tp.budget(t, st);
                if (a > tr.before(t, st) + bd.in + bd.forcing + 1e-6) c.fail("et water", fmt("unit #%d %s step %d: evapotranspiration %.12g of %.12g available ", p.unit, p.brick.c_str(), t, a, tr.before(t, st) + bd.in) + c.sample);
            }
            if (decl->type == "overflow" && a > 1e-6 && capacity.count(p.brick)) {
                double end = tr.content[t][tr.store(p.unit, p.brick, ContentType::Water)], cap = capacity[p.brick];
                c.count("overflows");
                if (std::fabs(end - cap) > 1e-5 + 1e-6 * cap)
                    c.fail("overflow", fmt("unit #%d %s step %d: %.12g overflows but the store ends at %.12g of %.12g ", p.unit, p.brick.c_str(), t, a, end, cap) + c.sample);
            }
        }
    }
    c.signature = s.shortSig() + fmt("/%d%s", s.stepN, s.stepUnit.c_str());
}

Check mon::GetCheck() { return {"M04", 30000, 150000, run, "distinct combination of soil, evapotranspiration and runoff processes, scheme and time step with every law of every step evaluated"}; }
