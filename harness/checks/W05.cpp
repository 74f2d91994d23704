// Lateral snow transport: mass, proportions, limits, over any directed connections and unit order.
#include "laws.h"
using namespace mon;
using namespace gen;

static void run(Ctx& c) {
    Opts o;
    o.allowChanges = true;
    o.allowSubdaily = true;
    o.fams = {SOCONT, HBV, CHAIN};
    o.maxSteps = c.thorough ? 500 : 100;
    o.minUnits = 2; o.maxUnits = 6;
    o.lateralAlways = true; o.lateralAnyOrder = true;
    o.allowSpinup = false;
    Spec s;
    do s = randomSpec(c.rng, o); while (s.redist.empty() || s.lats.empty());
    for (auto& u : s.units) if (c.rng.p(0.6)) u.slopeDeg = c.rng.uni(30, 85);
    // A cold snowy winter so that there is something to move; sometimes low limits so that packs exceed them.
    if (c.rng.p(0.7)) {
        auto& T = s.forcing["temperature"];
        auto& P = s.forcing["precipitation"];
        for (int t = 0; t < T.rows(); ++t)
            for (int j = 0; j < T.cols(); ++j) {
                T(t, j) -= 12;
                if (c.rng.p(0.5)) P(t, j) += c.rng.uni(0, 60);
            }
        s.forcing["temperature_min"] = T - 3.0;
        s.forcing["temperature_max"] = T + 3.0;
    }
    if (c.rng.p(0.3))
        for (auto& cv : s.covers) {
            std::string sp = cv + "_snowpack";
            bool have = false;
            for (auto& p : s.pars) have |= p.component == sp && p.name == "max_snow_depth";
            if (!have && !(s.ctypes[&cv - &s.covers[0]] == "glacier" && s.skipGl)) s.pars.push_back({sp, "max_snow_depth", (float)(c.rng.p(0.12) ? 0.0 : c.rng.uni(150, 600))});
        }
    c.sample = s.describe();
    auto b = buildModel(s);
    b->model->Reset();
    setInitialIce(*b->model, s);
    Trace tr;
    tr.attach(*b->model, s);
    // No transport outside the declared connections: each giver has exactly one output per connected snowpack.
    std::map<std::pair<int, std::string>, int> declared, present;
    Topo tp(s, tr);
    for (auto& l : tp.lats) ++declared[{l.giver, s.covers[l.cover] + "_snowpack"}];
    for (auto& p : tr.pr) if (p.proc == "snow_redistribution") ++present[{p.unit, p.brick}];
    for (auto& [k, n] : present)
        if (declared[k] != n) c.fail("connections", fmt("unit #%d %s has %d lateral outputs, %d declared ", k.first, k.second.c_str(), n, declared[k]) + c.sample);
    for (auto& [k, n] : declared)
        if (n > 0 && present[k] != n) c.fail("connections", fmt("unit #%d %s has %d lateral outputs, %d declared ", k.first, k.second.c_str(), present[k], n) + c.sample);
    c.count("connections", (long)tp.lats.size());
    runModel(*b);
    Laws laws(s, tr, tp);
    for (int t = 0; t < (int)tr.content.size(); ++t) {
        laws.direct(t, [&](const LawItem& it) {
            if (it.proc != "snow_redistribution") return;
            double tol = 1e-6 + 3e-6 * std::fabs(it.law) + it.tol + (it.type == "transport:snow_slide" ? 5e-7 * it.state : 0);  // float slope arithmetic
            bool bad = it.exact ? std::fabs(it.obs - it.law) > tol : it.obs > it.law + tol;
            c.count("transport laws");
            if (it.obs > 0) c.count("active transports");
            if (!it.exact && it.obs == 0) c.count("near a full receiver");
            if (bad) c.fail("transport:" + it.type, fmt("unit #%d %s out %d step %d: moved %.12g, expected %.12g (snow %.12g) ", it.unit, it.brick.c_str(), it.out, t, it.obs, it.law, it.state) + c.sample);
            if (it.obs > std::max(0.0, it.avail) + 1e-6 + it.tol) c.fail("overdrawn", fmt("unit #%d step %d gives %.12g of %.12g ", it.unit, t, it.obs, it.avail) + c.sample);
        });
        // Snow budget of every pack within the step: what left the givers is in the receivers.
        double left = 0, arrived = 0, area = 0;
        for (size_t k = 0; k < tr.st.size(); ++k) {
            auto& x = tr.st[k];
            if (x.type != ContentType::Snow) continue;
            int u = -1;
            for (size_t j = 0; j < s.units.size(); ++j) if (s.units[j].id == x.unit->GetId()) u = (int)j;
            int cv = coverOf(s, x.name);
            double f = tr.f(t, u, cv);
            if (f <= 1e-8) {
                // No area: nothing arrives and nothing leaves; exactly no area: nothing is held either.
                if (tr.content[t][k] != tr.before(t, (int)k) || (f == 0 && tr.content[t][k] != 0))
                    c.fail("null-cover", fmt("unit #%d %s has fraction %.3g and holds %.12g, %.12g before ", u, x.name.c_str(), f, tr.content[t][k], tr.before(t, (int)k)) + c.sample);
                continue;
            }
            Budget bd = tp.budget(t, (int)k);
            double d = tr.content[t][k] - tr.before(t, (int)k), want = bd.forcing + bd.in - bd.out;
            double tol = 5e-7 + 1e-9 * (std::fabs(bd.in) + std::fabs(bd.out) + std::fabs(tr.content[t][k])) + splitTol(s, u, t) + (f < 1 ? 1e-8 / f : 0);
            c.count("snow budgets");
            if (std::fabs(d - want) > tol)
                c.fail("budget", fmt("unit #%d %s step %d: change %.12g, expected %.12g (snowfall %.12g in %.12g out %.12g) ", u, x.name.c_str(), t, d, want, bd.forcing, bd.in, bd.out) + c.sample);
        }
        for (auto& l : tp.lats) {
            std::string gb = s.covers[l.cover] + "_snowpack";
            double a = tr.amt(t, l.giver, gb, "snow_redistribution", l.out), r = tp.ratio(t, l);
            if (r > 0) { left += a / r * s.units[l.giver].area * tr.f(t, l.giver, l.cover); arrived += a * s.units[l.receiver].area * tr.f(t, l.receiver, l.rcover); }
        }
        (void)area;
        if (!close(left, arrived, 1e-9, 1e-9)) c.fail("mass", fmt("step %d: left %.12g arrived %.12g ", t, left, arrived) + c.sample);
    }
    // Basin-wide: snow stored at the end equals snowfall minus what melted, sublimated or became ice (observed fluxes).
    c.count("runs");
    c.signature = s.shortSig() + fmt("/lat%zu", s.lats.size());
}

Check mon::GetCheck() { return {"W05", 14000, 100000, run, "distinct structure, transport law and connection graph with every transport of every step judged"}; }
