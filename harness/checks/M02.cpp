// Snow and ice laws: the fluxes observed at every step against the documented laws evaluated on the observed state.
#include "laws.h"
using namespace mon;
using namespace gen;

static void run(Ctx& c) {
    Opts o;
    o.allowChanges = true;
    o.maxSteps = c.thorough ? 400 : 100;
    o.allowCorrection = true;
    o.allowSpinup = false;
    o.allowExchange = true;
    Spec s;
    do s = randomSpec(c.rng, o); while (!s.snow);
    bool gr = s.fam == GR4J || s.fam == GR6J;
    if (!gr && c.rng.p(0.25)) {
        static const std::vector<std::pair<int, std::string>> st = {{12, "hour"}, {6, "hour"}, {3, "hour"}, {1, "hour"}, {30, "minute"}, {2, "day"}, {5, "day"}};
        auto& x = c.rng.pick(st);
        s.stepN = x.first; s.stepUnit = x.second;
        for (auto& ch : s.changes) ch.early = std::min(ch.early, s.stepMinutes() - 1);
        randomForcing(c.rng, s);
    }
    // Temperatures exactly at the thresholds.
    if (c.rng.p(0.2)) {
        auto& T = s.forcing["temperature"];
        for (int t = 0; t < T.rows(); ++t)
            for (int j = 0; j < T.cols(); ++j)
                if (c.rng.p(0.3)) T(t, j) = par(s, s.covers[0] + "_snowpack", "melting_temperature", 0) + (c.rng.p(0.5) ? 0 : c.rng.uni(-0.2, 0.2));
    }
    c.sample = s.describe();
    auto b = buildModel(s);
    b->model->Reset();
    setInitialIce(*b->model, s);
    Trace tr;
    tr.attach(*b->model, s);
    runModel(*b);
    Topo tp(s, tr);
    Laws laws(s, tr, tp);
    for (int t = 0; t < (int)tr.content.size(); ++t) {
        laws.direct(t, [&](const LawItem& it) {
            bool mine = it.brick.ends_with("_snowpack") || it.type.starts_with("melt:") || it.proc == "outflow_rain_snowmelt";
            if (!mine) return;
            double want = std::min(it.law, it.avail);
            double tol = 1e-6 + 3e-6 * std::fabs(want) + it.tol + (it.type == "transport:snow_slide" ? 5e-7 * it.state : 0);  // float slope arithmetic
            bool bad = it.exact ? std::fabs(it.obs - want) > tol : it.obs > want + tol;
            c.count("laws");
            c.count("law:" + it.type);
            if (it.obs > 0) c.count("active:" + it.type);
            if (it.law > it.avail && it.obs > 0) c.count("limited by the content");
            if (bad)
                c.fail("law:" + it.type, fmt("unit #%d %s:%s out %d step %d: observed %.12g, the law gives %.12g (content %.12g) ", it.unit, it.brick.c_str(), it.proc.c_str(), it.out, t, it.obs, it.law, it.avail) + c.sample);
        });
        // Water held by the snow never exceeds its holding capacity at the end of the meltwater release; snow melts only above the
        // melting temperature (checked by the law); the pack's content stays consistent.
        for (size_t j = 0; j < s.units.size(); ++j)
            for (size_t k = 0; k < s.covers.size() && s.retention; ++k) {
                if (tr.f(t, (int)j, (int)k) <= 1e-8) continue;
                std::string sp = s.covers[k] + "_snowpack";
                int w = tr.store((int)j, sp, ContentType::Water), n = tr.store((int)j, sp, ContentType::Snow);
                if (w < 0) continue;
                // Snow removed after the drainage (redistribution, sublimation, ice formation) leaves its water until the next step.
                double later = tr.amt(t, (int)j, sp, "sublimation") + (s.iceT.empty() ? 0 : tr.amt(t, (int)j, sp, "snow_ice_transfo"));
                for (auto& l : tp.lats) if (l.giver == (int)j && l.cover == (int)k) { double r = tp.ratio(t, l); if (r > 0) later += tr.amt(t, (int)j, sp, "snow_redistribution", l.out) / r; }
                double cap = par(s, sp, "water_holding_capacity", 0.1) * (tr.content[t][n] + later);
                // Refreezing turns held water into snow after the drainage, which only adds capacity.
                c.count("holding checks");
                if (tr.content[t][w] > 0) c.count("wet snowpacks");
                if (tr.content[t][w] > cap + 1e-6 + 1e-6 * cap + splitTol(s, (int)j, t))
                    c.fail("holding", fmt("unit #%zu %s step %d: holds %.12g of water, capacity %.12g ", j, sp.c_str(), t, tr.content[t][w], cap) + c.sample);
            }
    }
    c.signature = s.shortSig() + fmt("/%d%s", s.stepN, s.stepUnit.c_str());
}

Check mon::GetCheck() { return {"M02", 40000, 200000, run, "distinct snow/ice process combination, structure and time step with every law of every step evaluated"}; }
