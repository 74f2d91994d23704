// Bounds: finite values, no negative content or flux, no store above its capacity, over hostile runs.
#include "gen.h"
using namespace mon;
using namespace gen;

static void run(Ctx& c) {
    Opts o;
    o.allowChanges = true;
    o.allowSubdaily = true; o.extremeShares = true;
    o.anyOrder = true;
    o.maxSteps = c.thorough ? 700 : 200;
    o.allowCorrection = true;
    o.allowExchange = true;
    Spec s = randomSpec(c.rng, o);
    // Hostile forcing: cloudbursts after droughts, huge demand, sharp freezing.
    int style = c.rng.i(0, 4);
    if (style > 0) {
        auto& P = s.forcing["precipitation"];
        auto& E = s.forcing["pet"];
        for (int t = 0; t < P.rows(); ++t) {
            double f = style == 1 ? (c.rng.p(0.05) ? c.rng.uni(2, 12) : 1) : style == 2 ? (c.rng.p(0.15) ? c.rng.uni(20, 90) : 0) : 1;
            for (int j = 0; j < P.cols(); ++j) {
                P(t, j) = style == 2 ? f * c.rng.uni(0.5, 1.5) : std::min(P(t, j) * f, 250.0);
                if (style == 3) E(t, j) = c.rng.p(0.3) ? 0 : c.rng.uni(0, 40);
                if (style == 4) P(t, j) = c.rng.p(0.5) ? 1e-9 * c.rng.u() : P(t, j);
            }
        }
        if (s.snow && style == 3) {
            auto& T = s.forcing["temperature"];
            for (int t = 0; t < T.rows(); ++t) for (int j = 0; j < T.cols(); ++j) if (c.rng.p(0.2)) T(t, j) = c.rng.uni(-40, 30);
        }
    }
    // Tiny capacities.
    if (c.rng.p(0.25)) for (auto& p : s.pars) if (p.name == "capacity" && p.component != "production_store" && c.rng.p(0.5)) p.value = (float)c.rng.logu(0.5, 20);
    c.sample = s.describe();
    auto b = buildModel(s);
    std::map<std::string, double> cap;
    for (auto& p : s.pars) if (p.name == "capacity") cap[p.component] = p.value;
    b->model->Reset();
    runModel(*b);
    Outputs out = collect(*b->model);
    auto isStoreCap = [&](const std::string& lb, double& v) {
        if (!lb.ends_with(":water_content")) return false;
        std::string br = lb.substr(0, lb.size() - 14);
        if (br.ends_with("_canopy")) return false;
        if (s.fam == CHAIN) { bool ok = false; for (auto& x : s.chain) if (x.name == br && x.capacity > 0) ok = true; if (!ok) return false; }
        auto it = cap.find(br);
        if (it == cap.end()) return false;
        v = it->second;
        return true;
    };
    auto brickOf = [](const std::string& lb) { return lb.substr(0, lb.find(':')); };
    bool gr6 = s.fam == GR6J;
    auto check = [&](const std::string& lb, double v, int t, int j, bool may) {
        c.count("values");
        if (!std::isfinite(v)) { if (!(may && std::isnan(v))) c.fail("nonfinite:" + lb, fmt("%s = %g at step %d unit #%d ", lb.c_str(), v, t, j) + c.sample); return; }
        if (v == 0) c.count("zero values");
        // The exponential store of GR6J is bottomless: its container and the water it holds may be negative.
        if (gr6 && lb.starts_with("uh_input:") && (lb.ends_with("water_content") || lb.ends_with("internal_storage"))) return;
        if (v < (lb.ends_with("internal_storage") ? -1e-9 : 0.0))
            c.fail("negative:" + lb, fmt("%s = %.17g at step %d unit #%d ", lb.c_str(), v, t, j) + c.sample);
        double cp;
        if (isStoreCap(lb, cp)) {
            c.count("capacity checks");
            if (v >= cp * (1 - 1e-9)) c.count("full stores");
            if (v > cp + 1e-6 * (1 + cp)) c.fail("over-capacity:" + std::string(s.fam == CHAIN ? "chain" : lb), fmt("%s = %.12g > capacity %.12g at step %d unit #%d ", lb.c_str(), v, cp, t, j) + c.sample);
        }
    };
    for (int t = 0; t < s.nsteps; ++t) {
        for (size_t k = 0; k < out.sb.size(); ++k) check(out.sbLabels[k], out.sb[k][t], t, -1, false);
        for (size_t k = 0; k < out.hu.size(); ++k)
            for (int j = 0; j < out.hu[k].cols(); ++j) {
                // A label a unit's structure does not have stays missing (glacier variants).
                bool may = s.multi && out.hu[k].col(j).isNaN().all();
                check(out.hu.size() ? out.huLabels[k] : "", out.hu[k](t, j), t, j, may);
            }
        for (size_t k = 0; k < out.fr.size(); ++k)
            for (int j = 0; j < out.fr[k].cols(); ++j) {
                double f = out.fr[k](t, j);
                if (std::isnan(f)) continue;
                if (f < 0 || f > 1 + 1e-9) c.fail("fraction", fmt("fraction %s=%g", out.frLabels[k].c_str(), f) + c.sample);
            }
    }
    c.count("runs");
    // The core reports when it had to reset a negative content: that also is a violated bound. The sweeps of the
    // constraints stop at 1e-8 or so: residuals of that order are round-off.
    const std::string& lg = capturedLog();
    for (size_t p = lg.find("has negative content ("); p != std::string::npos; p = lg.find("has negative content (", p + 1)) {
        if (std::atof(lg.c_str() + p + 22) > -1e-6) { c.count("round-off resets"); continue; }
        bool uh = p >= 8 && lg.compare(p - 9, 8, "uh_input") == 0;
        c.fail(uh && s.fam == GR4J && !s.discrete ? "negative-reset:gr4j-solver-based-with-exchange" : "negative-reset", lg.substr(p > 60 ? p - 60 : 0, 300) + c.sample);
    }
    if (lg.find("Negative rate") != std::string::npos) c.fail("negative-rate", lg.substr(0, 300) + c.sample);
    if (capturedLog().find("did not stabilize") != std::string::npos) c.count("constraint sweeps not stabilized");
    c.signature = s.shortSig() + fmt("/style%d", style);
}

Check mon::GetCheck() { return {"W03", 24000, 80000, run, "distinct structure/solver/process combination and forcing style, run to the end with all values inspected"}; }
