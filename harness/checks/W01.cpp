// Run-level water balance: precipitation = discharge + ET + change of every storage, over random models.
#include "gen.h"
using namespace mon;
using namespace gen;

static void run(Ctx& c) {
    Opts o;
    o.allowSubdaily = true; o.extremeShares = true;
    o.anyOrder = true;
    o.maxSteps = c.thorough ? 900 : 250;
    o.maxUnits = c.thorough ? 8 : 4;
    Spec s = randomSpec(c.rng, o);
    // Ice leaves with a shrinking glacier cover (W04, G01): changes only between covers that hold what their snow and soil can.
    if (c.rng.p(0.4) && std::find(s.ctypes.begin(), s.ctypes.end(), "glacier") == s.ctypes.end()) randomChanges(c.rng, s);
    c.sample = s.describe();
    auto b = buildModel(s);
    ModelHydro& m = *b->model;
    double area = 0, qAll = 0;
    for (auto& u : s.units) area += u.area;
    int runs = c.rng.p(0.4) ? c.rng.i(2, 3) : 1;
    for (int run = 0; run < runs; ++run) {
        std::string what = fmt("run %d", run + 1);
        if (run) {  // again from the initial state, or on from the end of the former run, with the same or new forcing
            if (s.changes.empty() && c.rng.p(0.6)) m.SaveAsInitialState(), what += " from the saved state", c.count("runs from a saved state");
            if (c.rng.p(0.7)) { randomForcing(c.rng, s); m.ClearTimeSeries(); attachForcing(m, s); }
        }
        m.Reset();
        double st0 = totalStorage(m);
        runModel(*b);
        double st1 = totalStorage(m);
        double in = 0;
        for (size_t j = 0; j < s.units.size(); ++j)
            for (int t = 0; t < s.nsteps; ++t) in += s.forcing["precipitation"](s.dataBefore + t, j) * s.units[j].area / area;
        double iceMelt = 0;
        double q = m.GetTotalOutletDischarge(), et = m.GetTotalET();
        double dw = m.GetTotalWaterStorageChanges(), ds = m.GetTotalSnowStorageChanges(), dg = s.infGl ? 0 : m.GetTotalGlacierStorageChanges();
        qAll += q;
        if (s.infGl) {
            // Infinite ice supplies melt water: measured as the recorded melt of the glacier covers.
            Logger* l = m.GetLogger();
            for (size_t k = 0; k < l->GetHydroUnitLabels().size(); ++k) {
                const std::string& lb = l->GetHydroUnitLabels()[k];
                for (size_t cc = 0; cc < s.covers.size(); ++cc) {
                    if (s.ctypes[cc] != "glacier" || lb != s.covers[cc] + ":melt:output") continue;
                    for (size_t j = 0; j < s.units.size(); ++j)
                        for (int t = 0; t < s.nsteps; ++t) {
                            double v = l->GetHydroUnitValues()[k](t, j);
                            if (!std::isnan(v)) iceMelt += v;  // already weighted by cover and unit area (sub-basin target)
                        }
                }
            }
        }
        double resid = in + iceMelt - q - et - dw - ds - dg;
        c.count("runs");
        c.count("steps", s.nsteps);
        double tol = 1e-6 * (1 + in + std::fabs(dg) + iceMelt);
        if (!(std::fabs(resid) <= tol))
            c.fail("balance:" + std::string(s.fam == SOCONT ? "socont" : s.fam == HBV ? "hbv" : s.fam == CHAIN ? "chain" : "gr"),
                   fmt("%s: P=%.9g icemelt=%.9g Q=%.9g ET=%.9g dW=%.9g dS=%.9g dG=%.9g residual=%.9g (own dStorage=%.9g) ", what.c_str(), in, iceMelt, q, et, dw, ds, dg, resid, st1 - st0) + c.sample);
        if (s.spinup == 0 && !(std::fabs(st1 - st0 - dw - ds - dg) <= tol))
            c.fail("storage-report", fmt("%s: own %.9g reported %.9g ", what.c_str(), st1 - st0, dw + ds + dg) + c.sample);
    }
    // The totals of a recorded item, against a sum of the series.
    Logger* l = m.GetLogger();
    auto& ul = l->GetHydroUnitLabels();
    auto& sl = l->GetSubBasinLabels();
    for (int k = 0; k < 3; ++k) {
        std::string item = k == 0 && !sl.empty() ? c.rng.pick(sl) : !ul.empty() ? c.rng.pick(ul) : "outlet";
        if (k == 2 && item.find(':') != std::string::npos) item = c.rng.p(0.5) ? item.substr(item.find(':') + 1) : item.substr(0, item.find(':'));
        if (item.find(":content") != std::string::npos || item == "content") continue;
        double own = 0, weighted = 0, plain = 0, mag = 0;
        for (size_t i = 0; i < sl.size(); ++i) if (sl[i].find(item) != std::string::npos)
            for (int t = 0; t < s.nsteps; ++t) own += l->GetSubBasinValues()[i][t], mag += std::fabs(l->GetSubBasinValues()[i][t]);
        for (size_t i = 0; i < ul.size(); ++i) if (ul[i].find(item) != std::string::npos)
            for (size_t j = 0; j < s.units.size(); ++j)
                for (int t = 0; t < s.nsteps; ++t) {
                    double v = l->GetHydroUnitValues()[i](t, (int)j);
                    if (!std::isnan(v)) weighted += v * s.units[j].area / area, plain += v, mag += std::fabs(v);
                }
        double g1 = l->GetTotalSubBasin(item), g2 = l->GetTotalHydroUnits(item, true), g3 = l->GetTotalHydroUnits(item, false);
        if (std::isinf(mag)) continue;  // unlimited ice
        if (!close(g1, own, 1e-9 * (1 + mag), 1e-9) || !close(g2, weighted, 1e-9 * (1 + mag), 1e-9) || !close(g3, plain, 1e-9 * (1 + mag), 1e-9))
            c.fail("item-total", fmt("totals of '%s': %.12g, %.12g, %.12g reported, but the series sum to %.12g, %.12g, %.12g ", item.c_str(), g1, g2, g3, own, weighted, plain) + c.sample);
        c.count("totals of items");
    }
    if (!s.changes.empty()) c.count("with land cover changes");
    double q = qAll;
    if (q > 0) c.signature = s.shortSig();
}

Check mon::GetCheck() { return {"W01", 24000, 60000, run, "random"}; }
