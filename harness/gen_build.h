// The calls that build the settings of a specification, on the real settings or on a recorder of calls.
#pragma once
#include <algorithm>
#include <stdexcept>

#include "gen.h"

namespace gen::tpl {

// Some process types have two names, which stand for the same process.
inline std::string named(const Spec& s, const std::string& type) {
    if (!s.otherNames) return type;
    if (type == "overflow") return "outflow:overflow";
    if (type == "percolation:constant") return "outflow:percolation";
    if (type.starts_with("transformation:")) return "transform:" + type.substr(15);
    return type;
}

template <class S> void buildStructure(S& sm, const Spec& s, const std::vector<int>& glaciers, bool subBasinBricks) {
    std::vector<size_t> cov;
    bool anyGl = false;
    for (size_t c = 0; c < s.covers.size(); ++c) {
        if (s.ctypes[c] == "glacier") { anyGl = true; if (std::find(glaciers.begin(), glaciers.end(), (int)c) == glaciers.end()) continue; }
        cov.push_back(c);
    }
    sm.GeneratePrecipitationSplitters(s.snow, s.split);
    for (size_t c : cov) sm.AddLandCoverBrick(s.covers[c], s.ctypes[c]);
    for (int c : s.canopy) sm.GenerateCanopyInterception(s.covers[c], s.snow && s.rainToSnow ? s.covers[c] + "_snowpack" : s.covers[c]);
    if (s.snow) {
        if (s.retention) {
            sm.GenerateSnowpacksWithWaterRetention(s.melt, "outflow:snow_holding", s.rainToSnow);
            if (s.refreeze) sm.AddSnowpackRefreezing("refreeze:degree_day");
        } else {
            sm.GenerateSnowpacks(s.melt);
        }
        if (!s.iceT.empty()) sm.AddSnowIceTransformation(named(s, s.iceT));
        if (!s.redist.empty()) sm.AddSnowRedistribution(s.redist, s.skipGl);
        if (!s.subl.empty()) sm.AddSnowpackSublimation(s.subl);
    }
    for (size_t c : cov) {
        if (s.ctypes[c] != "glacier") continue;
        sm.SelectHydroUnitBrick(s.covers[c]);
        sm.AddBrickProcess("outflow_rain_snowmelt", "outflow:direct", "glacier_area_rain_snowmelt_storage");
        sm.SetProcessOutputsAsInstantaneous();
        sm.AddBrickParameter("no_melt_when_snow_cover", 1.0f);
        if (s.infGl) sm.AddBrickParameter("infinite_storage", 1.0f);
        else sm.AddBrickParameter("infinite_storage", 0.0f);
        sm.AddBrickProcess("melt", s.melt == "melt:cemaneige" ? "melt:degree_day" : s.melt, "glacier_area_icemelt_storage");
        sm.SetProcessOutputsAsInstantaneous();
    }
    if (anyGl && subBasinBricks) {
        sm.AddSubBasinBrick("glacier_area_rain_snowmelt_storage", "storage");
        sm.AddBrickProcess("outflow", "outflow:linear", "outlet");
        sm.AddSubBasinBrick("glacier_area_icemelt_storage", "storage");
        sm.AddBrickProcess("outflow", "outflow:linear", "outlet");
    }
    const std::string g = s.covers[0];
    if (s.fam == SOCONT) {
        sm.SelectHydroUnitBrick(g);
        sm.AddBrickProcess("infiltration", "infiltration:socont", "slow_reservoir");
        sm.AddBrickProcess("runoff", "outflow:rest", "surface_runoff");
        sm.AddHydroUnitBrick("slow_reservoir", "storage");
        sm.AddBrickParameter("capacity", 200.0f);
        sm.AddBrickProcess("et", "et:socont");
        sm.AddBrickProcess("outflow", "outflow:linear", "outlet");
        if (s.soilNb == 2) sm.AddBrickProcess("percolation", named(s, "percolation:constant"), "slow_reservoir_2");
        sm.AddBrickProcess("overflow", named(s, "overflow"), "outlet");
        if (s.soilNb == 2) {
            sm.AddHydroUnitBrick("slow_reservoir_2", "storage");
            sm.AddBrickProcess("outflow", "outflow:linear", "outlet");
        }
        sm.AddHydroUnitBrick("surface_runoff", "storage");
        if (s.runoff == "socont_runoff") sm.AddBrickProcess("runoff", "runoff:socont", "outlet");
        else sm.AddBrickProcess("outflow", "outflow:linear", "outlet");
    } else if (s.fam == GR4J || s.fam == GR6J) {
        sm.SelectHydroUnitBrick(g);
        sm.AddBrickProcess("interception", "interception:gr4j");
        sm.AddBrickProcess("throughfall", "outflow:rest", s.discrete ? "production_store" : "ground_soil");
        sm.SetProcessOutputsAsInstantaneous();
        if (!s.discrete) {
            sm.AddHydroUnitBrick("ground_soil", "storage");
            sm.AddBrickProcess("production", "infiltration:gr4j", "production_store");
            sm.AddBrickProcess("runoff", "outflow:rest", "uh_input");
        }
        sm.AddHydroUnitBrick("production_store", "storage");
        sm.AddBrickParameter("capacity", 350.0f);
        if (s.discrete) sm.AddBrickProcess("production", "production:gr4j", "uh_input");
        else sm.AddBrickProcess("percolation", "percolation:gr4j", "uh_input");
        sm.AddBrickProcess("et", "et:gr4j");
        if (s.discrete) sm.SetCurrentBrickComputedDirectly();
        sm.AddHydroUnitBrick("uh_input", "storage");
        sm.AddBrickProcess("routing", s.fam == GR4J ? "routing:gr4j" : "routing:gr6j", "outlet");
        if (s.discrete) sm.SetCurrentBrickComputedDirectly();
    } else if (s.fam == HBV) {
        std::vector<size_t> soil;
        for (size_t c = 0; c < s.covers.size(); ++c) if (s.ctypes[c] != "glacier") soil.push_back(c);
        bool sh = s.sharedSoil || soil.size() == 1;
        auto soilName = [&](size_t c) { return sh ? std::string("soil_moisture") : s.covers[c] + "_soil_moisture"; };
        for (size_t c : soil) {
            sm.SelectHydroUnitBrick(s.covers[c]);
            sm.AddBrickProcess("infiltration", "infiltration:hbv", soilName(c));
            sm.AddBrickProcess("recharge", "outflow:rest", "upper_zone");
        }
        sm.AddHydroUnitBrick("upper_zone", "storage");
        sm.AddBrickProcess("capillary", "capillary:hbv", soilName(soil[0]));
        if (!sh) for (size_t k = 1; k < soil.size(); ++k) sm.AddProcessOutput(soilName(soil[k]));
        sm.AddBrickProcess("percolation", named(s, "percolation:constant"), "lower_zone");
        sm.AddBrickProcess("runoff", s.upperLinear ? "outflow:linear" : "runoff:hbv", "routing");
        sm.AddHydroUnitBrick("lower_zone", "storage");
        sm.AddBrickProcess("outflow", "outflow:linear", "routing");
        for (size_t k = 0; k < soil.size(); ++k) {
            if (sh && k > 0) continue;
            sm.AddHydroUnitBrick(soilName(soil[k]), "storage");
            sm.AddBrickParameter("capacity", 250.0f);
            sm.AddBrickProcess("et", "et:hbv");
            sm.AddBrickProcess("overflow", named(s, "overflow"), "routing");
        }
        sm.AddHydroUnitBrick("routing", "storage");
        sm.AddBrickProcess("routing", "routing:hbv", "outlet");
    } else {
        for (size_t c : cov) {
            sm.SelectHydroUnitBrick(s.covers[c]);
            for (auto& p : s.procsOf(c)) sm.AddBrickProcess(p.name, named(s, p.type), p.target);
            if (s.snowSeep) { sm.SelectHydroUnitBrick(s.covers[c] + "_snowpack"); sm.AddBrickProcess("seep", named(s, "percolation:constant"), s.head); }
        }
        for (auto& b : s.chain) {
            if (b.subBasin) { if (!subBasinBricks) continue; sm.AddSubBasinBrick(b.name, "storage"); }
            else sm.AddHydroUnitBrick(b.name, "storage");
            if (b.capacity > 0) sm.AddBrickParameter("capacity", b.capacity);
            for (auto& p : b.procs) {
                sm.AddBrickProcess(p.name, named(s, p.type), p.target);
                if (p.inst) sm.SetProcessOutputsAsInstantaneous();
            }
        }
    }
}

template <class S> void applyParams(S& sm, const std::vector<ParSpec>& pars) {
    for (auto& p : pars)
        if (!sm.SetParameterValue(p.component, p.name, p.value))
            throw std::runtime_error("harness: cannot set " + p.component + ":" + p.name);
}

template <class S> void buildSettings(S& sm, const Spec& s, bool withParams) {
    sm.SetSolver(s.solver);
    long d = civilToMjd(s.y0, s.m0, s.d0);
    sm.SetTimer(dateTimeStr(d, s.startMin), dateTimeStr(d, s.startMin + (s.nsteps - 1) * s.stepMinutes() + s.endExtraMin), s.stepN, s.stepUnit);
    if (s.spinup > 0) sm.SetSpinupDays(s.spinup);
    if (s.logAll) sm.SetLogAll(true);
    std::vector<int> gl;
    for (size_t c = 0; c < s.covers.size(); ++c) if (s.ctypes[c] == "glacier") gl.push_back((int)c);
    if (!gl.empty() && s.multi) {
        auto variants = s.variants;
        if (variants.empty()) variants = {{}, gl};
        for (size_t k = 0; k < variants.size(); ++k) {
            if (k > 0) sm.AddStructure();
            buildStructure(sm, s, variants[k], k == 0);
            if (k == 0) sm.AddLoggingToItem("outlet");
        }
        sm.SelectStructure(1);
    } else {
        buildStructure(sm, s, gl, true);
        sm.AddLoggingToItem("outlet");
    }
    if (withParams) applyParams(sm, s.pars);
}

template <class S> void buildBasin(S& sb, const Spec& s) {
    for (auto& u : s.units) {
        sb.AddHydroUnit(u.id, u.area, u.elev);
        static const char* slopeUnits[] = {"degrees", "degree", "deg", "°"};
        sb.AddHydroUnitPropertyDouble("slope", u.slopeDeg, slopeUnits[(unsigned)(u.id + (int)s.units.size()) % 7 % 4]);
        sb.AddHydroUnitPropertyDouble("elevation", u.elev, "m");
        sb.AddHydroUnitPropertyString("aspect_class", u.aspect);
        for (size_t c = 0; c < s.covers.size(); ++c) if (!s.omitZero || s.ctypes[c] != "glacier" || u.frac[c] > 0) sb.AddLandCover(s.covers[c], s.ctypes[c], u.frac[c]);
    }
    for (auto& l : s.lats) sb.AddLateralConnection(l.giver, l.receiver, l.fraction);
}

}  // namespace gen::tpl
