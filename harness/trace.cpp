#include "trace.h"

#include <algorithm>

namespace gen {
using mon::fmt;

double par(const Spec& s, const std::string& c, const std::string& n, double d) {
    double v = (float)d;
    for (auto& p : s.pars) if (p.component == c && p.name == n) v = p.value;
    return v;
}
double forcingAt(const Spec& s, const std::string& name, int u, int t) { return s.forcing.at(name)(s.dataBefore + t, u); }

void rainSnow(const Spec& s, int u, int t, double& rain, double& snow) {
    double p = forcingAt(s, "precipitation", u, t);
    if (!s.snow) { rain = p * par(s, "rain", "rain_correction_factor", 1); snow = 0; return; }
    const std::string c = "snow_rain_transition";
    double f;
    if (s.split == "snow_rain:linear") {
        double a = par(s, c, "transition_start", 0), b = par(s, c, "transition_end", 2), T = forcingAt(s, "temperature", u, t);
        f = T <= a ? 1 : T >= b ? 0 : (b - T) / (b - a);
    } else if (s.split == "snow_rain:threshold") {
        f = forcingAt(s, "temperature", u, t) <= par(s, c, "threshold", 0) ? 1 : 0;
    } else if (s.units[u].elev >= 1500) {
        f = std::clamp((3.0 - forcingAt(s, "temperature", u, t)) / 4.0, 0.0, 1.0);
    } else {
        double mn = forcingAt(s, "temperature_min", u, t), mx = forcingAt(s, "temperature_max", u, t);
        f = mx <= 0 ? 1 : mn >= 0 ? 0 : 1 - mx / (mx - mn);
    }
    rain = p * (1 - f) * par(s, c, "rain_correction_factor", 1);
    snow = p * f * par(s, c, "snow_correction_factor", 1);
}

double splitTol(const Spec& s, int u, int t) {
    if (!s.snow || s.split != "snow_rain:linear") return 0;
    const std::string c = "snow_rain_transition";
    double a = par(s, c, "transition_start", 0), b = par(s, c, "transition_end", 2);
    return 2 * forcingAt(s, "precipitation", u, t) * 1.2e-7 * (1 + std::fabs(a) + std::fabs(b)) / (b - a);
}

bool isCoverOrSurface(const Spec& s, const std::string& b) { return coverOf(s, b) >= 0; }
int coverOf(const Spec& s, const std::string& b) {
    for (size_t c = 0; c < s.covers.size(); ++c)
        if (b == s.covers[c] || b == s.covers[c] + "_snowpack" || b == s.covers[c] + "_canopy") return (int)c;
    return -1;
}
std::string rainTarget(const Spec& s, int cover) {
    for (int c : s.canopy) if (c == cover) return s.covers[c] + "_canopy";
    if (s.snow && s.retention && s.rainToSnow) return s.covers[cover] + "_snowpack";
    return s.covers[cover];
}

std::vector<TProc> declaredUnit(const Spec& s) {
    std::vector<TProc> v;
    auto W = ContentType::Water; auto S = ContentType::Snow; auto I = ContentType::Ice;
    TTarget atm{"atmosphere", W}, out{"outlet", W};
    for (int c : s.canopy) {
        std::string cn = s.covers[c] + "_canopy";
        v.push_back({cn, "throughfall", "outflow:threshold", W, {{s.snow && s.rainToSnow ? s.covers[c] + "_snowpack" : s.covers[c], W}}});
        v.push_back({cn, "interception_et", "et:open_water", W, {atm}});
    }
    for (size_t c = 0; c < s.covers.size(); ++c) {
        if (!s.snow) break;
        std::string sp = s.covers[c] + "_snowpack";
        bool gl = s.ctypes[c] == "glacier";
        if (s.retention) {
            v.push_back({sp, "melt", s.melt, S, {{sp, W, true}}});
            v.push_back({sp, "meltwater", "outflow:snow_holding", W, {{s.covers[c], W}}});
            if (s.refreeze) v.push_back({sp, "refreeze", "refreeze:degree_day", W, {{sp, S, true}}});
        } else v.push_back({sp, "melt", s.melt, S, {{s.covers[c], W}}});
        if (!s.iceT.empty() && gl) v.push_back({sp, "snow_ice_transfo", s.iceT, S, {{s.covers[c], I}}});
        if (!s.redist.empty() && !(gl && s.skipGl)) v.push_back({sp, "snow_redistribution", s.redist, S, {{"lateral", S, true}}});
        if (!s.subl.empty()) v.push_back({sp, "sublimation", s.subl, S, {atm}});
    }
    if (s.snowSeep) for (auto& c : s.covers) v.push_back({c + "_snowpack", "seep", "percolation:constant", W, {{s.head, W}}});
    for (size_t c = 0; c < s.covers.size(); ++c) {
        if (s.ctypes[c] != "glacier") continue;
        v.push_back({s.covers[c], "outflow_rain_snowmelt", "outflow:direct", W, {{"glacier_area_rain_snowmelt_storage", W, true}}});
        v.push_back({s.covers[c], "melt", s.melt == "melt:cemaneige" ? "melt:degree_day" : s.melt, I, {{"glacier_area_icemelt_storage", W, true}}});
    }
    const std::string g = s.covers[0];
    auto P = [&](const std::string& b, const std::string& n, const std::string& t, const std::string& to, bool inst = false) {
        v.push_back({b, n, t, W, {to == "atmosphere" ? atm : to == "outlet" ? out : TTarget{to, W, inst}}});
    };
    if (s.fam == SOCONT) {
        P(g, "infiltration", "infiltration:socont", "slow_reservoir");
        P(g, "runoff", "outflow:rest", "surface_runoff");
        P("slow_reservoir", "et", "et:socont", "atmosphere");
        P("slow_reservoir", "outflow", "outflow:linear", "outlet");
        if (s.soilNb == 2) P("slow_reservoir", "percolation", "percolation:constant", "slow_reservoir_2");
        P("slow_reservoir", "overflow", "overflow", "outlet");
        if (s.soilNb == 2) P("slow_reservoir_2", "outflow", "outflow:linear", "outlet");
        if (s.runoff == "socont_runoff") P("surface_runoff", "runoff", "runoff:socont", "outlet");
        else P("surface_runoff", "outflow", "outflow:linear", "outlet");
    } else if (s.fam == GR4J || s.fam == GR6J) {
        P(g, "interception", "interception:gr4j", "atmosphere");
        P(g, "throughfall", "outflow:rest", s.discrete ? "production_store" : "ground_soil", true);
        if (!s.discrete) {
            P("ground_soil", "production", "infiltration:gr4j", "production_store");
            P("ground_soil", "runoff", "outflow:rest", "uh_input");
        }
        if (s.discrete) P("production_store", "production", "production:gr4j", "uh_input");
        else P("production_store", "percolation", "percolation:gr4j", "uh_input");
        P("production_store", "et", "et:gr4j", "atmosphere");
        P("uh_input", "routing", s.fam == GR4J ? "routing:gr4j" : "routing:gr6j", "outlet");
    } else if (s.fam == HBV) {
        std::vector<size_t> soil;
        for (size_t c = 0; c < s.covers.size(); ++c) if (s.ctypes[c] != "glacier") soil.push_back(c);
        bool sh = s.sharedSoil || soil.size() == 1;
        auto soilName = [&](size_t c) { return sh ? std::string("soil_moisture") : s.covers[c] + "_soil_moisture"; };
        for (size_t c : soil) {
            P(s.covers[c], "infiltration", "infiltration:hbv", soilName(c));
            P(s.covers[c], "recharge", "outflow:rest", "upper_zone");
        }
        TProc cap{"upper_zone", "capillary", "capillary:hbv", W, {{soilName(soil[0]), W}}};
        if (!sh) for (size_t k = 1; k < soil.size(); ++k) cap.to.push_back({soilName(soil[k]), W});
        v.push_back(cap);
        P("upper_zone", "percolation", "percolation:constant", "lower_zone");
        P("upper_zone", "runoff", s.upperLinear ? "outflow:linear" : "runoff:hbv", "routing");
        P("lower_zone", "outflow", "outflow:linear", "routing");
        for (size_t k = 0; k < soil.size(); ++k) {
            if (sh && k > 0) continue;
            P(soilName(soil[k]), "et", "et:hbv", "atmosphere");
            P(soilName(soil[k]), "overflow", "overflow", "routing");
        }
        P("routing", "routing", "routing:hbv", "outlet");
    } else {
        for (size_t c = 0; c < s.covers.size(); ++c)
            for (auto& p : s.procsOf(c)) P(s.covers[c], p.name, p.type, p.target.empty() ? "atmosphere" : p.target);
        for (auto& b : s.chain) {
            if (b.subBasin) continue;
            for (auto& p : b.procs) P(b.name, p.name, p.type, p.target.empty() ? "atmosphere" : p.target, p.inst);
        }
    }
    return v;
}

std::vector<TProc> declaredSubBasin(const Spec& s) {
    std::vector<TProc> v;
    auto W = ContentType::Water;
    for (auto& t : s.ctypes)
        if (t == "glacier") {
            v.push_back({"glacier_area_rain_snowmelt_storage", "outflow", "outflow:linear", W, {{"outlet", W}}});
            v.push_back({"glacier_area_icemelt_storage", "outflow", "outflow:linear", W, {{"outlet", W}}});
            break;
        }
    if (s.fam == CHAIN)
        for (auto& b : s.chain) {
            if (!b.subBasin) continue;
            for (auto& p : b.procs) v.push_back({b.name, p.name, p.type, W, {{p.target.empty() ? "atmosphere" : p.target, W}}});
        }
    return v;
}

static std::string key(int u, const std::string& a, const std::string& b, int k) { return fmt("%d|%s|%s|%d", u, a.c_str(), b.c_str(), k); }

int Trace::store(int u, const std::string& b, ContentType t) const {
    auto it = stIdx.find(key(u, b, "", (int)t));
    return it == stIdx.end() ? -1 : it->second;
}
int Trace::flux(int u, const std::string& b, const std::string& p, int o) const {
    auto it = prIdx.find(key(u, b, p, o));
    return it == prIdx.end() ? -1 : it->second;
}

double Trace::f(int t, int u, int c) const {
    if (s->changes.empty() && !s->glacierAction) return s->units[u].frac[c];
    double v = frac[t][u * s->covers.size() + c];
    return std::isnan(v) ? 0 : v;
}

void Trace::attach(ModelHydro& model, const Spec& spec) {
    s = &spec; m = &model;
    st = stores(model);
    std::map<int, int> pos;
    for (size_t j = 0; j < spec.units.size(); ++j) pos[spec.units[j].id] = (int)j;
    for (size_t i = 0; i < st.size(); ++i) stIdx[key(st[i].unit ? pos.at(st[i].unit->GetId()) : -1, st[i].name, "", (int)st[i].type)] = (int)i;
    std::set<Brick*> seen;
    for (auto& x : st) {
        if (!seen.insert(x.brick).second) continue;
        int u = x.unit ? pos.at(x.unit->GetId()) : -1;
        for (int k = 0; k < x.brick->GetProcessCount(); ++k) {
            Process* p = x.brick->GetProcess(k);
            for (int o = 0; o < p->GetOutputFluxCount(); ++o) {
                prIdx[key(u, x.name, p->GetName(), o)] = (int)pr.size();
                pr.push_back({u, x.name, p->GetName(), o, p->GetOutputFlux(o)});
            }
        }
    }
    auto snap = [this] {
        std::vector<double> v(st.size());
        for (size_t i = 0; i < st.size(); ++i) v[i] = st[i].brick->GetContent(st[i].type);
        return v;
    };
    init = snap();
    mon::onEvent() = [this, snap, pos](const char* e, ModelHydro* mm) {
        if (mm != m) return;
        if (std::string(e) == "spinup") { ++spin; init = snap(); return; }
        if (std::string(e) == "begin") { begun.push_back(snap()); return; }
        content.push_back(snap());
        std::vector<double> a(pr.size());
        for (size_t i = 0; i < pr.size(); ++i) a[i] = *pr[i].flux->GetAmountPointer();
        amount.push_back(a);
        std::vector<double> f(s->units.size() * s->covers.size(), std::nan(""));
        for (auto& x : st)
            if (auto lc = dynamic_cast<LandCover*>(x.brick))
                for (size_t c = 0; c < s->covers.size(); ++c)
                    if (s->covers[c] == x.name) f[pos.at(x.unit->GetId()) * s->covers.size() + c] = lc->GetAreaFraction();
        frac.push_back(f);
        q.push_back(*m->GetSubBasin()->GetValuePointer("outlet"));
    };
}

Topo::Topo(const Spec& sp_, const Trace& t) : s(&sp_), tr(&t), up(declaredUnit(sp_)), sp(declaredSubBasin(sp_)) {
    for (auto& u : s->units) area += u.area;
    if (!s->redist.empty()) {
        std::map<int, int> pos;
        for (size_t j = 0; j < s->units.size(); ++j) pos[s->units[j].id] = (int)j;
        std::map<int, int> nOut;
        for (auto& l : s->lats) {
            int g = pos[l.giver], r = pos[l.receiver];
            for (size_t rc = 0; rc < s->covers.size(); ++rc) {
                if (t.store(r, s->covers[rc] + "_snowpack", ContentType::Snow) < 0) continue;  // structure without that cover
                int o = nOut[g]++;
                for (size_t c = 0; c < s->covers.size(); ++c) {
                    if (s->ctypes[c] == "glacier" && s->skipGl) continue;
                    if (t.store(g, s->covers[c] + "_snowpack", ContentType::Snow) < 0) continue;
                    lats.push_back({g, (int)c, o, r, (int)rc, l.fraction});
                }
            }
        }
    }
}

double Topo::weight(int t, int u, const TProc& p, const TTarget& g) const {
    double w = 1;
    if (g.name == "atmosphere") return 1;
    int c = u >= 0 ? coverOf(*s, p.brick) : -1;
    if (c >= 0 && coverOf(*s, g.name) < 0) w *= tr->f(t, u, c);
    bool sub = g.name == "outlet";
    if (!sub) for (auto& q : sp) sub |= q.brick == g.name;
    if (u >= 0 && sub) w *= s->units[u].area / area;
    return w;
}

double Topo::released(int t, int u, const TProc& p, int o) const {
    int i = tr->flux(u, p.brick, p.proc, o);
    if (i < 0) return 0;
    double w = weight(t, u, p, p.to[o]);
    int c = u >= 0 ? coverOf(*s, p.brick) : -1;
    if (c >= 0 && tr->f(t, u, c) <= 1e-8) return 0;
    return w > 0 ? tr->amount[t][i] / w : 0;
}

double Topo::ratio(int t, const Lat& l) const {
    double d = s->units[l.receiver].area * tr->f(t, l.receiver, l.rcover);
    return d > 0 ? s->units[l.giver].area * tr->f(t, l.giver, l.cover) / d : 0;
}

Budget Topo::budget(int t, int k) const {
    const StoreRef& x = tr->st[k];
    int u = -1;
    if (x.unit) for (size_t j = 0; j < s->units.size(); ++j) if (s->units[j].id == x.unit->GetId()) u = (int)j;
    Budget b;
    auto handle = [&](int su, const TProc& p) {
        for (size_t o = 0; o < p.to.size(); ++o) {
            if (p.to[o].name == "lateral") continue;
            int i = tr->flux(su, p.brick, p.proc, (int)o);
            if (i < 0) continue;
            int c = su >= 0 ? coverOf(*s, p.brick) : -1;
            if (c >= 0 && tr->f(t, su, c) <= 1e-8) continue;
            if (p.to[o].name == x.name && p.to[o].type == x.type) b.in += tr->amount[t][i];
            if (su == u && p.brick == x.name && p.from == x.type) b.out += released(t, su, p, (int)o);
        }
    };
    if (u >= 0) {
        for (auto& p : up) if (p.brick == x.name || std::any_of(p.to.begin(), p.to.end(), [&](const TTarget& g) { return g.name == x.name; })) handle(u, p);
        for (auto& l : lats) {
            std::string gb = s->covers[l.cover] + "_snowpack", rb = s->covers[l.rcover] + "_snowpack";
            if (x.type != ContentType::Snow) continue;
            if (tr->f(t, l.giver, l.cover) <= 1e-8 || tr->f(t, l.receiver, l.rcover) <= 1e-8) continue;
            if (l.receiver == u && rb == x.name) b.in += tr->amt(t, l.giver, gb, "snow_redistribution", l.out);
            if (l.giver == u && gb == x.name) b.out += tr->amt(t, l.giver, gb, "snow_redistribution", l.out) / ratio(t, l);
        }
        int c = coverOf(*s, x.name);
        if (c >= 0 && tr->f(t, u, c) > 1e-8) {
            double rain, snow;
            rainSnow(*s, u, t, rain, snow);
            if (x.type == ContentType::Snow && x.name == s->covers[c] + "_snowpack") b.forcing += snow;
            if (x.type == ContentType::Water && x.name == rainTarget(*s, c)) b.forcing += rain;
        }
    } else {
        for (size_t j = 0; j < s->units.size(); ++j)
            for (auto& p : up) if (std::any_of(p.to.begin(), p.to.end(), [&](const TTarget& g) { return g.name == x.name; })) handle((int)j, p);
        for (auto& p : sp) handle(-1, p);
    }
    return b;
}

}  // namespace gen
