#include "laws.h"

#include <algorithm>

namespace gen {

double gr4jInfiltration(double S, double Pn, double X1) {
    double w = std::min(Pn / X1, 13.0), r = S / X1, th = std::tanh(w);
    return X1 * (1 - r * r) * th / (1 + r * th);
}
double gr4jEvaporation(double S, double En, double X1) {
    double w = std::min(En / X1, 13.0), r = S / X1, th = std::tanh(w);
    return S * (2 - r) * th / (1 + (1 - r) * th);
}
double gr4jPercolation(double S, double X1) {
    double r = S / X1;
    return S * (1 - std::pow(1 + std::pow(4.0 / 9.0 * r, 4), -0.25));
}

Laws::Laws(const Spec& s_, const Trace& tr_, const Topo& tp_) : s(s_), tr(tr_), tp(tp_), dt(s_.stepDays()) {
    for (auto& p : tp.up) byBrick_[p.brick].push_back(&p);
    for (int c : s.canopy) directOrder_.push_back(s.covers[c] + "_canopy");
    if (s.snow) for (auto& c : s.covers) directOrder_.push_back(c + "_snowpack");
    for (auto& c : s.covers) directOrder_.push_back(c);
}

double Laws::ddf(int u, const std::string& b, const std::string& melt) const {
    if (melt == "melt:degree_day_aspect") {
        const std::string& a = s.units[u].aspect;
        std::string n = a == "N" || a == "north" ? "degree_day_factor_n" : a == "S" || a == "south" ? "degree_day_factor_s" : "degree_day_factor_ew";
        return par(s, b, n, 3.0);
    }
    return par(s, b, "degree_day_factor", 3.0);
}

double Laws::meltLaw(int t, int u, const std::string& b, const std::string& type, double content, SnowMem* m) const {
    double T = forcingAt(s, "temperature", u, t), Tm = par(s, b, "melting_temperature", 0);
    if (type == "melt:cemaneige") {
        double ctg = par(s, b, "cold_content_factor", 0), cn = 0.9 * par(s, b, "mean_annual_snow", 100);
        m->cold = std::min(0.0, ctg * m->cold + (1 - ctg) * (T - Tm));
        if (m->cold < 0 || T <= Tm) return 0;
        double g = cn > 0 ? std::min(1.0, content / cn) : 1.0;
        return (0.9 * g + 0.1) * par(s, b, "degree_day_factor", 3.0) * (T - Tm);
    }
    if (T < Tm) return 0;
    if (type == "melt:temperature_index")
        return (T - Tm) * (par(s, b, "melt_factor", 3) + par(s, b, "radiation_coefficient", 0.0007) * forcingAt(s, "solar_radiation", u, t));
    return (T - Tm) * ddf(u, b, type);
}

// Runoff on an inclined plane of the size of the cover (or of the unit) [mm/d].
double Laws::socontRunoff(int u, const std::string& b, double content, double coverFraction) const {
    double h = 2 * std::max(0.0, content) / 1000;
    double q = par(s, b, "beta", 500) * std::sqrt(std::tan(s.units[u].slopeDeg * M_PI / 180)) * std::pow(h, 5.0 / 3.0) / (s.units[u].area * coverFraction);
    return std::min(q * 86400 * 1000, content);
}

double Laws::latIn(int t, int u, const std::string& b, bool earlier, bool later) const {
    double v = 0;
    for (auto& l : tp.lats) {
        if (l.receiver != u || s.covers[l.rcover] + "_snowpack" != b) continue;
        if (tr.f(t, l.giver, l.cover) <= 1e-8 || tr.f(t, l.receiver, l.rcover) <= 1e-8) continue;
        if (earlier && l.giver >= u) continue;
        if (later && l.giver < u) continue;
        v += tr.amt(t, l.giver, s.covers[l.cover] + "_snowpack", "snow_redistribution", l.out);
    }
    return v;
}

double Laws::inputs(int t, int u, const std::string& b, ContentType type) const {
    double v = 0;
    for (auto& p : tp.up)
        for (size_t o = 0; o < p.to.size(); ++o)
            if (p.to[o].name == b && p.to[o].type == type && p.brick != b) {
                int c = coverOf(s, p.brick);
                if (c >= 0 && tr.f(t, u, c) <= 1e-8) continue;
                v += tr.amt(t, u, p.brick, p.proc, (int)o);
            }
    return v;
}

double Laws::depositsOf(int t, int u, const std::string& b) const {
    double v = 0;
    auto each = [&](int su) {
        for (auto& p : tp.up)
            for (size_t o = 0; o < p.to.size(); ++o)
                if (p.to[o].name == b && p.to[o].inst) {
                    int c = coverOf(s, p.brick);
                    if (c >= 0 && tr.f(t, su, c) <= 1e-8) continue;
                    v += tr.amt(t, su, p.brick, p.proc, (int)o);
                }
    };
    if (u >= 0) each(u);
    else for (size_t j = 0; j < s.units.size(); ++j) each((int)j);
    return v;
}

void Laws::direct(int t, const std::function<void(const LawItem&)>& f) {
    for (int u = 0; u < (int)s.units.size(); ++u) {
        for (auto& b : directOrder_) {
            int c = coverOf(s, b);
            if (tr.f(t, u, c) <= 1e-8) continue;
            int kw = tr.store(u, b, ContentType::Water);
            if (kw < 0) continue;
            int ks = tr.store(u, b, ContentType::Snow), ki = tr.store(u, b, ContentType::Ice);
            double rain, snow;
            rainSnow(s, u, t, rain, snow);
            double X[3] = {0, 0, 0};
            double tol = splitTol(s, u, t);
            auto at = [&](ContentType ty) -> double& { return X[ty == ContentType::Water ? 0 : ty == ContentType::Snow ? 1 : 2]; };
            at(ContentType::Water) = tr.before(t, kw) + inputs(t, u, b, ContentType::Water) + (rainTarget(s, c) == b ? rain : 0);
            if (ks >= 0) at(ContentType::Snow) = tr.before(t, ks) + snow + latIn(t, u, b, true, false) + inputs(t, u, b, ContentType::Snow);
            if (ki >= 0) at(ContentType::Ice) = tr.before(t, ki) + inputs(t, u, b, ContentType::Ice);
            bool isSnowpack = ks >= 0;
            SnowMem* m = isSnowpack ? &mem[{u, b}] : nullptr;
            for (const TProc* p : byBrick_[b]) {
                double avail = at(p->from);
                bool inf = p->from == ContentType::Ice && s.infGl;
                double law = 0;
                bool exact = true;
                const std::string& ty = p->type;
                double W = at(ContentType::Water), S = at(ContentType::Snow);
                bool lateral = !p->to.empty() && p->to[0].name == "lateral";
                if (lateral) {
                    double slope = (float)s.units[u].slopeDeg;  // held in single precision
                    double excess = 0, rhoUsed = 250, rhoTol = 0;
                    if (ty == "transport:snow_slide") {
                        double minH = par(s, b, "min_snow_holding_depth", 50), maxD = par(s, b, "max_snow_depth", 20000);
                        double sl = std::max(slope, par(s, b, "min_slope", 10));
                        double lim = slope > par(s, b, "max_slope", 75) ? minH : par(s, b, "coeff", 3178.4) * std::pow(sl, par(s, b, "exp", -1.998)) * 1000;
                        lim = std::max(lim, minH);
                        if (maxD > 0) lim = std::min(lim, maxD);
                        excess = std::min(std::max(0.0, S - lim * 0.25), 1000.0);
                    } else {
                        double rho = ty == "transport:snow_redistribution_frey" ? par(s, b, "snow_density", 250) : m->rho;
                        rhoUsed = rho;
                        double rm = par(s, b, "rho_max", 450);
                        double over = std::max(0.0, S - par(s, b, "snow_holding_capacity", 200) * rho / 1000);
                        double fr = rho < rm ? (rm - rho) / rm * std::exp(-rho / rm) * std::clamp(slope, 0.0, 90.0) / 90 : 0;
                        excess = std::min(over * fr * par(s, b, "correction", 1), 1000.0);
                        // The density of a pack of almost nothing depends on the rounding of its changes.
                        if (ty != "transport:snow_redistribution_frey") rhoTol = over * par(s, b, "correction", 1) * 1e-14 / std::max(m->prev, 1e-8);
                    }
                    if (S <= 1e-8) excess = 0;
                    double lawSum = 0;
                    std::vector<LawItem> items;
                    for (auto& l : tp.lats) {
                        if (l.giver != u || l.cover != c) continue;
                        LawItem it;
                        it.unit = u; it.step = t; it.brick = b; it.proc = p->proc; it.type = ty; it.out = l.out; it.state = S; it.avail = S;
                        double tf = tr.f(t, l.receiver, l.rcover);
                        it.law = tf <= 1e-8 ? 0 : excess * l.fraction * tf * dt;
                        double r = tp.ratio(t, l);
                        double a = tr.amt(t, u, b, p->proc, l.out);
                        it.obs = r > 0 ? a / r : a;
                        it.tol = tol + rhoTol * l.fraction * tf * dt;
                        // A receiver above 1.5 times the maximum depth gets nothing. Its depth at that moment lies between
                        // the start and the end of the step.
                        int kr = tr.store(l.receiver, s.covers[l.rcover] + "_snowpack", ContentType::Snow);
                        double lim = par(s, b, "max_snow_depth", 20000) > 0 ? 1.5 * par(s, b, "max_snow_depth", 20000) * rhoUsed / 1000 : 1e300;
                        double r0 = tr.before(t, kr), r1 = tr.content[t][kr];
                        double rl = r1 - latIn(t, l.receiver, s.covers[l.rcover] + "_snowpack", false, true);
                        double lo = std::min({r0, r1, rl}), hi = std::max({r0, r1, rl});
                        if (lo > lim * (1 + 1e-6)) it.law = 0;
                        else if (hi > lim * (1 - 1e-6)) it.exact = false;
                        lawSum += it.law;
                        items.push_back(it);
                    }
                    for (auto& it : items) {
                        if (lawSum > S) { it.exact = false; }
                        f(it);
                        at(ContentType::Snow) -= it.obs;
                    }
                    continue;
                }
                if (ty.starts_with("melt:")) {
                    if (p->from == ContentType::Snow) {
                        if (S > 1e-8) law = meltLaw(t, u, b, ty, S, m);
                    } else {
                        law = meltLaw(t, u, b, ty, avail, nullptr);
                        // No ice melt under snow. The snowpack has been processed for this step; what arrives later does not count.
                        std::string sp = s.covers[c] + "_snowpack";
                        int k = tr.store(u, sp, ContentType::Snow);
                        double under = tr.content[t][k] - latIn(t, u, sp, false, true);
                        if (par(s, s.covers[c], "no_melt_when_snow_cover", 1) > 0) {
                            if (under > 2e-7) law = 0;
                            else if (under > 1e-9) exact = false;
                        }
                    }
                } else if (ty == "outflow:snow_holding") law = std::max(0.0, W - par(s, b, "water_holding_capacity", 0.1) * S) / dt;
                else if (ty == "refreeze:degree_day") {
                    double T = forcingAt(s, "temperature", u, t), Tm = par(s, b, "melting_temperature", 0);
                    law = T < Tm ? par(s, b, "refreezing_factor", 0.05) * ddf(u, b, s.melt) * (Tm - T) : 0;
                } else if (ty == "percolation:constant") law = par(s, b, "percolation_rate", 0.1);
                else if (ty == "sublimation:constant") law = par(s, b, "sublimation_rate", 0.1);
                else if (ty == "sublimation:pet") law = par(s, b, "sublimation_pet_factor", 0.2) * forcingAt(s, "pet", u, t);
                else if (ty == "transformation:snow_ice_constant") law = par(s, b, "snow_ice_transformation_rate", 0.5);
                else if (ty == "transformation:snow_ice_swat") {
                    // Day of the year of the step.
                    double mjd = s.start() + t * s.stepDays();
                    std::string d = dateStr(mjd);
                    int y = std::stoi(d.substr(0, 4));
                    int doy = (int)std::lround(std::floor(mjd + 1e-9) - GetMJD(y, 1, 1)) + 1;
                    law = par(s, b, "snow_ice_transformation_basal_acc_coeff", 0.0014) * (1 + std::sin(2 * M_PI * (doy - (par(s, b, "north_hemisphere", 1) == 0 ? 264 : 81)) / 365.0)) * S;
                    tol += 1e-6 * law;
                } else if (ty == "outflow:threshold") law = std::max(0.0, W - par(s, b, "capacity", 0)) / dt;
                else if (ty == "et:open_water") law = forcingAt(s, "pet", u, t);
                else if (ty == "outflow:direct" || ty == "outflow:rest") law = W;
                else if (ty == "interception:gr4j") law = forcingAt(s, "pet", u, t);
                else if (ty == "infiltration:socont" || ty == "infiltration:hbv") {
                    int k = tr.store(u, p->to[0].name, ContentType::Water);
                    double cap = par(s, p->to[0].name, "capacity", 0);
                    double r = std::clamp((tr.before(t, k) + depositsOf(t, u, p->to[0].name)) / cap, 0.0, 1.0);
                    law = W * (1 - std::pow(r, ty == "infiltration:hbv" ? par(s, b, "beta", 2) : 2.0));
                } else if (ty == "outflow:linear") law = par(s, b, "response_factor", 0.2) * W;
                else if (ty == "runoff:socont") law = socontRunoff(u, b, W, tr.f(t, u, c));
                else continue;
                if (!inf && avail <= 1e-8) law = 0;
                LawItem it;
                it.unit = u; it.step = t; it.brick = b; it.proc = p->proc; it.type = ty; it.out = 0;
                it.law = law * dt; it.avail = inf ? 1e300 : avail; it.exact = exact; it.tol = tol; it.state = avail;
                it.obs = tp.released(t, u, *p, 0);
                f(it);
                if (!inf) at(p->from) -= it.obs;
                for (size_t o = 0; o < p->to.size(); ++o) if (p->to[o].name == b) at(p->to[o].type) += it.obs;
            }
            if (m && s.redist == "transport:snow_redistribution_frey_dynamic" && !(s.ctypes[c] == "glacier" && s.skipGl)) {
                // Snow density: settling of the former pack, mixed with the increase of the step at the fresh snow density.
                double swe = tr.content[t][ks] - latIn(t, u, b, false, true);
                double rm = par(s, b, "rho_max", 450), settled = m->rho + (rm - m->rho) * std::clamp(par(s, b, "rho_settling", 0.1) * dt, 0.0, 1.0);
                double x = forcingAt(s, "temperature", u, t) / par(s, b, "rho_scale", 1.2) + par(s, b, "t_scale", 1);
                double mn = par(s, b, "rho_min", 100), fm = par(s, b, "rho_fresh_max", 300);
                double fresh = (fm - mn) * (x / std::sqrt(1 + x * x) + 1) / 2 + mn;
                double inc = std::max(0.0, swe - m->prev), ex = std::max(0.0, std::min(m->prev, swe));
                m->rho = swe <= 0 ? fresh : inc > 0 ? (ex * settled + inc * fresh) / (ex + inc) : settled;
                m->prev = swe;
            }
        }
    }
}

void Laws::solved(int t, const std::function<void(const LawItem&)>& f) {
    auto one = [&](int u, const std::string& b, const std::vector<const TProc*>& procs) {
        int k = tr.store(u, b, ContentType::Water);
        if (k < 0) return;
        double C = tr.before(t, k) + depositsOf(t, u, b);
        double pet = u >= 0 ? forcingAt(s, "pet", u, t) : 0;
        double cap = par(s, b, "capacity", 0);
        for (auto& cb : s.chain) if (cb.name == b && cb.capacity > 0 && cap == 0) cap = cb.capacity;
        if (s.fam == SOCONT && cap == 0) cap = 200;
        double ratio = cap > 0 ? std::clamp(C / cap, 0.0, 1.0) : 0;
        double siblings = 0;
        for (const TProc* p : procs) {
            const std::string& ty = p->type;
            for (size_t o = 0; o < p->to.size(); ++o) {
                double law = 0;
                if (ty == "et:socont") law = pet * std::sqrt(ratio);
                else if (ty == "et:linear") law = pet * ratio;
                else if (ty == "et:power_law") law = pet * std::pow(ratio, par(s, b, "exponent", 0.5));
                else if (ty == "et:exponential") law = pet * (1 - std::exp(-par(s, b, "alpha", 1) * ratio));
                else if (ty == "et:hbv") law = par(s, b, "et_correction_factor", 1) * pet * std::min(1.0, C / (par(s, b, "lp", 0.7) * cap));
                else if (ty == "et:open_water") law = std::min(pet, std::max(0.0, C) / dt);
                else if (ty == "outflow:linear") law = par(s, b, "response_factor", 0.2) * C;
                else if (ty == "outflow:direct") law = std::max(0.0, C);
                else if (ty == "outflow:threshold") law = std::max(0.0, C - par(s, b, "capacity", 0)) / dt;
                else if (ty == "percolation:constant") law = par(s, b, "percolation_rate", 0.1);
                else if (ty == "runoff:hbv") law = par(s, b, "response_factor", 0.2) * std::pow(std::max(0.0, C), 1 + par(s, b, "alpha", 1));
                else if (ty == "runoff:socont") law = socontRunoff(u, b, C, 1);
                else if (ty == "capillary:hbv") {
                    int kt = tr.store(u, p->to[o].name, ContentType::Water);
                    double w = 0;
                    for (auto& q : tp.up) if (q.type == "infiltration:hbv" && q.to[0].name == p->to[o].name) w += tr.f(t, u, coverOf(s, q.brick));
                    double c2 = par(s, p->to[o].name, "capacity", 250);
                    law = par(s, b, "max_capillary_flux", 1) * w * (1 - std::clamp((tr.before(t, kt) + depositsOf(t, u, p->to[o].name)) / c2, 0.0, 1.0));
                } else if (ty == "infiltration:gr4j") {
                    int kt = tr.store(u, "production_store", ContentType::Water);
                    law = C > 0 ? gr4jInfiltration(tr.before(t, kt), C, par(s, "production_store", "capacity", 350)) : 0;
                } else if (ty == "percolation:gr4j") law = gr4jPercolation(C, par(s, b, "capacity", 350));
                else if (ty == "et:gr4j") {
                    double P = 0;  // water on the land cover: rain and melt
                    int kc = tr.store(u, s.covers[0], ContentType::Water);
                    double rain, snow;
                    rainSnow(s, u, t, rain, snow);
                    P = tr.before(t, kc) + inputs(t, u, s.covers[0], ContentType::Water) + (rainTarget(s, 0) == s.covers[0] ? rain : 0);
                    double En = std::max(0.0, pet - P);
                    law = En > 0 ? gr4jEvaporation(tr.before(t, k), En, par(s, b, "capacity", 350)) : 0;
                } else if (ty == "outflow:rest") law = std::max(0.0, C - siblings);
                else continue;  // overflow and routing are judged elsewhere
                if (C <= 1e-8) law = 0;
                siblings += law;
                LawItem it;
                it.unit = u; it.step = t; it.brick = b; it.proc = p->proc; it.type = ty; it.out = (int)o;
                it.law = law * dt; it.avail = C; it.state = C;
                it.obs = tp.released(t, u, *p, (int)o);
                f(it);
            }
        }
    };
    for (int u = 0; u < (int)s.units.size(); ++u) {
        std::set<std::string> done;
        for (auto& p : tp.up)
            if (coverOf(s, p.brick) < 0 && done.insert(p.brick).second) one(u, p.brick, byBrick_[p.brick]);
    }
    std::map<std::string, std::vector<const TProc*>> sb;
    for (auto& p : tp.sp) sb[p.brick].push_back(&p);
    for (auto& [b, v] : sb) one(-1, b, v);
}

}  // namespace gen
