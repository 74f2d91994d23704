#include "gen.h"
#include "gen_build.h"

#include <cstdarg>
#include <cstring>
#include <sstream>

#include "ActionGlacierEvolutionAreaScaling.h"
#include "ActionGlacierEvolutionDeltaH.h"
#include "ActionGlacierSnowToIceTransformation.h"

#include <stdexcept>

namespace gen {
using mon::Rng;
using mon::fmt;

double Spec::stepDays() const {
    if (stepUnit == "hour") return stepN / 24.0;
    if (stepUnit == "minute") return stepN / 1440.0;
    return stepN;
}
long Spec::stepMinutes() const { return stepUnit == "day" ? stepN * 1440L : stepUnit == "hour" ? stepN * 60L : stepN; }
long civilToMjd(int y, int m, int d) {
    y -= m <= 2;
    long era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400;
    long doy = (153L * (m > 2 ? m - 3 : m + 9) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468 + 40587;
}
std::string dateTimeStr(long mjd, long minute) {
    mjd += minute / 1440; minute %= 1440;
    std::string e = dateStr((double)mjd);
    if (minute > 0) e += fmt(" %02ld:%02ld:00", minute / 60, minute % 60);
    return e;
}
double Spec::start() const { return civilToMjd(y0, m0, d0) + startMin / 1440.0; }
double Spec::dateOf(long k) const {
    long mn = startMin + k * stepMinutes(), d = mn >= 0 ? mn / 1440 : -((-mn + 1439) / 1440);
    return civilToMjd(y0, m0, d0) + d + (mn - d * 1440) / 1440.0;
}

std::string dateStr(double mjd) {
    long z = static_cast<long>(std::floor(mjd + 1e-9)) + 678881 - 719468 + 0;
    // Own civil-from-days (days since 1970-01-01 = mjd - 40587).
    z = static_cast<long>(std::floor(mjd + 1e-9)) - 40587 + 719468;
    long era = (z >= 0 ? z : z - 146096) / 146097;
    long doe = z - era * 146097;
    long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    long y = yoe + era * 400;
    long doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    long mp = (5 * doy + 2) / 153;
    long d = doy - (153 * mp + 2) / 5 + 1;
    long m = mp < 10 ? mp + 3 : mp - 9;
    return fmt("%04ld-%02ld-%02ld", y + (m <= 2), m, d);
}

static const char* famName(Fam f) {
    switch (f) { case SOCONT: return "socont"; case GR4J: return "gr4j"; case GR6J: return "gr6j"; case HBV: return "hbv"; default: return "chain"; }
}

std::string Spec::shortSig() const {
    std::ostringstream o;
    o << famName(fam) << '/' << solver << "/u" << units.size() << "/c" << covers.size();
    if (snow) o << "/snow:" << melt << '|' << split << (retention ? "+ret" : "") << (refreeze ? "+refr" : "") << (rainToSnow ? "+r2s" : "");
    if (!subl.empty()) o << '/' << subl;
    if (!iceT.empty()) o << '/' << iceT;
    if (!redist.empty()) o << '/' << redist << (skipGl ? "-gl" : "");
    if (multi) o << "/multi" << (variants.empty() ? "" : std::to_string(variants.size())) << (omitZero ? "o" : "");
    if (infGl) o << "/inf";
    if (otherNames) o << "/names";
    if (!canopy.empty()) o << "/canopy" << canopy.size();
    if (fam == SOCONT) o << "/soil" << soilNb << '/' << runoff;
    if (fam == GR4J || fam == GR6J) o << (discrete ? "/disc" : "/cont");
    if (fam == HBV) o << (sharedSoil ? "/shared" : "/persoil");
    if (fam == CHAIN) for (auto& v : coverProcs) { o << "/cover"; for (auto& p : v) o << ',' << p.type; }
    if (fam == CHAIN) { for (auto& b : chain) { o << '/' << b.name; for (auto& p : b.procs) o << ',' << p.type; } }
    if (upperLinear) o << "/ul";
    if (snowSeep) o << "/seep";
    if (!changes.empty()) o << "/chg";
    if (spinup) o << "/spin" << spinup;
    return o.str();
}

std::vector<ChainProc> Spec::procsOf(size_t c) const {
    if (c < coverProcs.size()) return coverProcs[c];
    return {{"outflow", "outflow:direct", head}};
}

bool Spec::usesType(const std::string& type) const {
    if (fam == SOCONT) return type == "runoff:socont" && runoff == "socont_runoff";
    if (fam != CHAIN) return false;
    for (auto& b : chain) for (auto& p : b.procs) if (p.type == type) return true;
    for (size_t c = 0; c < covers.size(); ++c) for (auto& p : procsOf(c)) if (p.type == type) return true;
    return false;
}

std::string Spec::describe() const {
    std::ostringstream o;
    o << shortSig() << " start=" << y0 << '-' << m0 << '-' << d0 << " n=" << nsteps << "x" << stepN << stepUnit
      << " data=-" << dataBefore << "/+" << dataAfter << " units[";
    for (auto& u : units) {
        o << u.id << ":a" << u.area << ",z" << u.elev << ",s" << fmt("%.1f", u.slopeDeg) << ",f(";
        for (double f : u.frac) o << fmt("%.3g ", f);
        o << ") ";
    }
    o << "]";
    if (!lats.empty()) { o << " lat["; for (auto& l : lats) o << l.giver << ">" << l.receiver << ':' << l.fraction << ' '; o << "]"; }
    if (!changes.empty()) { o << " chg["; for (auto& x : changes) o << x.step << '-' << x.early << ":#" << x.unit << ':' << covers[x.cover] << '=' << fmt("%.6g", x.frac) << ' '; o << "]"; }
    for (auto& x : tables) {
        o << " table[" << (x.deltaH ? "dh " : "as ") << x.cover << " m" << x.month << " rows" << x.area.rows() << " units";
        for (size_t i = 0; i < x.units.size(); ++i) o << ' ' << x.units[i] << ":a" << x.area(0, i) << ",v" << x.volume(0, i);
        o << "]";
    }
    for (auto& x : iceDates) o << " s2i[" << x.month << '-' << x.day << ' ' << x.cover << "]";
    o << " pars[";
    for (auto& p : pars) o << p.component << ':' << p.name << '=' << p.value << ' ';
    o << "]";
    return o.str();
}

// ---------------------------------------------------------------------------------------------- generation
Spec randomSpec(Rng& r, const Opts& o) {
    Spec s;
    s.fam = r.pick(o.fams);
    s.solver = r.pick(o.solvers);
    s.nsteps = r.i(o.minSteps, o.maxSteps);
    if (o.allowNonTrivialStart) {
        s.y0 = r.i(1988, 2024); s.m0 = r.i(1, 12); s.d0 = r.i(1, 28);
    }
    if (o.allowExtraData && r.p(0.5)) { s.dataBefore = r.i(0, 40); s.dataAfter = r.i(0, 20); }
    if (o.allowExtraData && r.p(0.15)) s.jitter = r.uni(-0.4, 0.4);
    if (o.allowSpinup && r.p(0.2)) s.spinup = r.i(1, s.nsteps + 10);
    s.covers = {r.pick(std::vector<std::string>{"ground", "ground", "open", "open", "generic", "generic_land_cover"})};
    s.ctypes = {"generic_land_cover"};
    s.snow = o.allowSnow && r.p(0.75);
    if (s.fam == GR4J || s.fam == GR6J) {
        s.discrete = !o.allowContinuousGR || r.p(0.7);
        if (s.snow) { s.melt = r.p(0.6) ? "melt:cemaneige" : "melt:degree_day"; }
    }
    if (s.snow) {
        double q = r.u();
        s.split = q < 0.5 ? "snow_rain:linear" : (q < 0.75 ? "snow_rain:threshold" : "snow_rain:cemaneige");
        if (s.fam == SOCONT || s.fam == HBV || s.fam == CHAIN) {
            q = r.u();
            s.melt = q < 0.55 ? "melt:degree_day" : q < 0.7 ? "melt:cemaneige" : (q < 0.85 && o.allowAspect) ? "melt:degree_day_aspect" : "melt:temperature_index";
        }
        s.retention = r.p(s.fam == HBV ? 0.7 : 0.3);
        if (s.retention) {
            s.refreeze = s.melt == "melt:degree_day" && r.p(0.7);
            s.rainToSnow = r.p(0.6);
        }
        if (r.p(0.35)) s.subl = r.p(0.5) ? "sublimation:constant" : "sublimation:pet";
    }
    bool glacierOk = o.allowGlacier && (s.fam == SOCONT || s.fam == HBV) && s.snow;
    if (s.fam == HBV && r.p(0.5)) {
        s.covers.push_back("forest"); s.ctypes.push_back("generic_land_cover");
        s.sharedSoil = r.p(0.5);
        if (r.p(0.5)) s.canopy.push_back(1);
    }
    if (s.fam == SOCONT && r.p(0.15)) {}
    if (glacierOk && r.p(s.fam == SOCONT ? 0.6 : 0.35)) {
        int n = r.i(1, o.maxGlacierCovers);
        const char* nm[] = {"glacier_ice", "glacier_debris"};
        for (int i = 0; i < n; ++i) { s.covers.push_back(nm[i]); s.ctypes.push_back("glacier"); }
        bool fin = o.allowFiniteGlacier && (!o.allowInfGlacier || r.p(0.7));
        s.infGl = !fin;
        if (fin && r.p(0.5)) s.iceT = r.p(0.5) ? "transformation:snow_ice_constant" : "transformation:snow_ice_swat";
        s.multi = o.allowMulti && r.p(0.5);
        for (int i = 0; i < n; ++i) s.initIce[nm[i]] = r.p(0.2) ? r.uni(0, 60) : r.uni(500, 80000);
    }
    // Names of which one begins or ends with another.
    auto rename = [&]() {
        for (size_t c = 1; c < s.covers.size(); ++c) {
            std::string old = s.covers[c], now;
            if (s.ctypes[c] != "glacier") now = r.pick(std::vector<std::string>{s.covers[0] + "_forest", s.covers[0] + "2", "forest_" + s.covers[0], s.covers[0].substr(0, 3)});
            else now = old == "glacier_ice" ? r.pick(std::vector<std::string>{"glacier", "glacier_d", "ice"}) : r.pick(std::vector<std::string>{"glacier_debris", "glacier_debris_ice"});
            s.covers[c] = now;
            if (s.initIce.count(old)) { s.initIce[now] = s.initIce[old]; if (now != old) s.initIce.erase(old); }
        }
    };
    bool similar = r.p(0.2);
    if (similar && s.fam != CHAIN) rename();
    // A cascade of small stores: when the last one is full, all of them hold back.
    bool cascade = s.fam == CHAIN && r.p(0.06) && (s.solver == "euler_explicit" || s.solver == "heun_explicit" || s.solver == "rk4");
    if (s.fam == SOCONT) { s.soilNb = r.i(1, 2); s.runoff = r.p(0.5) ? "socont_runoff" : "linear_storage"; }
    if (s.fam == CHAIN) {
        if (r.p(0.5)) { s.covers.push_back("forest"); s.ctypes.push_back("generic_land_cover"); }
        if (similar) rename();
        int nb = cascade ? r.i(4, 6) : r.i(1, 5);
        int nsub = r.i(0, 2);
        for (int i = 0; i < nb + nsub; ++i) {
            ChainBrick b;
            b.subBasin = i >= nb;
            b.name = fmt("store_%d%s", i + 1, b.subBasin && r.p(0.15) ? "_outlet" : "");
            b.capacity = r.p(b.subBasin ? 0.3 : 0.6) ? (float)r.logu(20, 500) : -1.f;
            if (cascade && i > 0 && i < nb) b.capacity = (float)r.logu(2, 40);
            s.chain.push_back(b);
        }
        for (int i = 0; i < nb + nsub; ++i) {
            auto& b = s.chain[i];
            if (cascade && i < nb) {
                std::string to = i + 1 < nb ? s.chain[i + 1].name : "outlet";
                if (r.p(0.7)) b.procs.push_back({"outflow", "outflow:linear", to});
                else b.procs.push_back({"percolation", "percolation:constant", to});
                if (i == 0 && b.capacity > 0) b.procs.push_back({"overflow", "overflow", "outlet"});
                continue;
            }
            auto target = [&]() -> std::string {
                if (r.p(0.4) || i + 1 == nb + nsub) return "outlet";
                return s.chain[r.i(i + 1, nb + nsub - 1)].name;
            };
            bool hbvRunoff = r.p(0.25);
            if (b.capacity > 0 && !b.subBasin && r.p(0.8)) {
                std::vector<std::string> ets = {"et:socont", "et:linear", "et:power_law", "et:hbv"};
                if (!hbvRunoff) ets.push_back("et:exponential");  // both have a parameter 'alpha'
                b.procs.push_back({"et", r.pick(ets), ""});
            } else if (b.capacity <= 0 && !b.subBasin && r.p(0.3)) {
                b.procs.push_back({"et", "et:open_water", ""});
            }
            if (hbvRunoff) b.procs.push_back({"quick", "runoff:hbv", target()});
            else if (!b.subBasin && r.p(0.15)) b.procs.push_back({"quick", "runoff:socont", target()});
            else b.procs.push_back({"outflow", "outflow:linear", target()});
            if (r.p(b.subBasin ? 0.2 : 0.4)) b.procs.push_back({"percolation", "percolation:constant", target()});
            if (b.capacity <= 0 && r.p(0.3)) b.procs.push_back({"excess", "outflow:threshold", target()});
            if (b.capacity > 0) b.procs.push_back({"overflow", "overflow", target()});
        }
    }
    if (s.fam == CHAIN && o.anyOrder && r.p(0.4)) {
        // Stores declared in another order than the water flows through them.
        int nb = 0;
        for (auto& b : s.chain) nb += !b.subBasin;
        for (int i = nb - 1; i > 0; --i) std::swap(s.chain[i], s.chain[r.i(0, i)]);
        for (int i = (int)s.chain.size() - 1; i > nb; --i) std::swap(s.chain[i], s.chain[r.i(nb, i)]);
    }
    if (s.fam == CHAIN && r.p(cascade ? 0.1 : 0.45)) {
        // Land covers that do more than pass on what they receive.
        std::vector<std::string> tg = {s.head, s.head, "outlet"};
        if (!cascade) for (auto& b : s.chain) tg.push_back(b.name);
        for (size_t c = 0; c < s.covers.size(); ++c) {
            std::vector<ChainProc> v;
            if (r.p(0.3)) v.push_back({"et", "et:open_water", ""});
            int q = r.i(0, 5);
            if (q <= 2) v.push_back({"runoff", "runoff:socont", r.pick(tg)});
            else if (q == 3) v.push_back({"release", "outflow:linear", r.pick(tg)});
            if (q != 2 && r.p(0.3)) v.push_back({"seepage", "percolation:constant", r.pick(tg)});
            if (q == 4 || q == 1) v.push_back({"rest", "outflow:rest", r.pick(tg)});
            if (q == 5) v.push_back({"outflow", v.empty() ? "outflow:direct" : "outflow:rest", r.pick(tg)});  // a direct outflow takes all
            s.coverProcs.push_back(v);
        }
    }
    // (The schemes that go store by store do not support it: what flows in is settled before the store is reached.)
    if (s.fam == CHAIN && r.p(0.4) && (s.solver == "euler_explicit" || s.solver == "heun_explicit" || s.solver == "rk4"))
        // Full stores that hold back what is to come, instead of spilling (not below the covers, whose water is given).
        for (auto& b : s.chain) {
            bool direct = b.subBasin || b.name == s.head;
            for (size_t c = 0; c < s.covers.size(); ++c) for (auto& p : s.procsOf(c)) direct |= p.target == b.name;
            for (auto& x : s.chain) for (auto& p : x.procs) direct |= p.type == "overflow" && p.target == b.name;
            if (b.capacity <= 0 || direct || r.p(0.3)) continue;
            std::erase_if(b.procs, [](auto& p) { return p.type == "overflow"; });
            if (r.p(0.5)) b.capacity = (float)r.logu(1, 30);
        }
    int nu = r.i(o.minUnits, o.maxUnits);
    std::vector<std::string> asp = {"N", "S", "E", "W", "north", "south", "east", "west"};
    for (int i = 0; i < nu; ++i) {
        UnitSpec u;
        u.id = r.p(0.5) ? i + 1 : (i + 1) * 7 + r.i(0, 6);
        u.area = r.logu(1e3, 5e8);
        if (nu > 1) u.area = r.logu(1e5, 5e7);
        u.elev = r.uni(200, 3800);
        u.slopeDeg = r.p(0.1) ? r.uni(0.05, 5) : r.uni(5, 65);
        u.aspect = r.pick(asp);
        u.frac.assign(s.covers.size(), 0.0);
        if (s.covers.size() == 1) u.frac[0] = 1.0;
        else {
            double rest = 1.0;
            double q = r.u();
            for (size_t c = 1; c < s.covers.size(); ++c) {
                double f = q < 0.2 ? 0.0 : (q < 0.3 && c == 1) ? 1.0 : (q < 0.45 && r.p(0.5)) ? 0.0 : r.uni(0.02, 0.6);
                f = std::min(f, rest);
                u.frac[c] = f; rest -= f;
            }
            u.frac[0] = std::max(0.0, rest);
            if (q >= 0.2 && q < 0.3) { for (auto& f : u.frac) f = 0; u.frac[1] = 1.0; }
        }
        s.units.push_back(u);
    }
    if (nu > 1 && r.p(o.lateralAlways ? 0.15 : 0.05)) {  // a regular basin: units of one size, possibly with the same covers
        bool same = r.p(0.5);
        for (auto& u : s.units) { u.area = s.units[0].area; if (same) u.frac = s.units[0].frac; }
    }
    if (o.extremeShares && r.p(0.05)) {  // a unit or a cover holding nearly everything, the others next to nothing
        if (nu > 1 && r.p(0.5)) {
            int big = r.i(0, nu - 1);
            for (int i = 0; i < nu; ++i) s.units[i].area = i == big ? r.logu(1e7, 5e8) : r.logu(1e3, 1e5);
        }
        for (auto& u : s.units) {
            if (s.covers.size() < 2 || r.p(0.3)) continue;
            size_t big = r.i(0, (int)s.covers.size() - 1);
            double rest = 1.0;
            for (size_t c = 0; c < u.frac.size(); ++c) if (c != big) { u.frac[c] = r.p(0.2) ? 0.0 : r.logu(1e-5, 3e-3); rest -= u.frac[c]; }
            u.frac[big] = rest;
        }
    }
    if (o.roundFractions && s.covers.size() > 1 && r.p(0.3)) {  // given with few decimals: the model takes up the difference (below 1e-4)
        for (auto& u : s.units) {
            double q = r.p(0.5) ? 1e5 : 1e4, sum = 0;
            std::vector<double> f = u.frac;
            for (auto& x : f) { x = std::round(x * q) / q; sum += x; }
            if (std::fabs(sum - 1) < 0.99e-4) u.frac = f;
            if (r.p(0.3) && std::find(s.ctypes.begin(), s.ctypes.end(), "glacier") == s.ctypes.end()) {  // the first cover is smaller than the difference
                f = u.frac;
                f[0] = r.i(0, 4) * 1e-5;
                sum = f[0];
                for (size_t k = 1; k + 1 < f.size(); ++k) sum += f[k];
                f.back() = 1 - sum + r.uni(-9.5e-5, 9.5e-5);
                if (f.back() >= 0 && f.back() <= 1) u.frac = f;
            }
        }
    }
    if (o.allowLateral && s.snow && nu > 1 && (o.lateralAlways || r.p(0.35)) && (s.fam == SOCONT || s.fam == HBV || s.fam == CHAIN)) {
        double q = r.u();
        s.redist = q < 0.4 ? "transport:snow_slide" : q < 0.7 ? "transport:snow_redistribution_frey" : "transport:snow_redistribution_frey_dynamic";
        s.skipGl = r.p(0.3);
        if (o.lateralAnyOrder && r.p(0.7)) {
            // Any directed connections, loops included, fractions summing to at most one per giver.
            for (int i = 0; i < nu; ++i) {
                if (r.p(0.25)) continue;
                double left = 1.0;
                for (int k = 0; k < nu; ++k) {
                    if (k == i || r.p(0.4)) continue;
                    double f = r.p(0.4) ? left : left * r.uni(0.1, 0.9);
                    if (f < 0.01) continue;
                    s.lats.push_back({s.units[i].id, s.units[k].id, f});
                    left -= f;
                }
            }
        } else
        // Down-slope connections in unit order (givers first), fractions sum to one per giver.
        for (int i = 0; i + 1 < nu; ++i) {
            if (r.p(0.2)) continue;
            int k = std::min(r.i(1, 2), nu - 1 - i);
            double f0 = k == 1 ? 1.0 : r.uni(0.1, 0.9);
            int a = r.i(i + 1, nu - 1);
            s.lats.push_back({s.units[i].id, s.units[a].id, k == 1 ? 1.0 : f0});
            if (k == 2) {
                int b = i + 1 + (a - i) % (nu - 1 - i);
                if (b == a) s.lats.back().fraction = 1.0;
                else s.lats.push_back({s.units[i].id, s.units[b].id, 1.0 - f0});
            }
        }
    }
    if (o.allowSubdaily && s.fam != GR4J && s.fam != GR6J && r.p(0.2)) {
        static const std::vector<std::pair<int, std::string>> st = {{12, "hour"}, {6, "hour"}, {3, "hour"}, {2, "hour"}, {1, "hour"}, {90, "minute"}, {2, "day"}, {3, "day"}, {7, "day"}};
        do { auto& x = r.pick(st); s.stepN = x.first; s.stepUnit = x.second; } while (s.stepDays() > o.maxStepDays);
        s.spinup = s.spinup > 0 ? std::max(1, (int)(s.spinup * s.stepDays())) : 0;
    }
    if (s.fam == HBV && r.p(0.25)) s.upperLinear = true;
    if (s.fam == CHAIN && s.snow && s.retention && r.p(0.4)) s.snowSeep = true;
    randomParams(r, s, o);
    randomForcing(r, s);
    if (o.allowChanges && r.p(0.5)) randomChanges(r, s);
    if (r.p(0.25)) {
        s.otherNames = true;
        for (auto& t : s.ctypes) if (t != "glacier") t = r.pick(std::vector<std::string>{"generic_land_cover", "generic", "ground", "open"});
    }
    return s;
}

void randomChanges(Rng& r, Spec& s, bool glaciers) {
    std::vector<std::vector<double>> f;
    for (auto& u : s.units) f.push_back(u.frac);
    int n = r.i(1, 6);
    std::vector<long> steps;
    for (int i = 0; i < n; ++i) steps.push_back(r.p(0.15) ? 0 : r.p(0.1) ? s.nsteps - 1 : r.i(0, s.nsteps - 1));
    std::sort(steps.begin(), steps.end());
    for (long st : steps) {
        int u = r.i(0, (int)s.units.size() - 1);
        double sum = 0;
        for (double x : s.units[u].frac) sum += x;
        if (std::fabs(sum - 1) > 1e-12) continue;  // corrected by the model
        std::vector<int> cand;
        bool hasGl = false;
        for (size_t c = 1; c < s.covers.size(); ++c) hasGl |= s.ctypes[c] == "glacier" && s.units[u].frac[c] > 0;
        for (size_t c = 1; c < s.covers.size(); ++c) {
            if (s.ctypes[c] == "glacier" && (!glaciers || (s.multi && !hasGl))) continue;
            cand.push_back((int)c);
        }
        if (cand.empty()) continue;
        int c = r.pick(cand);
        double top = f[u][c] + f[u][0], q = r.u();
        double x = q < 0.2 ? 0 : q < 0.3 ? top : q < 0.35 ? f[u][c] : q < 0.4 ? std::min(1e-6, top) : r.uni(0, top);
        // The sum of recorded fractions is exact up to rounding: stay clear of asking for more than there is.
        if (x > top * (1 - 1e-12)) x = f[u][0] <= 0 ? f[u][c] : top * (1 - 1e-9);
        if (q >= 0.2 && q < 0.3 && s.covers.size() == 2) x = 1;
        f[u][0] = std::max(0.0, top - x);
        f[u][c] = x;
        s.changes.push_back({st, u, c, x, r.p(0.3) ? (long)r.i(1, (int)s.stepMinutes() - 1) : 0});
    }
    // Registration order does not matter (changes of different dates).
    bool same = false;
    for (size_t i = 0; i < s.changes.size(); ++i)
        for (size_t k = 0; k < i; ++k) same |= s.changes[i].step == s.changes[k].step;
    if (!same && r.p(0.5)) for (int i = (int)s.changes.size() - 1; i > 0; --i) std::swap(s.changes[i], s.changes[r.i(0, i)]);
    else for (auto& x : s.changes) x.early = 0;
}

void randomGlacierActions(Rng& r, Spec& s) {
    if (s.infGl) return;
    for (size_t c = 1; c < s.covers.size(); ++c) {
        if (s.ctypes[c] != "glacier") continue;
        TableSpec x;
        x.cover = s.covers[c];
        x.deltaH = r.p(0.5);
        x.month = r.i(1, 12);
        if (r.p(0.7)) x.month = std::stoi(dateStr(s.dateOf(r.i(0, s.nsteps - 1))).substr(5, 2)) % 12 + (r.p(0.5) ? 1 : 0);
        if (x.month < 1) x.month = 1;
        for (size_t j = 0; j < s.units.size(); ++j) if (s.units[j].frac[c] > 0) x.units.push_back((int)j);
        if (x.units.empty() || r.p(0.2)) continue;
        for (size_t i = x.units.size(); i > 1; --i) std::swap(x.units[i - 1], x.units[r.i(0, (int)i - 1)]);
        int rows = r.p(0.2) ? r.i(2, 4) : r.i(5, 101), n = (int)x.units.size();
        x.area = axxd::Zero(rows, n); x.volume = axxd::Zero(rows, n);
        for (int i = 0; i < n; ++i) {
            const UnitSpec& u = s.units[x.units[i]];
            double a0 = u.frac[c] * u.area, v0 = a0 * (r.p(0.3) ? r.uni(0.05, 2) : r.uni(2, 80));  // ice depth [m]
            double pa = r.uni(0.3, 2), pv = pa + r.uni(0, 1), last = r.p(0.3) ? r.uni(0.5, 1) : 1;
            for (int k = 0; k < rows; ++k) {
                double q = std::min(1.0, (double)k / (rows - 1) / last);
                x.area(k, i) = k == 0 ? a0 : q >= 1 ? 0 : a0 * std::pow(1 - q, pa);
                x.volume(k, i) = q >= 1 ? 0 : v0 * std::pow(1 - q, pv);
            }
        }
        s.tables.push_back(x);
        s.glacierAction = true;
    }
    for (size_t c = 1; c < s.covers.size(); ++c)
        if (s.ctypes[c] == "glacier" && r.p(0.4)) {
            std::string ds = dateStr(s.dateOf(r.i(0, s.nsteps - 1)));
            s.iceDates.push_back({std::stoi(ds.substr(5, 2)), std::min(28, std::stoi(ds.substr(8, 2))), s.covers[c]});
        }
}

void randomParams(Rng& r, Spec& s, const Opts& o) {
    static const std::set<std::string> mayBeZero = {"threshold", "rain_correction_factor", "snow_correction_factor", "degree_day_factor", "degree_day_factor_n", "degree_day_factor_s", "degree_day_factor_ew", "melt_factor",
        "radiation_coefficient", "melting_temperature", "refreezing_factor", "percolation_rate", "sublimation_rate", "sublimation_pet_factor", "snow_ice_transformation_rate", "response_factor", "exchange_factor", "exchange_threshold"};
    bool zeros = r.p(0.06);  // switched off by a zero
    auto add = [&](const std::string& c, const std::string& n, double v) { s.pars.push_back({c, n, zeros && mayBeZero.count(n) && r.p(0.25) ? 0.0f : (float)v}); };
    if (s.snow) {
        if (s.split == "snow_rain:linear") {
            double a = r.uni(-2, 1);
            add("snow_rain_transition", "transition_start", a);
            add("snow_rain_transition", "transition_end", a + r.uni(0.1, 4));
        } else if (s.split == "snow_rain:threshold") add("snow_rain_transition", "threshold", r.uni(-2, 2));
        if (o.allowCorrection && r.p(0.6)) {
            add("snow_rain_transition", "rain_correction_factor", r.p(0.1) ? r.uni(0.02, 3) : r.uni(0.7, 1.4));
            add("snow_rain_transition", "snow_correction_factor", r.p(0.1) ? r.uni(0.02, 3) : r.uni(0.7, 1.6));
        }
        for (auto& c : s.covers) {
            std::string sp = c + "_snowpack";
            if (s.melt == "melt:degree_day") { add(sp, "degree_day_factor", r.uni(0.5, 10)); add(sp, "melting_temperature", r.uni(-1, 2)); }
            if (s.melt == "melt:degree_day_aspect") {
                add(sp, "degree_day_factor_n", r.uni(0.5, 5)); add(sp, "degree_day_factor_s", r.uni(3, 10));
                add(sp, "degree_day_factor_ew", r.uni(1, 8)); add(sp, "melting_temperature", r.uni(-1, 2));
            }
            if (s.melt == "melt:temperature_index") { add(sp, "melt_factor", r.uni(0.5, 6)); add(sp, "radiation_coefficient", r.uni(0, 0.01)); if (r.p(0.5)) add(sp, "melting_temperature", r.uni(-1, 2)); }
            if (s.melt == "melt:cemaneige") {
                add(sp, "degree_day_factor", r.uni(1, 9)); add(sp, "cold_content_factor", r.p(0.05) ? 1 : r.p(0.05) ? 0 : r.uni(0, 1)); add(sp, "mean_annual_snow", r.uni(20, 600));
                if (r.p(0.4)) add(sp, "melting_temperature", r.uni(-1, 2));
            }
            if (s.retention) add(sp, "water_holding_capacity", r.p(0.1) ? 0.0 : r.uni(0.01, 0.3));
            if (s.refreeze) add(sp, "refreezing_factor", r.uni(0, 0.3));
            if (s.snowSeep) add(sp, "percolation_rate", r.uni(0, 3));
            if (s.subl == "sublimation:constant") add(sp, "sublimation_rate", r.uni(0, 2));
            if (s.subl == "sublimation:pet") add(sp, "sublimation_pet_factor", r.uni(0, 1));
            bool gl = s.ctypes[&c - &s.covers[0]] == "glacier";
            if (gl && s.iceT == "transformation:snow_ice_constant") add(sp, "snow_ice_transformation_rate", r.uni(0, 3));
            if (gl && s.iceT == "transformation:snow_ice_swat") { add(sp, "snow_ice_transformation_basal_acc_coeff", r.uni(0.0005, 0.01)); if (r.p(0.3)) add(sp, "north_hemisphere", r.p(0.8) ? 0 : 1); }
            if (gl) {
                if (s.melt == "melt:degree_day" || s.melt == "melt:cemaneige") add(c, "degree_day_factor", r.uni(2, 14));
                if (s.melt == "melt:degree_day_aspect") { add(c, "degree_day_factor_n", r.uni(2, 14)); add(c, "degree_day_factor_s", r.uni(2, 14)); if (r.p(0.7)) add(c, "degree_day_factor_ew", r.uni(2, 14)); }
                if (s.melt == "melt:temperature_index") { add(c, "melt_factor", r.uni(2, 10)); if (r.p(0.5)) add(c, "radiation_coefficient", r.uni(0, 0.01)); }
                if (r.p(0.3)) add(c, "melting_temperature", r.uni(-1, 2));
            }
            if (!s.redist.empty() && !(gl && s.skipGl)) {
                if (s.redist == "transport:snow_slide") { if (r.p(0.5)) { add(sp, "min_snow_holding_depth", r.uni(10, 200)); add(sp, "coeff", r.logu(200, 4000)); } if (r.p(0.3)) { add(sp, "min_slope", r.uni(1, 40)); add(sp, "max_slope", r.p(0.5) ? (double)(float)r.pick(s.units).slopeDeg : r.uni(40, 80)); add(sp, "exp", r.uni(-2.5, -1)); } if (r.p(0.3)) add(sp, "max_snow_depth", r.p(0.12) ? 0.0 : r.uni(300, 2000)); }
                else { add(sp, "snow_holding_capacity", r.uni(5, 300)); add(sp, "correction", r.uni(0.1, 1.5));
                    if (r.p(0.3)) { double mx = r.uni(300, 600); add(sp, "rho_max", mx);
                        if (s.redist.ends_with("dynamic")) { add(sp, "rho_min", r.uni(50, 150)); add(sp, "rho_fresh_max", r.uni(160, 350)); add(sp, "rho_settling", r.p(0.2) ? 0.0 : r.uni(0.01, 0.5)); add(sp, "rho_scale", r.uni(0.5, 3)); add(sp, "t_scale", r.uni(-1, 2)); }
                        else add(sp, "snow_density", r.p(0.1) ? mx : r.uni(80, 500)); }
                    if (r.p(0.3)) add(sp, "max_snow_depth", r.p(0.12) ? 0.0 : r.uni(300, 2000)); }
            }
        }
    }
    bool anyGl = false;
    for (auto& t : s.ctypes) anyGl |= t == "glacier";
    if (anyGl) {
        for (size_t c = 0; c < s.covers.size(); ++c) if (s.ctypes[c] == "glacier" && r.p(0.2)) add(s.covers[c], "no_melt_when_snow_cover", r.p(0.8) ? 0 : 1);
        add("glacier_area_rain_snowmelt_storage", "response_factor", r.uni(0.02, 0.9));
        add("glacier_area_icemelt_storage", "response_factor", r.uni(0.02, 0.9));
    }
    if (s.fam == SOCONT) {
        add("slow_reservoir", "capacity", r.logu(10, 500));
        add("slow_reservoir", "response_factor", r.logu(0.001, 0.5));
        if (s.soilNb == 2) { add("slow_reservoir", "percolation_rate", r.uni(0, 3)); add("slow_reservoir_2", "response_factor", r.logu(0.001, 0.2)); }
        if (s.runoff == "socont_runoff") add("surface_runoff", "beta", r.logu(100, 30000));
        else add("surface_runoff", "response_factor", r.uni(0.1, 0.99));
    } else if (s.fam == GR4J || s.fam == GR6J) {
        add("production_store", "capacity", r.logu(50, 1500));
        if (s.discrete || s.fam == GR4J || s.fam == GR6J) {
            add("uh_input", "routing_capacity", r.logu(10, 400));
            add("uh_input", "uh_base_time", r.p(0.1) ? 0.5 : r.uni(0.5, 8));
            add("uh_input", "exchange_factor", o.allowExchange ? r.uni(-5, 4) : 0.0);
            if (s.fam == GR6J) { add("uh_input", "exchange_threshold", o.allowExchange ? r.uni(-1, 1) : 0.0); add("uh_input", "exp_store_coeff", r.logu(1, 40)); }
        }
    } else if (s.fam == HBV) {
        bool sh = s.sharedSoil || s.covers.size() == 1 || s.ctypes[1] == "glacier";
        for (size_t c = 0; c < s.covers.size(); ++c) {
            if (s.ctypes[c] == "glacier") continue;
            add(s.covers[c], "beta", r.uni(0.5, 5));
            if (!sh || c == 0) {
                std::string so = sh ? "soil_moisture" : s.covers[c] + "_soil_moisture";
                add(so, "capacity", r.logu(30, 500)); add(so, "lp", r.uni(0.3, 1));
                if (o.allowCorrection && r.p(0.4)) add(so, "et_correction_factor", r.uni(0.6, 1.5));
            }
        }
        add("upper_zone", "max_capillary_flux", r.p(0.4) ? 0 : r.uni(0, 3));
        add("upper_zone", "percolation_rate", r.uni(0, 4));
        { double al = r.p(0.2) ? 0.0 : r.uni(0, 1.2); add("upper_zone", "response_factor", std::min(r.logu(0.001, 0.3), 7000 / std::pow(3000.0, 1 + al)));
        if (s.upperLinear) s.pars.back().value = (float)r.logu(0.01, 0.9);
        else add("upper_zone", "alpha", al); }
        add("lower_zone", "response_factor", r.logu(0.002, 0.3));
        add("routing", "maxbas", r.p(0.15) ? 1.0 : r.uni(1, 8));
        for (int c : s.canopy) add(s.covers[c] + "_canopy", "capacity", r.uni(0, 6));
    } else {
        for (size_t c = 0; c < s.covers.size(); ++c)
            for (auto& p : s.procsOf(c)) {
                if (p.type == "runoff:socont") add(s.covers[c], "beta", r.logu(100, 30000));
                if (p.type == "outflow:linear") add(s.covers[c], "response_factor", r.logu(0.005, 0.9));
                if (p.type == "percolation:constant") add(s.covers[c], "percolation_rate", r.uni(0, 3));
            }
        for (auto& b : s.chain) {
            if (b.capacity > 0) add(b.name, "capacity", b.capacity);
            for (auto& p : b.procs) {
                if (p.type == "outflow:linear") add(b.name, "response_factor", r.logu(0.005, 0.9));
                if (p.type == "runoff:socont") add(b.name, "beta", r.logu(100, 30000));
                if (p.type == "runoff:hbv") { add(b.name, "alpha", r.uni(0, 0.4)); add(b.name, "response_factor", r.logu(0.001, 0.05)); }
                if (p.type == "percolation:constant") add(b.name, "percolation_rate", r.uni(0, 3));
                if (p.type == "outflow:threshold") add(b.name, "capacity", r.logu(1, 200));
                if (p.type == "et:exponential") add(b.name, "alpha", r.uni(0.5, 6));
                if (p.type == "et:power_law") add(b.name, "exponent", r.uni(0.2, 3));
                if (p.type == "et:hbv") { add(b.name, "lp", r.uni(0.2, 1)); if (o.allowCorrection && r.p(0.4)) add(b.name, "et_correction_factor", r.uni(0.6, 1.5)); }
            }
        }
    }
}

void randomForcing(Rng& r, Spec& s) {
    int n = s.dataBefore + s.nsteps + s.dataAfter, nu = (int)s.units.size();
    axxd P(n, nu), T(n, nu), E(n, nu), R(n, nu), Tn(n, nu), Tx(n, nu);
    double phase = r.u() * 365, tm = r.uni(-6, 16), ta = r.uni(2, 14), lapse = r.uni(0.004, 0.0075), scale = r.logu(1, 25), wet = r.uni(0.1, 0.7);
    double petm = r.uni(0.5, 5);
    int mode = r.i(0, 9);  // 0: no rain at all; 1: constant forcing; 2: extremes
    std::vector<double> pf(nu), to(nu);
    for (int j = 0; j < nu; ++j) { pf[j] = r.uni(0.5, 1.6); to[j] = r.uni(-1, 1); }
    double cp = r.uni(0, 20), ct = r.uni(-8, 15), ce = r.uni(0, 5);
    double noise = 0;
    bool isWet = false;
    double dt = s.stepDays();
    for (int t = 0; t < n; ++t) {
        double day = t * dt + phase;
        noise = 0.7 * noise + r.uni(-2.5, 2.5);
        if (r.p(isWet ? 0.4 : 0.3)) isWet = r.p(wet);
        double p = isWet ? -std::log(1 - r.u()) * scale : 0;
        if (r.p(0.01)) p *= 4;
        p = std::min(p, 180.0);
        double tt = tm + ta * std::sin(2 * M_PI * (day - 110) / 365.25) + noise;
        double e = std::max(0.0, petm * (0.5 + 0.5 * std::sin(2 * M_PI * (day - 100) / 365.25)) + r.uni(-0.5, 0.5));
        if (mode == 0) p = 0;
        if (mode == 1) { p = cp; tt = ct; e = ce; }
        if (mode == 2) { p = r.p(0.1) ? r.uni(50, 200) : 0; e = r.p(0.3) ? 0 : r.uni(0, 12); tt = r.uni(-25, 25); }
        for (int j = 0; j < nu; ++j) {
            P(t, j) = p * pf[j] * dt;
            T(t, j) = tt + to[j] - (mode == 1 ? 0 : lapse * (s.units[j].elev - 1200));
            E(t, j) = std::max(0.0, e * (1 - 0.0001 * (s.units[j].elev - 1000)));
            R(t, j) = std::max(0.0, 200 + 120 * std::sin(2 * M_PI * (day - 90) / 365.25) + r.uni(-80, 80));
            double amp = r.uni(0.5, 7);
            Tn(t, j) = T(t, j) - amp; Tx(t, j) = T(t, j) + amp;
        }
    }
    s.forcing["precipitation"] = P;
    s.forcing["pet"] = E;
    if (s.snow) {
        s.forcing["temperature"] = T;
        s.forcing["temperature_min"] = Tn;
        s.forcing["temperature_max"] = Tx;
        if (s.melt == "melt:temperature_index") s.forcing["solar_radiation"] = R;
    }
}

// ---------------------------------------------------------------------------------------------- building
void applyParams(SettingsModel& sm, const std::vector<ParSpec>& pars) { tpl::applyParams(sm, pars); }
void buildSettings(SettingsModel& sm, const Spec& s, bool withParams) { tpl::buildSettings(sm, s, withParams); }
void buildBasin(SettingsBasin& sb, const Spec& s) { tpl::buildBasin(sb, s); }

void attachForcing(ModelHydro& m, const Spec& s) {
    int nu = (int)s.units.size();
    axi ids(nu);
    for (int j = 0; j < nu; ++j) ids[j] = s.units[j].id;
    for (auto& [name, data] : s.forcing) {
        axd time(data.rows());
        for (int t = 0; t < data.rows(); ++t) time[t] = s.dateOf(t - s.dataBefore) + s.jitter * std::cos(t) / 86400;
        if (!m.CreateTimeSeries(name, time, ids, data)) throw std::runtime_error("harness: forcing '" + name + "' rejected: " + mon::capturedLog());
    }
    if (!m.AttachTimeSeriesToHydroUnits()) throw std::runtime_error("harness: forcing could not be attached");
}

void setInitialIce(ModelHydro& m, const Spec& s) {
    if (s.infGl) return;
    for (auto& st : stores(m)) {
        if (st.type != ContentType::Ice) continue;
        auto it = s.initIce.find(st.brick->GetName());
        if (it != s.initIce.end()) {
            st.brick->UpdateContent(it->second, ContentType::Ice);
            st.brick->SetInitialState(it->second, ContentType::Ice);
        }
    }
}

std::unique_ptr<Built> buildModel(const Spec& s, bool forcing) {
    auto b = std::make_unique<Built>();
    buildSettings(b->sm, s);
    buildBasin(b->sb, s);
    b->model = std::make_unique<ModelHydro>();
    auto r = b->model->InitializeWithBasin(b->sm, b->sb);
    if (!r) throw std::runtime_error("initialization refused: " + r.error() + " " + mon::capturedLog().substr(0, 400));
    if (!b->model->IsValid()) throw std::runtime_error("model reported invalid: " + mon::capturedLog().substr(0, 400));
    setInitialIce(*b->model, s);
    if (!s.changes.empty()) {
        auto a = std::make_unique<ActionLandCoverChange>();
        for (auto& x : s.changes) a->AddChange(s.dateOf(x.step) - x.early / 1440.0, s.units[x.unit].id, s.covers[x.cover], x.frac * s.units[x.unit].area);
        if (!b->model->AddAction(a.get())) throw std::runtime_error("action refused: " + mon::capturedLog().substr(0, 400));
        b->actions.push_back(std::move(a));
    }
    for (auto& x : s.tables) {
        axi ids(x.units.size());
        for (size_t i = 0; i < x.units.size(); ++i) ids[i] = s.units[x.units[i]].id;
        std::unique_ptr<Action> a;
        if (x.deltaH) { auto d = std::make_unique<ActionGlacierEvolutionDeltaH>(); d->AddLookupTables(x.month, x.cover, ids, x.area, x.volume); a = std::move(d); }
        else { auto d = std::make_unique<ActionGlacierEvolutionAreaScaling>(); d->AddLookupTables(x.month, x.cover, ids, x.area, x.volume); a = std::move(d); }
        if (!b->model->AddAction(a.get())) throw std::runtime_error("glacier action refused: " + mon::capturedLog().substr(0, 400));
        b->actions.push_back(std::move(a));
    }
    for (auto& x : s.iceDates) {
        auto a = std::make_unique<ActionGlacierSnowToIceTransformation>(x.month, x.day, x.cover);
        if (!b->model->AddAction(a.get())) throw std::runtime_error("snow to ice action refused: " + mon::capturedLog().substr(0, 400));
        b->actions.push_back(std::move(a));
    }
    if (forcing) attachForcing(*b->model, s);
    return b;
}

void runModel(Built& b) {
    auto r = b.model->Run();
    if (!r) throw std::runtime_error("run failed: " + r.error());
}

Outputs collect(ModelHydro& m) {
    Outputs o;
    Logger* l = m.GetLogger();
    o.time = l->GetTime();
    o.outlet = m.GetOutletDischarge();
    o.sbLabels = l->GetSubBasinLabels();
    o.huLabels = l->GetHydroUnitLabels();
    o.frLabels = l->GetHydroUnitFractionLabels();
    o.sb = l->GetSubBasinValues();
    o.hu = l->GetHydroUnitValues();
    o.fr = l->GetHydroUnitFractions();
    return o;
}

static bool same(double a, double b, double at, double rt) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    return std::fabs(a - b) <= at + rt * std::max(std::fabs(a), std::fabs(b));
}

std::string diffRows(const Outputs& a, int a0, const Outputs& b, int b0, int n, double at, double rt) {
    if (a.sbLabels != b.sbLabels || a.huLabels != b.huLabels || a.frLabels != b.frLabels) return "labels differ";
    if (a.time.size() < a0 + n || b.time.size() < b0 + n) return fmt("only %ld and %ld rows", (long)a.time.size(), (long)b.time.size());
    // Report the earliest time step at which anything differs.
    for (int t = 0; t < n; ++t) {
        for (size_t k = 0; k < a.fr.size(); ++k)
            for (int j = 0; j < a.fr[k].cols(); ++j)
                if (!same(a.fr[k](a0 + t, j), b.fr[k](b0 + t, j), at, rt)) return fmt("fraction '%s' step %d unit #%d: %.17g vs %.17g", a.frLabels[k].c_str(), t, j, a.fr[k](a0 + t, j), b.fr[k](b0 + t, j));
        for (size_t k = 0; k < a.hu.size(); ++k)
            for (int j = 0; j < a.hu[k].cols(); ++j)
                if (!same(a.hu[k](a0 + t, j), b.hu[k](b0 + t, j), at, rt)) return fmt("'%s' step %d unit #%d: %.17g vs %.17g", a.huLabels[k].c_str(), t, j, a.hu[k](a0 + t, j), b.hu[k](b0 + t, j));
        for (size_t k = 0; k < a.sb.size(); ++k)
            if (!same(a.sb[k][a0 + t], b.sb[k][b0 + t], at, rt)) return fmt("'%s' step %d: %.17g vs %.17g", a.sbLabels[k].c_str(), t, a.sb[k][a0 + t], b.sb[k][b0 + t]);
    }
    return "";
}

std::string diff(const Outputs& a, const Outputs& b, double at, double rt) {
    if (a.time.size() != b.time.size()) return fmt("time sizes differ %ld %ld", (long)a.time.size(), (long)b.time.size());
    for (int t = 0; t < a.time.size(); ++t) if (!same(a.time[t], b.time[t], 0, 0)) return fmt("recorded date %d: %.9f vs %.9f", t, a.time[t], b.time[t]);
    return diffRows(a, 0, b, 0, (int)a.time.size(), at, rt);
}

static void addBrick(std::vector<StoreRef>& v, Brick* b, HydroUnit* u) {
    v.push_back({b->GetName(), ContentType::Water, b, b->GetWaterContainer(), u});
    if (auto sp = dynamic_cast<Snowpack*>(b)) v.push_back({b->GetName(), ContentType::Snow, b, sp->GetSnowContainer(), u});
    if (auto gl = dynamic_cast<Glacier*>(b)) v.push_back({b->GetName(), ContentType::Ice, b, gl->GetIceContainer(), u});
}

std::vector<StoreRef> stores(ModelHydro& m) {
    std::vector<StoreRef> v;
    SubBasin* sb = m.GetSubBasin();
    for (int i = 0; i < sb->GetHydroUnitCount(); ++i) {
        HydroUnit* u = sb->GetHydroUnit(i);
        for (int k = 0; k < u->GetBrickCount(); ++k) addBrick(v, u->GetBrick(k), u);
    }
    for (int k = 0; k < sb->GetBrickCount(); ++k) addBrick(v, sb->GetBrick(k), nullptr);
    return v;
}

double coverFraction(const StoreRef& s) {
    if (auto lc = dynamic_cast<LandCover*>(s.brick)) return lc->GetAreaFraction();
    if (auto sc = dynamic_cast<SurfaceComponent*>(s.brick)) return sc->HasParent() ? sc->GetParentAreaFraction() : 1.0;
    return 1.0;
}

double totalStorage(ModelHydro& m) {
    double tot = 0, area = m.GetSubBasin()->GetArea();
    for (auto& s : stores(m)) {
        if (s.wc->IsInfiniteStorage()) continue;
        double w = s.unit ? s.unit->GetArea() / area : 1.0;
        tot += w * coverFraction(s) * s.brick->GetContent(s.type);
    }
    return tot;
}

}  // namespace gen
