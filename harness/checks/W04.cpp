// Land cover changes: fractions, transfer of water and snow, covers without area. Changes are requested between the steps of
// a run (directly, through a scheduled action or through glacier actions) and every one is judged on the states around it.
#include "ActionGlacierSnowToIceTransformation.h"
#include "Flux.h"
#include "gen.h"
using namespace mon;
using namespace gen;

namespace {
struct State {
    std::map<std::string, double> frac;
    std::map<std::pair<std::string, int>, double> content;  // brick, type (with fluxes in transit: none between steps)
};
const char* roleOf(const std::string& b) { return b.ends_with("_snowpack") ? "snowpack" : b.ends_with("_canopy") ? "canopy" : "cover"; }
}  // namespace

// Covers by their names: the change is taken up by the generic cover, by whichever of its names it goes; without one (or without
// room in it) it is refused and nothing changes.
static void names(Ctx& c) {
    Rng& r = c.rng;
    std::vector<std::string> alias = {"open", "ground", "generic", "generic_land_cover"}, others = {"forest", "rock", "urban", "wetland"};
    bool has = r.p(0.5);
    Spec s;
    s.nsteps = 3; s.y0 = 2001; s.m0 = 1; s.d0 = 1; s.snow = false;
    s.covers.clear();
    int n = r.i(has ? 1 : 2, 3);
    for (int i = 0; i < n; ++i) s.covers.push_back(others[i]);
    std::string gen = has ? r.pick(alias) : "";
    if (has) s.covers.insert(s.covers.begin() + r.i(0, n), gen);
    s.ctypes.assign(s.covers.size(), "generic_land_cover");
    int nu = r.i(1, 3);
    for (int j = 0; j < nu; ++j) {
        std::vector<double> f;
        double sum = 0;
        for (size_t i = 0; i < s.covers.size(); ++i) { f.push_back(r.p(0.2) ? 0 : r.uni(0, 1)); sum += f.back(); }
        if (sum <= 0) { f[0] = 1; sum = 1; }
        for (auto& x : f) x /= sum;
        if (r.p(0.3)) {  // as rounded in a file: the sum is only nearly one, and a cover may be tiny
            size_t tiny = r.i(0, (int)f.size() - 1), big = std::max_element(f.begin(), f.end()) - f.begin();
            if (tiny != big && r.p(0.7)) { f[big] += f[tiny]; f[tiny] = r.logu(1e-7, 1e-4); f[big] -= f[tiny]; }
            f[big] += r.uni(-9e-5, 9e-5);
            c.count("units with rounded fractions");
        }
        s.units.push_back({j + 1, r.logu(1e4, 1e8), 1000, 10, "N", f});
    }
    Built b;
    SettingsModel& sm = b.sm;
    sm.SetSolver("euler_explicit");
    sm.SetTimer("2001-01-01", "2001-01-03", 1, "day");
    sm.GeneratePrecipitationSplitters(false, "");
    for (auto& cv : s.covers) sm.AddLandCoverBrick(cv, "generic_land_cover");
    for (auto& cv : s.covers) { sm.SelectHydroUnitBrick(cv); sm.AddBrickProcess("outflow", "outflow:direct", "outlet"); }
    sm.AddLoggingToItem("outlet");
    buildBasin(b.sb, s);
    b.model = std::make_unique<ModelHydro>();
    if (auto q = b.model->InitializeWithBasin(b.sm, b.sb); !q) throw std::runtime_error("initialization refused: " + q.error());
    SubBasin* sb = b.model->GetSubBasin();
    if (!b.model->IsValid()) throw std::runtime_error("the model is reported invalid");
    for (int j = 0; j < nu; ++j) {
        double sum = 0;
        for (size_t i = 0; i < s.covers.size(); ++i) {
            double g = s.units[j].frac[i], v = dynamic_cast<LandCover*>(sb->GetHydroUnit(j)->GetBrick(s.covers[i]))->GetAreaFraction();
            sum += v;
            if (!(v >= 0 && v <= 1 + 1e-12 && std::fabs(v - g) <= 1e-4)) c.fail("initial fraction", fmt("unit %d: %s given with %.17g covers %.17g", j + 1, s.covers[i].c_str(), g, v));
        }
        if (std::fabs(sum - 1) > 1e-9) c.fail("initial sum", fmt("unit %d: the covers sum to %.17g", j + 1, sum));
    }
    std::string hist;
    for (int k = r.i(1, 12); k > 0; --k) {
        HydroUnit* u = sb->GetHydroUnit(r.i(0, nu - 1));
        size_t cv = r.i(0, (int)s.covers.size() - 1);
        auto frac = [&]() { std::vector<double> f; for (auto& x : s.covers) f.push_back(dynamic_cast<LandCover*>(u->GetBrick(x))->GetAreaFraction()); return f; };
        auto put = [&](const std::string& brick, double v) { u->GetBrick(brick)->UpdateContent(v, ContentType::Water); };
        for (auto& x : s.covers) if (dynamic_cast<LandCover*>(u->GetBrick(x))->GetAreaFraction() > 0) put(x, r.uni(0, 100));
        auto water = [&]() { double w = 0; for (auto& x : s.covers) w += dynamic_cast<LandCover*>(u->GetBrick(x))->GetAreaFraction() * u->GetBrick(x)->GetContent(ContentType::Water); return w; };
        auto before = frac();
        double w0 = water();
        int gi = -1;
        for (size_t i = 0; i < s.covers.size(); ++i) if (s.covers[i] == gen) gi = (int)i;
        double room = gi >= 0 ? before[cv] + (((int)cv != gi) ? before[gi] : 0) : 0;
        double want = r.p(0.2) ? before[cv] : r.p(0.1) ? room : r.p(0.5) ? r.uni(0, 1) : r.uni(0, std::min(1.0, room + 0.01));
        if (r.p(0.05)) want = r.p(0.5) ? 1.5 : -0.1;
        bool ok = u->ChangeLandCoverAreaFraction(s.covers[cv], want);
        auto after = frac();
        std::string what = fmt("covers %s%s, unit %d: %s from %.17g to %.17g %s ", has ? "with " : "without a generic one", gen.c_str(), u->GetId(), s.covers[cv].c_str(), before[cv], want, ok ? "accepted" : "refused");
        c.sample = what;
        c.count(ok ? "changes by name accepted" : "changes by name refused");
        bool changes = std::fabs(want - before[cv]) > 1e-7;
        if ((want < 0 || want > 1) && ok) c.fail("invalid fraction accepted", what);
        if (ok && gi < 0 && changes) c.fail("no generic cover", what);
        if (ok && gi >= 0 && (int)cv != gi && want > room + 1e-7) c.fail("no room", what);
        if (!ok && gi >= 0 && (int)cv != gi && want >= 0 && want <= std::min(1.0, room) - 1e-9) c.fail("refused with room", what);
        double sum = 0;
        for (size_t i = 0; i < after.size(); ++i) {
            sum += after[i];
            if (!(after[i] >= 0 && after[i] <= 1)) c.fail("range", what + fmt("%s covers %.17g", s.covers[i].c_str(), after[i]));
            bool may = ok && (i == cv || (int)i == gi);
            if (!may && after[i] != before[i]) c.fail("other cover", what + fmt("%s goes from %.17g to %.17g", s.covers[i].c_str(), before[i], after[i]));
        }
        if (std::fabs(sum - 1) > 1e-9) c.fail("sum", what + fmt("the covers sum to %.17g", sum));
        if (!close(w0, water(), 1e-9, 1e-11)) c.fail("water", what + fmt("water %.15g then %.15g", w0, water()));
    }
    c.signature = fmt("names %d %s %d", n, gen.c_str(), nu);
}

static void run(Ctx& c) {
    if (c.rng.p(0.1)) return names(c);
    Opts o;
    o.fams = {SOCONT, HBV, CHAIN};
    o.allowSubdaily = true;
    o.maxSteps = c.thorough ? 300 : 80;
    o.maxUnits = 4;
    o.maxGlacierCovers = 2;
    o.anyOrder = true; o.roundFractions = true;
    Spec s;
    do s = randomSpec(c.rng, o); while (s.covers.size() < 2);
    s.spinup = c.rng.p(0.2) ? s.spinup : 0;
    bool viaAction = c.rng.p(0.3);
    if (viaAction) randomChanges(c.rng, s);
    c.sample = s.describe();
    auto b = buildModel(s);
    ModelHydro& m = *b->model;
    m.Reset();
    setInitialIce(m, s);
    auto st = stores(m);
    SubBasin* sb = m.GetSubBasin();
    const std::string generic = s.covers[0];
    auto take = [&](HydroUnit* u) {
        State x;
        for (auto& k : st) {
            if (k.unit != u) continue;
            if (auto lc = dynamic_cast<LandCover*>(k.brick)) x.frac[k.name] = lc->GetAreaFraction();
            x.content[{k.name, (int)k.type}] = k.brick->GetContent(k.type);
        }
        return x;
    };
    auto coverName = [&](const std::string& brick) {
        for (auto& cv : s.covers) if (brick == cv || brick == cv + "_snowpack" || brick == cv + "_canopy") return cv;
        return std::string();
    };
    auto at = [](const State& x, const std::string& n, ContentType t) { auto it = x.content.find({n, (int)t}); return it == x.content.end() ? 0.0 : it->second; };
    auto sumOk = [&](const State& x, const std::string& when, HydroUnit* u) {
        double sum = 0;
        for (auto& [n, f] : x.frac) {
            sum += f;
            if (!(f >= 0 && f <= 1)) c.fail("range", fmt("%s: unit %d %s covers %.17g ", when.c_str(), u->GetId(), n.c_str(), f) + c.sample);
        }
        if (!x.frac.empty() && std::fabs(sum - 1) > 1e-9) c.fail("sum", fmt("%s: unit %d covers sum to %.17g ", when.c_str(), u->GetId(), sum) + c.sample);
    };
    // Amounts of a unit over all its covers [mm]: water (covers and canopies) and snow.
    auto total = [&](const State& x, ContentType t) {
        double v = 0;
        for (auto& [k, val] : x.content) if (k.second == (int)t && !coverName(k.first).empty()) { auto it = x.frac.find(coverName(k.first)); if (it != x.frac.end()) v += it->second * val; }
        return v;
    };
    auto judge = [&](HydroUnit* u, const State& a, const State& z, const std::string& cover, const std::string& what) {
        sumOk(z, what, u);
        double moved = std::fabs(z.frac.at(cover) - a.frac.at(cover));
        for (ContentType t : {ContentType::Water, ContentType::Snow}) {
            double va = total(a, t), vz = total(z, t);
            double held = 0;
            for (auto& [k, val] : a.content) if (k.second == (int)t) held += std::fabs(val);
            c.count("conservation checks");
            if (moved > 0 && va > 0) c.count(t == ContentType::Water ? "changes moving water" : "changes moving snow");
            if (!close(va, vz, 1e-10 + 1e-11 * held, 1e-11))
                c.fail(t == ContentType::Water ? "water" : "snow", fmt("unit %d %s: %.15g before, %.15g after ", u->GetId(), what.c_str(), va, vz) + c.sample);
        }
        for (auto& [k, val] : a.content) {
            double now = z.content.at(k);
            std::string cv = coverName(k.first);
            if (!(now >= 0)) c.fail("negative", fmt("unit %d %s: %s holds %.15g ", u->GetId(), what.c_str(), k.first.c_str(), now) + c.sample);
            if ((cv != cover && cv != generic) || moved == 0) {
                if (now != val) c.fail("bystander", fmt("unit %d %s: %s from %.15g to %.15g ", u->GetId(), what.c_str(), k.first.c_str(), val, now) + c.sample);
                continue;
            }
            // The cover that loses area keeps its depths; it is empty once it has no area.
            bool loses = z.frac.at(cv) < a.frac.at(cv);
            if (loses && z.frac.at(cv) > 1e-12 && now != val) c.fail("donor depth", fmt("unit %d %s: %s from %.15g to %.15g ", u->GetId(), what.c_str(), k.first.c_str(), val, now) + c.sample);
            if (loses && moved > 1e-12 && z.frac.at(cv) == 0 && now != 0 && !(k.second == (int)ContentType::Ice && s.infGl)) c.fail("stale", fmt("unit %d %s: %s without area holds %.15g ", u->GetId(), what.c_str(), k.first.c_str(), now) + c.sample);
            // The one that gains area: area-weighted mean of what it had and of the matching store of the strip.
            if (!loses && z.frac.at(cv) > 1e-9 && k.second != (int)ContentType::Ice) {
                std::string other = cv == cover ? generic : cover, role = roleOf(k.first);
                ContentType t = (ContentType)k.second;
                std::string match = role == "cover" ? other : other + "_" + role;
                double strip = z.frac.at(cv) - a.frac.at(cv);
                if (a.frac.at(other) - z.frac.at(other) > strip) strip = a.frac.at(other) - z.frac.at(other);
                double d = at(a, match, t);
                if (role == "cover" && t == ContentType::Water)
                    for (std::string r2 : {"_snowpack", "_canopy"})  // water of stores the receiver does not have
                        if (!a.content.count({cv + r2, (int)t})) d += at(a, other + r2, t);
                double want = (val * a.frac.at(cv) + d * strip) / z.frac.at(cv);
                if (!close(now, want, 1e-9 / z.frac.at(cv) * (1 + val + d) * 1e-3, 1e-9))
                    c.fail("receiver depth", fmt("unit %d %s: %s holds %.15g, expected %.15g ", u->GetId(), what.c_str(), k.first.c_str(), now, want) + c.sample);
            }
        }
        // Ice: growing spreads it, shrinking leaves the depth.
        if (!s.infGl) {
            double ia = at(a, cover, ContentType::Ice) * a.frac.at(cover), iz = at(z, cover, ContentType::Ice) * z.frac.at(cover);
            if (z.frac.at(cover) >= a.frac.at(cover)) {
                if (!close(ia, iz, 1e-8, 1e-10)) c.fail("ice", fmt("unit %d %s: ice %.15g before, %.15g after ", u->GetId(), what.c_str(), ia, iz) + c.sample);
            } else if (iz > ia * (1 + 1e-12) + 1e-9) c.fail("ice", fmt("unit %d %s: ice %.15g before, %.15g after ", u->GetId(), what.c_str(), ia, iz) + c.sample);
        }
    };
    auto request = [&](long step) {
        HydroUnit* u = sb->GetHydroUnit(c.rng.i(0, sb->GetHydroUnitCount() - 1));
        std::string cover = c.rng.pick(s.covers);
        State a = take(u);
        double x;
        double cur = a.frac.count(cover) ? a.frac[cover] : 0, gen = a.frac.count(generic) ? a.frac[generic] : 0, q = c.rng.u();
        if (q < 0.15) x = 0;
        else if (q < 0.3) x = std::min(1.0, cur + gen);
        else if (q < 0.35) x = cur;
        else if (q < 0.4) x = c.rng.logu(1e-12, 1e-6);
        else if (q < 0.8) x = c.rng.uni(0, cur + gen);
        else if (q < 0.9) x = c.rng.uni(0, 1);
        else { static const std::vector<double> bad{-1e-9, -0.5, 1.0000001, 7, NAN, INFINITY, -INFINITY}; x = c.rng.pick(bad); }
        if (c.rng.p(0.03)) cover = "lake";
        bool has = a.frac.count(cover) > 0, sane = x >= 0 && x <= 1, fits = has && cover != generic && x <= cur + gen + 1e-15;
        std::string what = fmt("step %ld, %s from %.12g to %.12g", step, cover.c_str(), cur, x);
        bool ok = u->ChangeLandCoverAreaFraction(cover, x);
        State z = take(u);
        if (ok && (!has || !sane)) c.fail("accepted", what + " is accepted " + c.sample);
        if (!ok && has && sane && fits) c.fail("refused", what + fmt(" is refused although %s covers %.12g ", generic.c_str(), gen) + c.sample);
        c.count(ok ? "changes made" : "changes refused");
        if (!ok || cover == generic) {
            // Refused (or a request for the cover that takes the difference): everything as it was.
            for (auto& [n, f] : a.frac) if (!close(z.frac[n], f, 1e-12)) c.fail("refused change", fmt("unit %d %s: %s now covers %.15g ", u->GetId(), what.c_str(), n.c_str(), z.frac[n]) + c.sample);
            for (auto& [k, v] : a.content) if (z.content[k] != v) c.fail("refused change", fmt("unit %d %s: %s from %.15g to %.15g ", u->GetId(), what.c_str(), k.first.c_str(), v, z.content[k]) + c.sample);
            return;
        }
        if (std::fabs(z.frac[cover] - x) > 1e-8 || (z.frac[cover] != x && x <= cur + gen - 1e-12)) c.fail("extent", fmt("unit %d %s: it covers %.17g ", u->GetId(), what.c_str(), z.frac[cover]) + c.sample);
        for (auto& [n, f] : a.frac) if (n != cover && n != generic && z.frac[n] != f) c.fail("bystander", fmt("unit %d %s: %s from %.15g to %.15g ", u->GetId(), what.c_str(), n.c_str(), f, z.frac[n]) + c.sample);
        judge(u, a, z, cover, what);
    };
    std::vector<State> last(sb->GetHydroUnitCount());
    for (int j = 0; j < sb->GetHydroUnitCount(); ++j) last[j] = take(sb->GetHydroUnit(j));
    std::vector<State> begun(last);
    long step = 0;
    bool started = false;
    onEvent() = [&](const char* ev, ModelHydro* mm) {
        if (mm != &m) return;
        std::string e = ev;
        if (e == "spinup") return;
        if (e == "begin") {
            if (viaAction && started)
                // The changes of this step are known in order; with several on one unit only the totals are judged.
                for (int j = 0; j < sb->GetHydroUnitCount(); ++j) {
                    HydroUnit* u = sb->GetHydroUnit(j);
                    State z = take(u);
                    std::vector<const ChangeSpec*> here;
                    for (auto& x : s.changes) if (x.step == step && s.units[x.unit].id == u->GetId()) here.push_back(&x);
                    std::string what = fmt("step %ld, %zu scheduled change(s)", step, here.size());
                    sumOk(z, what, u);
                    if (here.size() == 1 && z.frac.count(s.covers[here[0]->cover])) { c.count("scheduled changes"); judge(u, last[j], z, s.covers[here[0]->cover], what); }
                    if (here.empty())
                        for (auto& [k, v] : last[j].content) if (z.content[k] != v) c.fail("unscheduled", fmt("unit %d step %ld: %s from %.15g to %.15g ", u->GetId(), step, k.first.c_str(), v, z.content[k]) + c.sample);
                }
            else if (!viaAction && started && c.rng.p(0.4)) { int n = c.rng.p(0.3) ? c.rng.i(2, 4) : 1; while (n--) request(step); }
            started = true;
            for (int j = 0; j < sb->GetHydroUnitCount(); ++j) begun[j] = take(sb->GetHydroUnit(j));
            return;
        }
        for (int j = 0; j < sb->GetHydroUnitCount(); ++j) {
            HydroUnit* u = sb->GetHydroUnit(j);
            last[j] = take(u);
            sumOk(last[j], fmt("after step %ld", step), u);
            for (auto& [k, v] : last[j].content) {
                std::string cv = coverName(k.first);
                auto it = last[j].frac.find(cv);
                if (cv.empty() || it == last[j].frac.end() || it->second > 1e-9) continue;
                c.count("covers without area");
                if (v != begun[j].content[k]) c.fail("null cover", fmt("unit %d step %ld: %s without area goes from %.15g to %.15g ", u->GetId(), step, k.first.c_str(), begun[j].content[k], v) + c.sample);
            }
            for (int i = 0; i < u->GetBrickCount(); ++i) {
                Brick* br = u->GetBrick(i);
                std::string cv = coverName(br->GetName());
                auto it = last[j].frac.find(cv);
                if (cv.empty() || it == last[j].frac.end() || it->second > 1e-9) continue;
                for (int p = 0; p < br->GetProcessCount(); ++p)
                    for (int q = 0; q < br->GetProcess(p)->GetOutputFluxCount(); ++q)
                        if (double a = *br->GetProcess(p)->GetOutputFlux(q)->GetAmountPointer(); a != 0)
                            c.fail("null cover flux", fmt("unit %d step %ld: %s:%s releases %.12g without area ", u->GetId(), step, br->GetName().c_str(), br->GetProcess(p)->GetName().c_str(), a) + c.sample);
            }
        }
        ++step;
    };
    runModel(*b);
    onEvent() = nullptr;
    c.count("runs");
    c.signature = s.shortSig() + fmt("/%d%zu", viaAction, s.changes.size());
}

Check mon::GetCheck() { return {"W04", 20000, 100000, run, "distinct structure and mode of change with every change judged on the contents around it and every cover without area watched at every step"}; }
