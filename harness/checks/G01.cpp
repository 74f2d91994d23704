// Glacier evolution: areas and ice after each application against a shadow model of the tables; nothing changes on other days.
#include "ActionGlacierEvolutionAreaScaling.h"
#include "ActionGlacierEvolutionDeltaH.h"
#include "ActionGlacierSnowToIceTransformation.h"
#include "Snowpack.h"
#include "gen.h"
using namespace mon;
using namespace gen;

namespace {
constexpr double kDensity = 900;  // kg/m3: 1 m of ice is 900 mm of water
struct Cell { double f = 0, ice = 0, snow = 0; };
struct State {
    std::vector<std::vector<Cell>> x;    // [unit][cover]
    std::vector<double> other;           // water in the covers and on them, per unit [mm over the unit]
    std::vector<double> raw;             // all the contents
};
struct Act { int kind; TableSpec t; int month, day; std::string cover; };  // 0 delta-h, 1 area scaling, 2 snow to ice
}  // namespace

static State snapshot(ModelHydro& m, const Spec& s) {
    State st;
    st.x.assign(s.units.size(), std::vector<Cell>(s.covers.size()));
    st.other.assign(s.units.size(), 0);
    for (size_t u = 0; u < s.units.size(); ++u) {
        HydroUnit* hu = m.GetSubBasin()->GetHydroUnitById(s.units[u].id);
        for (size_t c = 0; c < s.covers.size(); ++c)
            if (auto* lc = hu->TryGetLandCover(s.covers[c])) st.x[u][c].f = lc->GetAreaFraction();
    }
    for (auto& q : stores(m)) {
        double v = q.brick->GetContent(q.type);
        st.raw.push_back(v);
        if (!q.unit) continue;
        size_t u = 0;
        while (u < s.units.size() && s.units[u].id != q.unit->GetId()) ++u;
        bool found = false;
        for (size_t c = 0; c < s.covers.size(); ++c) {
            if (q.type == ContentType::Ice && q.brick->GetName() == s.covers[c]) { st.x[u][c].ice = v; found = true; }
            if (q.type == ContentType::Snow && q.brick->GetName() == s.covers[c] + "_snowpack") { st.x[u][c].snow = v; found = true; }
        }
        if (!found) st.other[u] += v * coverFraction(q);
    }
    return st;
}

// The change of extent moves the snow lying on the land with the land (from or to the generic cover).
static void setFraction(State& st, int u, int c, double f) {
    Cell &g = st.x[u][0], &a = st.x[u][c];
    double d = f - a.f;
    if (d == 0) return;
    double g1 = g.f - d;
    if (d > 0) a.snow = (a.snow * a.f + g.snow * d) / f;
    else if (g1 > 0) g.snow = (g.snow * g.f - a.snow * d) / g1;
    a.f = f;
    g.f = g1;
    if (f < 1e-15) a.snow = 0;
    if (g1 < 1e-15) g.snow = 0;
}

static std::set<int> rowsFor(double left, double initial, int n) {
    if (!(initial > 0)) return {0};
    if (left >= initial) return left < initial * (1 + 1e-9) && n > 1 ? std::set<int>{0} : std::set<int>{0};
    if (left <= 0) return {n - 1};
    double q = (initial - left) / initial * (n - 1);
    std::set<int> r;
    for (double e : {-1e-7, 0.0, 1e-7}) r.insert(std::min(n - 1, std::max(0, (int)std::floor(q + e))));
    return r;
}

static double snap(double f) { return std::fabs(f) < 1e-8 ? 0 : std::fabs(f - 1) < 1e-8 ? 1 : f; }

// All the states the action may lead to (several only if the ice left is at the limit between two rows).
static std::vector<State> apply(const State& a, const Act& act, const Spec& s, bool& open) {
    int c = 0;
    while (s.covers[c] != act.cover) ++c;
    std::vector<State> out;
    if (act.kind == 2) {
        State b = a;
        for (auto& u : b.x) if (u[c].f > 1e-8 && u[c].snow > 0) { u[c].ice += u[c].snow; u[c].snow = 0; }
        return {b};
    }
    const TableSpec& t = act.t;
    int n = (int)t.area.rows();
    if (act.kind == 0) {
        double v0 = t.volume.row(0).sum() * kDensity, v = 0;
        for (int u : t.units) if (a.x[u][c].f > 1e-8) v += a.x[u][c].f * s.units[u].area * a.x[u][c].ice;
        for (int row : rowsFor(v, v0, n)) {
            State b = a;
            double sum = t.volume.row(row).sum();
            for (size_t i = 0; i < t.units.size(); ++i) {
                int u = t.units[i];
                setFraction(b, u, c, snap(t.area(row, i) / s.units[u].area));
                double ar = t.area(row, i);
                if (!(sum > 0) && v > 0 && ar > 0) open = true;  // the table does not say where the ice is
                b.x[u][c].ice = ar > 1e-8 && sum > 0 ? v * t.volume(row, i) / sum / ar : 0;
            }
            out.push_back(b);
        }
        return out;
    }
    out = {a};
    for (size_t i = 0; i < t.units.size(); ++i) {
        int u = t.units[i];
        const Cell& x = a.x[u][c];
        if (x.f < 1e-8) continue;
        double v = x.f * s.units[u].area * x.ice;
        std::vector<State> next;
        if (v < 1e-8) {
            for (State b : out) { setFraction(b, u, c, 0); b.x[u][c].ice = 0; next.push_back(b); }
        } else
            for (int row : rowsFor(v, t.volume(0, i) * kDensity, n))
                for (State b : out) {
                    double ar = t.area(row, i), f = snap(ar / s.units[u].area);
                    setFraction(b, u, c, f);
                    if (ar > 1e-8) b.x[u][c].ice = v / ar;
                    else { b.x[u][c].ice = 0; }
                    next.push_back(b);
                }
        out = next;
    }
    return out;
}

static std::string differ(const State& e, const State& o, const Spec& s) {
    for (size_t u = 0; u < s.units.size(); ++u) {
        for (size_t c = 0; c < s.covers.size(); ++c) {
            const Cell &a = e.x[u][c], &b = o.x[u][c];
            if (!close(a.f, b.f, 2e-8)) return fmt("unit %d %s: fraction %.12g instead of %.12g", s.units[u].id, s.covers[c].c_str(), b.f, a.f);
            if (a.f > 0 && a.f < 1e-5) continue;  // the depths of a sliver are ill-conditioned
            if (s.ctypes[c] == "glacier" && !close(a.ice, b.ice, 1e-6, 1e-6)) return fmt("unit %d %s: ice %.12g instead of %.12g mm", s.units[u].id, s.covers[c].c_str(), b.ice, a.ice);
            if (!close(a.snow, b.snow, 1e-6, 1e-6)) return fmt("unit %d %s: snow %.12g instead of %.12g mm", s.units[u].id, s.covers[c].c_str(), b.snow, a.snow);
        }
        if (!close(e.other[u], o.other[u], 1e-6, 1e-9)) return fmt("unit %d: stored water %.12g instead of %.12g mm", s.units[u].id, o.other[u], e.other[u]);
    }
    return "";
}

static std::string undefinedIce(const State& o, const Spec& s) {
    for (size_t u = 0; u < s.units.size(); ++u)
        for (size_t c = 0; c < s.covers.size(); ++c) {
            const Cell& b = o.x[u][c];
            if (!std::isfinite(b.ice) || b.ice < 0 || !(b.f >= 0 && b.f <= 1)) return fmt("unit %d %s: ice %g mm on a fraction %g", s.units[u].id, s.covers[c].c_str(), b.ice, b.f);
        }
    return "";
}

static TableSpec randomTable(Rng& r, const Spec& s, size_t c, const std::vector<int>& units, std::vector<double>& room, const std::vector<double>& a0s) {
    TableSpec x;
    x.cover = s.covers[c];
    x.units = units;
    static const int special[] = {1, 2, 3, 11, 50, 99, 100, 101, 104, 108, 162, 188, 201};
    int rows = r.p(0.5) ? special[r.i(0, 12)] : r.i(2, 210), n = (int)units.size();
    x.area = axxd::Zero(rows, n); x.volume = axxd::Zero(rows, n);
    int shape = r.i(0, 9);  // 0: areas in any order, 1: growing, 2: no ice anywhere
    for (int i = 0; i < n; ++i) {
        double A = s.units[units[i]].area, a0 = a0s[i], depth = shape == 2 ? 0 : r.p(0.3) ? r.uni(0.05, 2) : r.uni(2, 80);
        if (r.p(0.06)) depth = 0;  // an extent without ice
        double pa = r.uni(0.3, 2), pv = pa + r.uni(0, 1), last = r.p(0.25) ? r.uni(0.4, 1) : r.p(0.2) ? r.uni(1, 1.5) : 1, grow = shape == 1 ? r.uni(0, 0.9) * room[units[i]] * A : 0;
        for (int k = 0; k < rows; ++k) {
            double q = rows == 1 ? 0 : std::min(1.0, (double)k / (rows - 1) / last);
            double a = k == 0 ? a0 : q >= 1 ? 0 : shape == 0 ? a0 * r.u() : a0 * std::pow(1 - q, pa) + grow * (a0 > 0 ? q : 0);
            x.area(k, i) = a;
            x.volume(k, i) = q >= 1 ? 0 : a0 * depth * std::pow(1 - q, pv);
        }
        if (grow > 0) room[units[i]] -= grow / A;
    }
    return x;
}

static void run(Ctx& c) {
    Rng& r = c.rng;
    Opts o;
    o.fams = {SOCONT, HBV};
    o.allowInfGlacier = false; o.allowSubdaily = true; o.allowExchange = true; o.allowMulti = r.p(0.3);
    o.minSteps = 5; o.maxSteps = c.thorough ? 400 : 120;
    Spec s;
    int tries = 0;
    do s = randomSpec(r, o);
    while ((s.infGl || std::find(s.ctypes.begin(), s.ctypes.end(), "glacier") == s.ctypes.end()) && ++tries < 200);
    if (std::find(s.ctypes.begin(), s.ctypes.end(), "glacier") == s.ctypes.end()) return;
    if (r.p(0.5)) { s.nsteps = r.i(60, c.thorough ? 800 : 250); randomForcing(r, s); }
    // The actions, in a random order of registration.
    std::vector<Act> acts;
    std::vector<double> room;  // share of the generic cover that is free
    for (auto& u : s.units) room.push_back(u.frac[0]);
    int mismatch = -1;
    auto monthOfRun = [&] { return std::stoi(dateStr(s.dateOf(r.i(0, s.nsteps - 1))).substr(5, 2)) % 12 + 1; };
    for (size_t k = 1; k < s.covers.size(); ++k) {
        if (s.ctypes[k] != "glacier") continue;
        if (r.p(0.9)) {
            std::vector<int> units;
            std::vector<double> a0;
            for (size_t u = 0; u < s.units.size(); ++u) {
                bool has = s.units[u].frac[k] > 0;
                if (has ? r.p(0.93) : !s.multi && r.p(0.4)) units.push_back((int)u);
            }
            for (size_t i = units.size(); i > 1; --i) std::swap(units[i - 1], units[r.i(0, (int)i - 1)]);
            if (units.empty()) continue;
            for (int u : units) {
                double A = s.units[u].area, f = s.units[u].frac[k];
                if (f == 0 && r.p(0.6)) { f = r.uni(0.01, 0.6) * room[u]; room[u] -= f; c.count("extents set by the action"); }
                a0.push_back(f * A);
            }
            Act a{r.i(0, 1), randomTable(r, s, k, units, room, a0), 0, 1, s.covers[k]};
            a.month = r.p(0.7) ? monthOfRun() : r.i(1, 12);
            if (mismatch < 0 && r.p(0.03) && s.units[units[0]].frac[k] > 0.001) { a.t.area(0, 0) *= r.p(0.5) ? 1.01 : 0.9; mismatch = (int)acts.size(); }
            acts.push_back(a);
        }
    }
    for (size_t k = 1; k < s.covers.size(); ++k)
        if (s.ctypes[k] == "glacier" && r.p(0.5)) {
            std::string ds = dateStr(s.dateOf(r.i(0, s.nsteps - 1)));
            Act a{2, {}, std::stoi(ds.substr(5, 2)), std::min(28, std::stoi(ds.substr(8, 2))), s.covers[k]};
            if (r.p(0.3) && !acts.empty()) { a.month = acts[0].month; a.day = 1; }
            acts.push_back(a);
        }
    if (acts.empty()) return;
    for (size_t i = acts.size(); i > 1 && mismatch < 0; --i) std::swap(acts[i - 1], acts[r.i(0, (int)i - 1)]);
    c.sample = s.describe();
    auto b = buildModel(s);
    ModelHydro& m = *b->model;
    State before = snapshot(m, s);
    for (size_t k = 0; k < acts.size(); ++k) {
        const Act& a = acts[k];
        c.sample += fmt(" | action %d on %s, month %d day %d, %ld rows, %zu units", a.kind, a.cover.c_str(), a.month, a.day, (long)a.t.area.rows(), a.t.units.size());
        axi ids(a.t.units.size());
        for (size_t i = 0; i < a.t.units.size(); ++i) ids[i] = s.units[a.t.units[i]].id;
        std::unique_ptr<Action> p;
        if (a.kind == 0) { auto d = std::make_unique<ActionGlacierEvolutionDeltaH>(); d->AddLookupTables(a.month, a.cover, ids, a.t.area, a.t.volume); p = std::move(d); }
        else if (a.kind == 1) { auto d = std::make_unique<ActionGlacierEvolutionAreaScaling>(); d->AddLookupTables(a.month, a.cover, ids, a.t.area, a.t.volume); p = std::move(d); }
        else p = std::make_unique<ActionGlacierSnowToIceTransformation>(a.month, a.day, a.cover);
        if (a.kind < 2 && r.p(0.03)) {  // tables that do not fit together
            axxd ar = a.t.area, vo = a.t.volume;
            axi id = ids;
            int n = (int)ar.rows(), k2 = (int)ar.cols(), h = r.i(0, 5);
            if (h == 0) ar = axxd::Zero(0, k2), vo = axxd::Zero(0, k2);
            if (h == 1) vo = axxd::Constant(n + 1, k2, 1.0);
            if (h == 2) vo = axxd::Constant(n, k2 + 1, 1.0);
            if (h == 3) { id = axi::Constant(k2 + 1, ids[0]); }
            if (h == 4) vo(n - 1, r.i(0, k2 - 1)) = r.p(0.5) ? NAN : -1;
            if (h == 5) ar(n - 1, r.i(0, k2 - 1)) = r.p(0.5) ? NAN : -1;
            bool took = true;
            try {
                if (a.kind == 0) { ActionGlacierEvolutionDeltaH x; x.AddLookupTables(a.month, a.cover, id, ar, vo); }
                else { ActionGlacierEvolutionAreaScaling x; x.AddLookupTables(a.month, a.cover, id, ar, vo); }
            } catch (const std::exception&) { took = false; }
            if (took) c.fail("bad-table-accepted", fmt("tables that do not fit together (case %d) were accepted; ", h) + c.sample);
            c.count("tables that do not fit together");
        }
        bool ok = m.AddAction(p.get());
        if ((int)k == mismatch) {
            if (ok) c.fail("mismatch-accepted", "a table whose initial area is not the area of the glacier in the model was accepted; " + c.sample);
            c.count("refused tables");
            b->actions.push_back(std::move(p));
            return;
        }
        if (!ok) { c.fail("action-refused", "action refused: " + capturedLog().substr(0, 300) + "; " + c.sample); return; }
        b->actions.push_back(std::move(p));
        if (a.kind < 2) {
            int cv = 0;
            while (s.covers[cv] != a.cover) ++cv;
            for (size_t i = 0; i < a.t.units.size(); ++i) {
                int u = a.t.units[i];
                setFraction(before, u, cv, snap(a.t.area(0, i) / s.units[u].area));
                before.x[u][cv].ice = a.t.area(0, i) > 0 ? a.t.volume(0, i) * kDensity / a.t.area(0, i) : 0;
            }
        }
    }
    std::string d = differ(before, snapshot(m, s), s);
    if (!d.empty()) c.fail("initial-state", "after adding the actions: " + d + "; " + c.sample);
    State init = snapshot(m, s), last = init;
    if (r.p(0.5)) {
        m.Reset();
        d = differ(init, snapshot(m, s), s);
        if (!d.empty()) c.fail("reset", "after a reset before any run: " + d + "; " + c.sample);
    }
    long step = 0;
    std::string when;
    Rng w(c.seed * 7919 + c.index * 31 + 5);
    bool writes = r.p(0.7);
    double q = writes ? r.uni(0, 0.5) : 0;
    onEvent() = [&](const char* ev, ModelHydro* mm) {
        std::string e = ev;
        if (e == "begin") {
            State now = snapshot(*mm, s);
            std::string un = undefinedIce(now, s);
            if (!un.empty()) c.fail("undefined-ice", "step " + std::to_string(step) + ": " + un + "; " + c.sample);
            // The days reached since the last step, and the actions due on them.
            long d1 = (long)std::floor(s.dateOf(step) + 1e-9), d0 = step == 0 ? d1 - 1 : (long)std::floor(s.dateOf(step - 1) + 1e-9);
            std::vector<State> cand = {last};
            int due = 0;
            bool open = false;
            for (long day = d0 + 1; day <= d1; ++day) {
                std::string ds = dateStr((double)day);
                for (auto& a : acts)
                    if (std::stoi(ds.substr(5, 2)) == a.month && std::stoi(ds.substr(8, 2)) == a.day) {
                        ++due;
                        std::vector<State> next;
                        for (auto& st : cand) for (auto& z : apply(st, a, s, open)) if (next.size() < 64) next.push_back(z);
                        cand = next;
                        c.count(a.kind == 0 ? "delta-h applications" : a.kind == 1 ? "area scaling applications" : "snow to ice applications");
                    }
            }
            if (!due) {
                for (size_t i = 0; i < now.raw.size(); ++i)
                    if (now.raw[i] != last.raw[i]) { c.fail("changed-without-action", fmt("step %ld: a content changed from %.12g to %.12g without any action due; ", step, last.raw[i], now.raw[i]) + c.sample); break; }
                for (size_t u = 0; u < s.units.size(); ++u)
                    for (size_t k = 0; k < s.covers.size(); ++k)
                        if (now.x[u][k].f != last.x[u][k].f) c.fail("changed-without-action", fmt("step %ld: an area fraction changed from %.12g to %.12g without any action due; ", step, last.x[u][k].f, now.x[u][k].f) + c.sample);
                c.count("steps without action");
            } else if (open) {
                c.count("tables without the place of the ice");
            } else {
                std::string first;
                bool ok = false;
                for (auto& z : cand) {
                    std::string x = differ(z, now, s);
                    if (x.empty()) { ok = true; break; }
                    if (first.empty()) first = x;
                }
                if (!ok) c.fail("application", fmt("step %ld (%s): ", step, dateStr(s.dateOf(step)).c_str()) + first + "; " + c.sample);
                c.count("applications checked");
                if (cand.size() > 1) c.count("at the limit of two rows");
                for (size_t u = 0; u < s.units.size(); ++u) for (size_t k = 1; k < s.covers.size(); ++k) if (std::fabs(now.x[u][k].f - last.x[u][k].f) > 1e-8) c.count(now.x[u][k].f == 0 ? "glaciers gone" : "extents changed");
            }
            ++step;
            return;
        }
        if (e == "step" && writes && w.p(q)) {  // another ice volume (melt or gain far beyond what the weather does)
            for (size_t u = 0; u < s.units.size(); ++u) {
                HydroUnit* hu = mm->GetSubBasin()->GetHydroUnitById(s.units[u].id);
                for (size_t k = 1; k < s.covers.size(); ++k) {
                    if (s.ctypes[k] != "glacier") continue;
                    LandCover* lc = hu->TryGetLandCover(s.covers[k]);
                    if (!lc) continue;
                    double x = w.u(), i0 = init.x[u][k].ice * (lc->GetAreaFraction() > 1e-6 ? init.x[u][k].f / lc->GetAreaFraction() : 1);
                    if (x < 0.3) continue;
                    lc->UpdateContent(x < 0.4 ? 0 : x < 0.5 ? i0 : x < 0.6 ? i0 * w.uni(1, 1.5) : x < 0.7 ? i0 * w.i(0, 10) / 10 : i0 * w.u(), ContentType::Ice);
                    if (w.p(0.1)) {
                        double g = hu->TryGetLandCover(s.covers[0])->GetAreaFraction();
                        if (hu->ChangeLandCoverAreaFraction(s.covers[k], w.p(0.5) ? lc->GetAreaFraction() * w.u() : lc->GetAreaFraction() + 0.5 * g * w.u())) c.count("other land cover changes");
                    }
                }
            }
        }
        last = snapshot(*mm, s);
    };
    int runs = r.i(1, 2);
    State base = init;
    for (int k = 0; k < runs; ++k) {
        step = 0;
        last = snapshot(m, s);
        std::string er;
        try {
            auto rr = m.Run();
            if (!rr) er = rr.error();
            else if (step == 0) er = "no step";
        } catch (const std::exception& e) { er = e.what() + (" " + capturedLog()); }
        if (!er.empty()) {
            if (er.find("too high") == std::string::npos && er.find("not large enough") == std::string::npos) c.fail("run-refused", er + " " + capturedLog().substr(0, 300) + "; " + c.sample);
            c.count("refused runs");
            break;
        }
        State end = snapshot(m, s);
        std::string un = undefinedIce(end, s);
        if (!un.empty()) c.fail("undefined-ice", "at the end: " + un + "; " + c.sample);
        bool adopt = r.p(0.3);
        if (adopt) { base = end; m.SaveAsInitialState(); c.count("adopted states"); }
        m.Reset();
        d = differ(base, snapshot(m, s), s);
        if (!d.empty()) c.fail("reset", fmt("after a reset%s: ", adopt ? " to the adopted state" : "") + d + "; " + c.sample);
        if (adopt && r.p(0.7))  // the glaciers recover
            for (size_t u = 0; u < s.units.size(); ++u)
                for (size_t k2 = 1; k2 < s.covers.size(); ++k2)
                    if (auto* lc = s.ctypes[k2] == "glacier" ? m.GetSubBasin()->GetHydroUnitById(s.units[u].id)->TryGetLandCover(s.covers[k2]) : nullptr)
                        if (lc->GetAreaFraction() > 1e-6) lc->UpdateContent(init.x[u][k2].ice * init.x[u][k2].f / lc->GetAreaFraction(), ContentType::Ice);
    }
    onEvent() = nullptr;
    c.signature = s.shortSig() + fmt("|%zu|%d|%d", acts.size(), acts[0].kind, (int)acts[0].t.area.rows());
}

Check mon::GetCheck() {
    return {"G01", 10000, 60000, run,
            "after every application of a glacier evolution table the areas and the ice of all units are those of the table row for the ice lost so far "
            "(shadow model of both table actions and of the snow-to-ice action, snow moving with the land), on other days nothing changes, the ice is defined and "
            "not negative, a reset restores the extents and ice of the first row or of the adopted state, tables not starting at the model's areas are refused"};
}
