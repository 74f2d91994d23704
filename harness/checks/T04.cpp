// Scheduled actions: the extents and the snow-to-ice transfers observed at the beginning of every step against an own calendar.
#include "ActionGlacierSnowToIceTransformation.h"
#include "gen.h"
using namespace mon;
using namespace gen;

namespace {
struct Item { long at; int unit, cover; double frac; int seq; };  // minutes after the start of the period
long firstStep(long at, long sm) { return at <= 0 ? 0 : (at + sm - 1) / sm; }
// An action that only records the calls it receives.
struct Call { long step; int probe, tag; };
struct Probe : Action {
    std::vector<int> tags;  // of the dated items, in the order of their dates
    std::vector<Call>* log = nullptr;
    const long* step = nullptr;
    int id = 0;
    void Reset() override {}
    void add(double date, int tag) {
        int k = GetIndexForInsertion(date);
        _sporadicDates.insert(_sporadicDates.begin() + k, date);
        tags.insert(tags.begin() + k, tag);
    }
    bool Apply(double) override {
        log->push_back({*step, id, _recursive ? -1 : _cursor >= 0 && _cursor < (int)tags.size() ? tags[_cursor] : -2 - _cursor});
        return true;
    }
};
struct Due { long at; int probe, tag; };  // at: minutes after the start of the first day
}  // namespace

static void run(Ctx& c) {
    Rng& r = c.rng;
    Opts o;
    o.fams = {SOCONT, HBV};
    o.maxUnits = 3;
    o.allowLateral = false;
    o.allowMulti = r.p(0.2);
    o.solvers = {"euler_explicit", "rk4", "implicit_euler"};
    Spec s;
    bool glacier = false;
    o.allowInfGlacier = r.p(0.1);  // ice without limit takes no recurring transfer
    do {
        s = randomSpec(r, o);
        glacier = false;
        for (auto& t : s.ctypes) glacier |= t == "glacier";
    } while (s.covers.size() < 2 || (!glacier && r.p(0.7)));
    static const std::vector<int> D{1, 1, 1, 1, 1, 2, 2, 3, 5, 10, 30, 31, 45, 92, 365}, H{1, 3, 6, 7, 12, 24, 36}, M{30, 45, 90, 360, 1440, 2000};
    double q = r.u();
    if (q < 0.5) { s.stepUnit = "day"; s.stepN = r.pick(D); }
    else if (q < 0.85) { s.stepUnit = "hour"; s.stepN = r.pick(H); }
    else { s.stepUnit = "minute"; s.stepN = r.pick(M); }
    long sm = s.stepMinutes();
    s.nsteps = r.p(0.1) ? r.i(1, 4) : r.i(10, c.thorough ? 900 : 250);
    if (r.p(0.4)) s.startMin = r.p(0.5) ? 60 * r.i(0, 23) : r.i(0, 1439);
    if (r.p(0.4)) s.endExtraMin = r.i(0, (int)sm - 1);
    if (r.p(0.3)) { s.y0 = r.pick(std::vector<int>{1903, 1999, 2000, 2023, 2024, 2095}); if (r.p(0.5)) { s.m0 = 2; s.d0 = r.i(20, 28); } else { s.m0 = 12; s.d0 = r.i(20, 31); } }
    while (s.dateOf(s.nsteps + 1) > 88400) s.nsteps /= 2;
    if (s.nsteps < 1) { s.nsteps = 1; s.y0 = 2024; }
    s.dataBefore = r.i(0, 2); s.dataAfter = r.i(1, 3);
    s.spinup = r.p(0.2) ? r.i(1, 40) : 0;
    randomForcing(r, s);
    for (auto& [n, f] : s.forcing) {
        if (n == "precipitation") f = f.min(20 * s.stepDays()) + 0.5 * s.stepDays();
        if (n.starts_with("temperature")) f = f.min(n == "temperature_min" ? -9.0 : n == "temperature_max" ? -3.0 : -6.0);  // it snows and nothing melts
    }
    auto b = buildModel(s);
    ModelHydro& m = *b->model;

    // Changes in chronological order, then registered in any order (those of the same date in this order).
    std::vector<Item> items;
    int n = r.p(0.1) ? 0 : r.i(1, 9);
    long span = sm * s.nsteps;
    for (int i = 0; i < n; ++i) {
        double w = r.u();
        long at;
        if (w < 0.12) at = -(long)r.i(1, 400) * (r.p(0.5) ? 1440 : 61);
        else if (w < 0.2) at = 0;
        else if (w < 0.5) at = sm * r.i(0, s.nsteps - 1);
        else if (w < 0.8) at = r.i(0, (int)std::min<long>(span, 2000000000L));
        else if (w < 0.86) at = sm * (s.nsteps - 1);
        else if (w < 0.93) at = sm * (s.nsteps - 1) + r.i(1, (int)sm);
        else at = span + (long)r.i(0, 400) * 1440;
        items.push_back({at, 0, 0, 0, 0});
        if (r.p(0.25) && i + 1 < n) { items.push_back(items.back()); ++i; }
    }
    std::stable_sort(items.begin(), items.end(), [](const Item& a, const Item& z) { return a.at < z.at; });
    {
        std::vector<std::vector<double>> f;
        for (auto& u : s.units) f.push_back(u.frac);
        std::vector<Item> kept;
        for (auto& it : items) {
            it.unit = r.i(0, (int)s.units.size() - 1);
            HydroUnit* u = m.GetSubBasin()->GetHydroUnit(it.unit);
            if (u->GetId() != s.units[it.unit].id) for (int k = 0; k < m.GetSubBasin()->GetHydroUnitCount(); ++k) if (m.GetSubBasin()->GetHydroUnit(k)->GetId() == s.units[it.unit].id) u = m.GetSubBasin()->GetHydroUnit(k);
            it.cover = r.i(1, (int)s.covers.size() - 1);
            if (!u->HasBrick(s.covers[it.cover])) continue;
            double top = f[it.unit][it.cover] + f[it.unit][0];
            it.frac = r.p(0.15) ? 0 : r.uni(0, top * 0.999);
            if (it.frac < 1e-7) it.frac = 0;
            f[it.unit][0] = top - it.frac;
            f[it.unit][it.cover] = it.frac;
            it.seq = (int)kept.size();
            kept.push_back(it);
        }
        items = kept;
    }
    int objects = r.i(1, 3);
    std::vector<std::pair<int, Item>> reg;
    for (auto& it : items) reg.push_back({r.i(0, objects - 1), it});
    for (size_t i = reg.size(); i > 1; --i) std::swap(reg[i - 1], reg[r.i(0, (int)i - 1)]);
    for (size_t i = 0; i < reg.size(); ++i)  // same date: same object, generation order
        for (size_t k = 0; k < i; ++k)
            if (reg[i].second.at == reg[k].second.at) { reg[i].first = reg[k].first; if (reg[k].second.seq > reg[i].second.seq) std::swap(reg[i].second, reg[k].second); }
    c.sample = fmt("start+%dmin end+%dmin %d action(s)", s.startMin, s.endExtraMin, objects);
    for (auto& [k, it] : reg) c.sample += fmt(" [%d: %+ldmin #%d:%s=%.9g]", k, it.at, it.unit, s.covers[it.cover].c_str(), it.frac);
    std::vector<std::tuple<int, int, std::string>> rec;
    for (size_t k = 1; k < s.covers.size(); ++k)
        if (s.ctypes[k] == "glacier" && !s.infGl && r.p(0.6)) {
            int mo = r.i(1, 12), d = r.i(1, 28);
            if (r.p(0.6)) {  // within the period
                std::string ds = dateStr(s.dateOf(r.i(0, s.nsteps - 1)));
                mo = std::stoi(ds.substr(5, 2)); d = std::stoi(ds.substr(8, 2));
                if (mo == 2 && d == 29) d = 28;
            }
            rec.push_back({mo, d, s.covers[k]});
            c.sample += fmt(" [%d-%d:%s]", mo, d, s.covers[k].c_str());
        }
    c.sample += " " + s.describe();
    std::vector<std::unique_ptr<Action>> acts;
    for (int k = 0; k < objects; ++k) {
        auto a = std::make_unique<ActionLandCoverChange>();
        int cnt = 0;
        for (auto& [w, it] : reg)
            if (w == k) {
                long d0 = civilToMjd(s.y0, s.m0, s.d0), min = s.startMin + it.at;
                a->AddChange((double)d0 + (double)min / 1440.0, s.units[it.unit].id, s.covers[it.cover], it.frac * s.units[it.unit].area);
                ++cnt;
            }
        if (cnt || r.p(0.2)) acts.push_back(std::move(a));
    }
    for (auto& [mo, d, cv] : rec) acts.push_back(std::make_unique<ActionGlacierSnowToIceTransformation>(mo, d, cv));
    // Probes: dated and recurring, often of the same dates.
    std::vector<Call> calls;
    long step = 0;
    std::vector<Due> dated;
    std::vector<std::pair<int, std::vector<std::pair<int, int>>>> recurring;
    int probeItems = 0;
    if (r.p(0.5)) {
        int np = r.i(1, 4);
        std::vector<long> ats;
        for (int i = r.i(1, 5); i > 0; --i) {
            double w = r.u();
            ats.push_back(w < 0.15 ? -(long)r.i(1, 5000) : w < 0.3 ? 0 : w < 0.6 ? sm * r.i(0, s.nsteps - 1) : w < 0.7 ? 1440L * r.i(0, (int)std::min<long>(span / 1440, 100000)) - s.startMin : w < 0.95 ? r.i(0, (int)std::min<long>(span, 2000000000L)) : span + r.i(0, 3000));
        }
        for (int p = 0; p < np; ++p) {
            auto a = std::make_unique<Probe>();
            a->id = p; a->log = &calls; a->step = &step;
            if (r.p(0.6)) {
                int k = r.i(1, 6);
                for (int t = 0; t < k; ++t) {
                    long at = r.pick(ats);
                    a->add((double)civilToMjd(s.y0, s.m0, s.d0) + (double)(s.startMin + at) / 1440.0, t);
                    dated.push_back({s.startMin + at, p, t});
                    c.sample += fmt(" [probe %d.%d: %+ldmin]", p, t, at);
                    ++probeItems;
                }
            } else {
                std::vector<std::pair<int, int>> v;
                for (int k = r.i(1, 3); k > 0; --k) {
                    std::string ds = dateStr(r.p(0.7) ? s.dateOf(r.i(0, s.nsteps - 1)) : s.dateOf(0) + r.i(0, 400));
                    std::pair<int, int> md{std::stoi(ds.substr(5, 2)), std::stoi(ds.substr(8, 2))};
                    if (md.first == 2 && md.second == 29) md.second = 28;
                    if (std::find(v.begin(), v.end(), md) != v.end()) continue;
                    v.push_back(md);
                    a->AddRecursiveDate(md.first, md.second);
                    c.sample += fmt(" [probe %d: %d-%d]", p, md.first, md.second);
                }
                recurring.push_back({p, v});
            }
            acts.push_back(std::move(a));
        }
    }
    for (size_t i = acts.size(); i > 1; --i) std::swap(acts[i - 1], acts[r.i(0, (int)i - 1)]);
    std::map<int, int> rank;  // order in which the probes are added
    for (auto& a : acts) if (auto* p = dynamic_cast<Probe*>(a.get())) { int k = (int)rank.size(); rank[p->id] = k; }
    bool ordered = true;  // equal dates are all in one object
    (void)ordered;
    for (auto& a : acts) if (!m.AddAction(a.get())) { c.fail("refused", "valid action refused: " + capturedLog().substr(0, 300) + c.sample); return; }
    if (m.GetSporadicActionItemCount() != (int)items.size() + probeItems) c.fail("count", fmt("%d items registered of %zu ", m.GetSporadicActionItemCount(), items.size() + probeItems) + c.sample);

    struct Cell { LandCover* lc; int unit, cover; };
    std::vector<Cell> cells;
    struct Gl { Brick *ice, *snow; LandCover* lc; int unit; std::string cover; };
    std::vector<Gl> gls;
    for (int k = 0; k < m.GetSubBasin()->GetHydroUnitCount(); ++k) {
        HydroUnit* u = m.GetSubBasin()->GetHydroUnit(k);
        int pos = -1;
        for (size_t j = 0; j < s.units.size(); ++j) if (s.units[j].id == u->GetId()) pos = (int)j;
        for (size_t cv = 0; cv < s.covers.size(); ++cv)
            if (LandCover* lc = u->TryGetLandCover(s.covers[cv])) {
                cells.push_back({lc, pos, (int)cv});
                if (s.ctypes[cv] == "glacier") gls.push_back({lc, u->TryGetBrick(s.covers[cv] + "_snowpack"), lc, pos, s.covers[cv]});
            }
    }
    // The recurring actions due at the beginning of each step.
    long d0 = civilToMjd(s.y0, s.m0, s.d0);
    auto due = [&](long t, int mo, int d) {
        long day1 = d0 + (s.startMin + t * sm) / 1440, day0 = t == 0 ? day1 : d0 + (s.startMin + (t - 1) * sm) / 1440 + 1;
        for (long x = day0; x <= day1; ++x) {
            std::string ds = dateStr((double)x);
            if (std::stoi(ds.substr(5, 2)) == mo && std::stoi(ds.substr(8, 2)) == d) return true;
        }
        return false;
    };
    // What the probes must receive, in chronological order.
    struct Exp { long step, at; bool rec; int rank, tag, probe; };
    std::vector<Exp> exp;
    for (auto& d : dated) {
        long f = firstStep(d.at - s.startMin, sm);
        if (f < s.nsteps) exp.push_back({f, d.at, false, rank[d.probe], d.tag, d.probe});
    }
    if (!recurring.empty())
        for (long t = 0; t < s.nsteps; ++t) {
            long day1 = (s.startMin + t * sm) / 1440, day0 = t == 0 ? day1 : (s.startMin + (t - 1) * sm) / 1440 + 1;
            for (long x = day0; x <= day1; ++x) {
                std::string ds = dateStr((double)(d0 + x));
                std::pair<int, int> md{std::stoi(ds.substr(5, 2)), std::stoi(ds.substr(8, 2))};
                for (auto& [p, v] : recurring) if (std::find(v.begin(), v.end(), md) != v.end()) exp.push_back({t, x * 1440, true, rank[p], -1, p});
            }
        }
    std::vector<double> prevSnow(gls.size(), 0), prevIce(gls.size(), 0), prevFrac(gls.size(), 0);
    auto remember = [&] {
        for (size_t k = 0; k < gls.size(); ++k) {
            prevSnow[k] = gls[k].snow ? gls[k].snow->GetContent(ContentType::Snow) : 0;
            prevIce[k] = gls[k].ice->GetContent(ContentType::Ice);
            prevFrac[k] = gls[k].lc->GetAreaFraction();
        }
    };
    int runNo = 0;
    onEvent() = [&](const char* ev, ModelHydro* mm) {
        if (mm != &m) return;
        std::string e = ev;
        if (e == "spinup") {
            for (auto& x : cells) if (x.lc->GetAreaFraction() != s.units[x.unit].frac[x.cover] && std::fabs(x.lc->GetAreaFraction() - s.units[x.unit].frac[x.cover]) > 1e-9) c.fail("spin-up", fmt("run %d: unit #%d %s covers %.12g during the spin-up ", runNo, x.unit, s.covers[x.cover].c_str(), x.lc->GetAreaFraction()) + c.sample);
            remember();
            return;
        }
        if (e == "step") { ++step; remember(); return; }
        // Extents.
        std::map<std::pair<int, int>, double> want;
        for (size_t j = 0; j < s.units.size(); ++j) for (size_t k = 0; k < s.covers.size(); ++k) want[{(int)j, (int)k}] = s.units[j].frac[k];
        std::set<std::pair<int, int>> now;
        for (auto& it : items) {
            if (firstStep(it.at, sm) > step) break;
            want[{it.unit, 0}] += want[{it.unit, it.cover}] - it.frac;
            want[{it.unit, it.cover}] = it.frac;
            if (firstStep(it.at, sm) == step) { now.insert({it.unit, it.cover}); c.count(it.at < 0 ? "applied: before the period" : it.at == 0 ? "applied: at the start" : it.at % sm ? "applied: between two steps" : "applied: on a step"); }
        }
        for (auto& x : cells) {
            double f = x.lc->GetAreaFraction(), w = want[{x.unit, x.cover}];
            c.count("extents");
            if (std::fabs(f - w) > (x.cover ? 1e-12 : 1e-9))
                c.fail("extent", fmt("run %d step %ld (%s): unit #%d %s covers %.12g, %.12g scheduled ", runNo, step, dateStr(s.dateOf(step)).c_str(), x.unit, s.covers[x.cover].c_str(), f, w) + c.sample);
        }
        // Snow to ice.
        for (size_t k = 0; k < gls.size(); ++k) {
            if (!gls[k].snow || now.size()) continue;  // changes of the extents move snow as well
            bool want2 = false;
            for (auto& [mo, d, cv] : rec) want2 |= cv == gls[k].cover && due(step, mo, d);
            double sn = gls[k].snow->GetContent(ContentType::Snow), ice = gls[k].ice->GetContent(ContentType::Ice);
            want2 = want2 && gls[k].lc->GetAreaFraction() > 1e-8;
            if (want2) c.count(prevSnow[k] > 0 ? "recurring: snow became ice" : "recurring: no snow");
            c.count("recurring checks");
            double ws = want2 ? 0 : prevSnow[k], wi = want2 && !s.infGl ? prevIce[k] + prevSnow[k] : prevIce[k];
            if (sn != ws || (!s.infGl && std::fabs(ice - wi) > 1e-9 * (1 + wi)))
                c.fail("recurring", fmt("run %d step %ld (%s): unit #%d %s: snow %.12g -> %.12g, ice %.12g -> %.12g, %s ", runNo, step, dateStr(s.dateOf(step)).c_str(), gls[k].unit, gls[k].cover.c_str(), prevSnow[k], sn, prevIce[k], ice, want2 ? "due" : "not due") + c.sample);
        }
    };
    int runs = r.p(0.5) ? 2 : 1;
    for (runNo = 0; runNo < runs; ++runNo) {
        step = 0;
        m.Reset();
        calls.clear();
        remember();
        try {
            runModel(*b);
        } catch (const std::runtime_error& e) {
            if (std::string(e.what()).find("is too high") == std::string::npos) throw;
            c.count("refused: rate beyond the supported range");
            onEvent() = nullptr;
            return;
        }
        c.count("runs");
        // Each call once, at its step; chronological, and those of one date in the order added.
        std::vector<bool> used(calls.size(), false);
        std::vector<long> pos(exp.size(), -1);
        for (size_t k = 0; k < exp.size(); ++k) {
            for (size_t i = 0; i < calls.size() && pos[k] < 0; ++i)
                if (!used[i] && calls[i].probe == exp[k].probe && calls[i].tag == exp[k].tag && calls[i].step == exp[k].step) {
                    bool sooner = false;  // several days of one recurring action within a step
                    for (size_t k2 = 0; k2 < k && exp[k].rec; ++k2) sooner |= pos[k2] == (long)i;
                    if (!sooner) { pos[k] = (long)i; used[i] = true; }
                }
            if (pos[k] < 0) c.fail("call missing", fmt("run %d: the action %d.%d of %+ld min was not called at step %ld ", runNo, exp[k].probe, exp[k].tag, exp[k].at - s.startMin, exp[k].step) + c.sample);
            c.count(exp[k].rec ? "calls: recurring" : "calls: dated");
        }
        for (size_t i = 0; i < calls.size(); ++i) if (!used[i]) c.fail("call too many", fmt("run %d: the action %d.%d was called at step %ld ", runNo, calls[i].probe, calls[i].tag, calls[i].step) + c.sample);
        for (size_t a = 0; a < exp.size(); ++a)
            for (size_t z = 0; z < exp.size(); ++z) {
                if (exp[a].step != exp[z].step || pos[a] < 0 || pos[z] < 0) continue;
                bool before = exp[a].at < exp[z].at;
                if (exp[a].at == exp[z].at && exp[a].rec == exp[z].rec) before = std::pair(exp[a].rank, exp[a].tag) < std::pair(exp[z].rank, exp[z].tag);
                if (!before) continue;
                c.count("calls: ordered pairs");
                if (pos[a] > pos[z]) c.fail("call order", fmt("run %d step %ld: the action %d.%d (%+ld min) was called after %d.%d (%+ld min) ", runNo, exp[a].step, exp[a].probe, exp[a].tag, exp[a].at - s.startMin, exp[z].probe, exp[z].tag, exp[z].at - s.startMin) + c.sample);
            }
        if (step != s.nsteps) c.fail("steps", fmt("%ld steps of %d ", step, s.nsteps) + c.sample);
    }
    onEvent() = nullptr;
    c.signature = fmt("%d%s/%zu/%zu/%d/%d", s.stepN, s.stepUnit.c_str(), items.size(), rec.size(), s.startMin, s.nsteps);
}

Check mon::GetCheck() { return {"T04", 20000, 100000, run, "distinct schedule and time step with the extents and snow-to-ice transfers of every step compared with the calendar"}; }
