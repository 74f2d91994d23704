// Forcing: at every simulated date each unit is driven by the value given for that date and unit; unusable forcing is refused.
#include "gen.h"
#include "Forcing.h"
#include "TimeSeriesData.h"
#include "TimeSeriesDistributed.h"
#include "TimeSeriesUniform.h"
using namespace mon;
using namespace gen;

static VariableType typeOf(const std::string& n) {
    if (n == "precipitation") return VariableType::Precipitation;
    if (n == "temperature") return VariableType::Temperature;
    if (n == "temperature_min") return VariableType::TemperatureMin;
    if (n == "temperature_max") return VariableType::TemperatureMax;
    if (n == "solar_radiation") return VariableType::Radiation;
    return VariableType::PET;
}

static Spec pick(Ctx& c) {
    Opts o;
    o.maxUnits = 6;
    o.maxSteps = c.thorough ? 300 : 80;
    Spec s = randomSpec(c.rng, o);
    bool gr = s.fam == GR4J || s.fam == GR6J;
    if (!gr && c.rng.p(0.6)) {
        double q = c.rng.u();
        static const std::vector<int> D{2, 3, 5, 7}, H{1, 2, 3, 4, 5, 6, 7, 8, 12, 24, 36}, M{15, 20, 30, 45, 60, 70, 90, 120, 180, 360, 1440};
        if (q < 0.3) { s.stepUnit = "day"; s.stepN = c.rng.pick(D); }
        else if (q < 0.7) { s.stepUnit = "hour"; s.stepN = c.rng.pick(H); }
        else { s.stepUnit = "minute"; s.stepN = c.rng.pick(M); }
        if (c.rng.p(0.5)) s.startMin = c.rng.p(0.5) ? 60 * c.rng.i(0, 23) : c.rng.i(0, 1439);
    }
    if (c.rng.p(0.3)) s.dataBefore = c.rng.i(0, 1500);
    if (c.rng.p(0.3)) s.dataAfter = c.rng.i(0, 300);
    if (s.spinup > 0) s.spinup = c.rng.i(1, 60);
    if (c.rng.p(0.5)) {  // identifiers unrelated to positions
        for (auto& u : s.units) u.id = u.id * 3 + 1;
        for (auto& l : s.lats) { l.giver = l.giver * 3 + 1; l.receiver = l.receiver * 3 + 1; }
    }
    if (c.rng.p(0.3)) std::reverse(s.units.begin(), s.units.end());
    randomForcing(c.rng, s);
    for (auto& [n, f] : s.forcing) if (n == "precipitation") f = f.min(30.0 * std::min(1.0, s.stepDays()) + 1);
    return s;
}

// Attaches the forcing with shuffled columns and columns of foreign units; own = the columns in the order given.
static axi shuffledIds(Ctx& c, const Spec& s, std::vector<int>& from) {
    int nu = (int)s.units.size(), extra = c.rng.p(0.4) ? c.rng.i(1, 3) : 0;
    std::vector<int> ids;
    for (int j = 0; j < nu; ++j) { ids.push_back(s.units[j].id); from.push_back(j); }
    for (int k = 0; k < extra; ++k) { ids.push_back(100000 + k); from.push_back(-1 - k); }
    for (size_t k = ids.size() - 1; k > 0; --k) {
        size_t j = (size_t)c.rng.i(0, (int)k);
        std::swap(ids[k], ids[j]); std::swap(from[k], from[j]);
    }
    axi a(ids.size());
    for (size_t k = 0; k < ids.size(); ++k) a[k] = ids[k];
    return a;
}

static TimeUnit unitOf(const Spec& s) { return s.stepUnit == "day" ? TimeUnit::Day : s.stepUnit == "hour" ? TimeUnit::Hour : TimeUnit::Minute; }

// The values of one unit as a series of its own; asked for at dates in and out of it.
static std::unique_ptr<TimeSeriesData> series(Ctx& c, const Spec& s, const std::vector<double>& v, long first) {
    auto d = std::make_unique<TimeSeriesDataRegular>(s.dateOf(first), s.dateOf(first + (long)v.size() - 1), s.stepN, unitOf(s));
    if (!d->SetValues(vecDouble(v.begin(), v.end()))) { c.fail("series refused", s.describe()); return nullptr; }
    for (int k = 0; k < 3; ++k) {
        long i = c.rng.i(0, (int)v.size() - 1);
        double within = c.rng.p(0.5) || i + 1 == (long)v.size() ? 0 : c.rng.uni(0.01, 0.99);
        double got = NAN;
        try { got = d->GetValueFor(s.dateOf(first + i) + within * s.stepDays()); } catch (const std::exception& e) { c.fail("series date", std::string(e.what()) + " " + c.sample); }
        c.count("dates asked");
        if (got != v[i]) c.fail("series value", fmt("row %ld + %g: %.17g, given %.17g ", i, within, got, v[i]) + c.sample);
    }
    for (int side = 0; side < 2; ++side) {
        double off = s.stepDays() * (c.rng.p(0.5) ? c.rng.uni(0.01, 0.99) : c.rng.logu(1, 1e4));
        double date = side ? s.dateOf(first + (long)v.size() - 1) + off : s.dateOf(first) - off;
        bool thrown = false;
        try { d->GetValueFor(date); } catch (const std::exception&) { thrown = true; }
        c.count("dates out of a series asked");
        if (!thrown) c.fail("series out of range", fmt("a value %g steps %s the data ", off / s.stepDays(), side ? "after" : "before") + c.sample);
    }
    return d;
}

static void valid(Ctx& c) {
    Spec s = pick(c);
    c.sample = fmt("start+%dmin ", s.startMin) + s.describe();
    auto b = buildModel(s, false);
    ModelHydro& m = *b->model;
    long rows = s.dataBefore + s.nsteps + s.dataAfter;
    axd time(rows);
    for (long t = 0; t < rows; ++t) time[t] = s.dateOf(t - s.dataBefore) + s.jitter * std::cos(t) / 86400;
    bool byHand = c.rng.p(0.25);
    for (auto& [name, data] : s.forcing) {
        std::vector<int> from;
        axi ids = shuffledIds(c, s, from);
        if (byHand) {
            auto column = [&](int j) { std::vector<double> v(rows, 777.0); if (j >= 0) for (long t = 0; t < rows; ++t) v[t] = data(t, j); return v; };
            bool ok;
            if (c.rng.p(0.3)) {  // one series for all the units
                for (long j = 1; j < data.cols(); ++j) data.col(j) = data.col(0).eval();
                auto u = std::make_unique<TimeSeriesUniform>(typeOf(name));
                u->SetData(series(c, s, column(0), -s.dataBefore));
                ok = m.AddTimeSeries(std::move(u));
                c.count("uniform series");
            } else {
                auto u = std::make_unique<TimeSeriesDistributed>(typeOf(name));
                for (long k = 0; k < ids.size(); ++k) u->AddData(series(c, s, column(from[k]), -s.dataBefore), ids[k]);
                ok = m.AddTimeSeries(std::move(u));
                c.count("series of units");
            }
            if (!ok) { c.fail("refused", "valid series '" + name + "' refused: " + capturedLog().substr(0, 300) + c.sample); return; }
            continue;
        }
        axxd d(rows, ids.size());
        for (long k = 0; k < ids.size(); ++k)
            for (long t = 0; t < rows; ++t) d(t, k) = from[k] >= 0 ? data(t, from[k]) : 777.0;
        if (!m.CreateTimeSeries(name, time, ids, d)) { c.fail("refused", "valid forcing '" + name + "' refused: " + capturedLog().substr(0, 300) + c.sample); return; }
    }
    if (!m.AttachTimeSeriesToHydroUnits()) { c.fail("refused", "valid forcing cannot be attached " + c.sample); return; }
    long step = 0, spin = 0;
    auto look = [&](long t, const char* what) {
        for (int j = 0; j < m.GetSubBasin()->GetHydroUnitCount(); ++j) {
            HydroUnit* u = m.GetSubBasin()->GetHydroUnit(j);
            size_t col = 0;
            while (s.units[col].id != u->GetId()) ++col;
            for (auto& [name, data] : s.forcing) {
                VariableType ty = typeOf(name);
                if (!u->HasForcing(ty)) continue;
                if (ty == VariableType::PET && (s.fam == GR4J || s.fam == GR6J)) continue;  // reduced by the interception during the step
                double v = u->GetForcing(ty)->GetValue(), want = data(s.dataBefore + t, col);
                c.count("values compared");
                if (v != want) c.fail(std::string("value") , fmt("%s step %ld unit %d %s: %.17g, given %.17g ", what, t, u->GetId(), name.c_str(), v, want) + c.sample);
            }
        }
    };
    onEvent() = [&](const char* ev, ModelHydro*) {
        if (ev[1] == 'e') return;
        if (ev[1] == 'p') look(spin++, "spin-up"); else look(step++, "run");
    };
    int runs = c.rng.p(0.35) ? 2 : 1;
    for (int r = 0; r < runs; ++r) {
        step = spin = 0;
        m.Reset();
        runModel(*b);
        if (step != s.nsteps) c.fail("steps", fmt("run %d: %ld steps of %d ", r, step, s.nsteps) + c.sample);
        c.count("runs");
    }
    c.count("step unit: " + s.stepUnit);
    if (s.dataBefore) c.count("data before the period");
    c.signature = s.shortSig() + fmt("/%d%s/%d/-%d+%d", s.stepN, s.stepUnit.c_str(), s.startMin, s.dataBefore, s.dataAfter);
}

static void invalid(Ctx& c) {
    Spec s = pick(c);
    auto b = buildModel(s, false);
    ModelHydro& m = *b->model;
    static const std::vector<std::string> kinds{"late start", "early end", "rows", "columns", "missing unit", "duplicate unit", "missing variable", "unknown variable",
                                                "other step", "empty", "single date", "irregular", "not a date", "given twice", "unlike units", "never attached", "cleared", "half attached"};
    std::string kind = c.rng.pick(kinds);
    std::vector<std::string> names;
    for (auto& [n, d] : s.forcing) {
        // A variable the model does not need may be missing: only break those used by a unit.
        if (m.GetSubBasin()->GetHydroUnit(0)->HasForcing(typeOf(n))) names.push_back(n);
    }
    if (names.empty() || (kind == "unlike units" && s.units.size() < 2)) return;
    std::string bad = c.rng.pick(names);
    c.sample = kind + " in " + bad + " " + s.describe();
    long rows = s.dataBefore + s.nsteps + s.dataAfter;
    int nu = (int)s.units.size();
    std::string refusedAt;
    try {
        for (auto& [name, data] : s.forcing) {
            axd time(rows); axi ids(nu); axxd d = data;
            for (long t = 0; t < rows; ++t) time[t] = s.dateOf(t - s.dataBefore);
            for (int j = 0; j < nu; ++j) ids[j] = s.units[j].id;
            std::string nm = name;
            if (name == bad) {
                if (kind == "late start") { long k = s.dataBefore + c.rng.i(1, std::max(1, s.nsteps / 2)); long n = rows - k; time = axd(time.tail(n)); d = axxd(d.bottomRows(n)); }
                if (kind == "early end") { long k = s.dataAfter + c.rng.i(1, std::max(1, s.nsteps / 2)); long n = rows - k; time = axd(time.head(n)); d = axxd(d.topRows(n)); }
                if (kind == "rows") { long n = c.rng.p(0.5) ? rows - 1 : rows + 1; axxd e = axxd::Zero(n, nu); for (long t = 0; t < std::min(n, rows); ++t) e.row(t) = d.row(t); d = e; }
                if (kind == "columns") { axxd e = axxd::Zero(rows, c.rng.p(0.5) ? nu + 1 : nu - 1); d = e; }
                if (kind == "missing unit") ids[c.rng.i(0, nu - 1)] = 424242;
                if (kind == "duplicate unit") { axi e(nu + 1); axxd f(rows, nu + 1); for (int j = 0; j < nu; ++j) { e[j] = ids[j]; f.col(j) = d.col(j); } e[nu] = ids[c.rng.i(0, nu - 1)]; f.col(nu) = d.col(0) + 1.0; ids = e; d = f; }
                if (kind == "missing variable") continue;
                if (kind == "unknown variable") nm = c.rng.p(0.5) ? "snowfall" : "precip";
                if (kind == "other step") { double f = c.rng.p(0.5) ? 2 : 0.5; double t0 = time[0]; for (long t = 0; t < rows; ++t) time[t] = t0 + (time[t] - t0) * f; if (f < 1) { time = axd(rows * 2); d = axxd(rows * 2, nu); for (long t = 0; t < rows * 2; ++t) { time[t] = t0 + t * 0.5 * s.stepDays(); d.row(t) = data.row(t / 2); } } }
                if (kind == "empty") { time = axd(0); d = axxd(0, nu); }
                if (kind == "single date") { axd e(1); e[0] = time[s.dataBefore]; time = e; axxd f = d.topRows(1); d = f; }
                if (kind == "irregular") { long k = c.rng.i(1, (int)rows - 2); time[k] += (c.rng.p(0.5) ? 1 : -1) * s.stepDays(); }
                if (kind == "not a date") { static const std::vector<double> bv{NAN, INFINITY, -INFINITY, -1e300, 1e300, 1e18}; long k = c.rng.p(0.4) ? 0 : c.rng.p(0.5) ? rows - 1 : c.rng.i(0, (int)rows - 1); time[k] = c.rng.pick(bv); }
            }
            if (name == bad && kind == "unlike units" && nu > 1) {
                int odd = c.rng.i(0, nu - 1), how = c.rng.i(0, 3);
                auto u = std::make_unique<TimeSeriesDistributed>(typeOf(name));
                for (int j = 0; j < nu; ++j) {
                    long first = -s.dataBefore, n = rows, k = c.rng.i(1, std::max(1, s.nsteps / 2));
                    Spec s2 = s;
                    if (j == odd && how == 0) { first += s.dataBefore + k; n -= s.dataBefore + k; }
                    if (j == odd && how == 1) n -= s.dataAfter + k;
                    if (j == odd && how == 2) { if (s.dataBefore > 0) continue; first -= k; }
                    if (j == odd && how == 3) { s2.stepN *= 2; }
                    std::vector<double> v(std::max(1L, n), 1.0);
                    u->AddData(series(c, s2, v, first), ids[j]);
                }
                if (!m.AddTimeSeries(std::move(u))) { refusedAt = "create"; break; }
                continue;
            }
            bool ok = m.CreateTimeSeries(nm, time, ids, d);
            if (ok && name == bad && kind == "given twice") ok = m.CreateTimeSeries(nm, time, ids, d * 1.5);
            if (!ok) { refusedAt = "create"; break; }
            if (name == bad && kind == "half attached" && !m.AttachTimeSeriesToHydroUnits()) { refusedAt = "attach"; break; }
        }
        if (refusedAt.empty() && kind == "half attached") {
            // Only what was created before the variable in question is attached.
            bool last = bad == s.forcing.rbegin()->first || names.back() == bad;
            if (last) { c.count("skipped"); return; }
        } else if (refusedAt.empty() && kind != "never attached" && !m.AttachTimeSeriesToHydroUnits()) refusedAt = "attach";
        if (refusedAt.empty() && kind == "cleared") m.ClearTimeSeries();
        if (refusedAt.empty()) {
            m.Reset();
            long steps = 0;
            onEvent() = [&](const char* ev, ModelHydro*) { steps += ev[1] == 't'; };
            auto r = m.Run();
            if (!r) refusedAt = "run";
            if (!r && steps > 0) c.fail("late:" + kind, fmt("the run stopped after %ld steps instead of being refused: ", steps) + r.error() + " " + c.sample);
        }
    } catch (const std::exception& e) {
        refusedAt = "exception";
    }
    c.count("invalid: " + kind);
    if (refusedAt.empty()) c.fail("accepted:" + kind, "a run with unusable forcing succeeded: " + c.sample);
    else c.count("refused at " + refusedAt);
    c.signature = "invalid/" + kind + "/" + bad + "/" + s.stepUnit;
}

static void run(Ctx& c) {
    if (c.rng.p(0.3)) invalid(c); else valid(c);
}

Check mon::GetCheck() { return {"T02", 30000, 150000, run, "distinct structure, time step, data extent and column order with every forcing value of every step compared, or distinct kind of unusable forcing refused"}; }
