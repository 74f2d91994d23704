// Time-varying parameters: the value in force at every date of a run against the values declared for years, months and dates.
#include "Parameter.h"
#include "ParametersUpdater.h"
#include "TimeMachine.h"
#include "gen.h"
using namespace mon;

namespace {
bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
int monthDays(int y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return d[m - 1] + (m == 2 && leap(y)); }
// Minutes since 1859-01-01 00:00 and back, counted day by day and year by year.
const long MJD_1859 = 45;  // 1858-11-17 is day 0
struct Cal { int y, m, d; };
Cal calOf(long day) {
    int y = 1859;
    while (day >= 365 + leap(y)) { day -= 365 + leap(y); ++y; }
    int m = 1;
    while (day >= monthDays(y, m)) { day -= monthDays(y, m); ++m; }
    return {y, m, (int)day + 1};
}
long dayOf(int y, int m, int d) {
    long n = 0;
    for (int k = 1859; k < y; ++k) n += 365 + leap(k);
    for (int k = 1; k < m; ++k) n += monthDays(y, k);
    return n + d - 1;
}
struct Var {
    int kind = 0;  // 0 years, 1 months, 2 dates
    int y0 = 0;
    std::vector<float> v;
    std::vector<long> at;  // minutes
    std::unique_ptr<Parameter> p;
    const float* ptr = nullptr;
    float expected = 0;
    bool usable = true;
};
}  // namespace

static void run(Ctx& c) {
    Rng& r = c.rng;
    int step; TimeUnit unit; long sm;
    double q = r.u();
    if (q < 0.45) { unit = TimeUnit::Day; step = r.p(0.5) ? 1 : r.i(2, 45); sm = step * 1440L; }
    else if (q < 0.55) { unit = TimeUnit::Week; step = r.i(1, 8); sm = step * 10080L; }
    else if (q < 0.85) { unit = TimeUnit::Hour; step = r.i(1, 50); sm = step * 60L; }
    else { unit = TimeUnit::Minute; step = r.i(5, 1500); sm = step; }
    int y = r.p(0.3) ? r.pick(std::vector<int>{1899, 1999, 2000, 2023, 2024, 2099}) : r.i(1870, 2150), m = r.p(0.4) ? r.pick(std::vector<int>{1, 2, 12}) : r.i(1, 12);
    int d = r.p(0.4) ? (r.p(0.5) ? 1 : monthDays(y, m)) : r.i(1, monthDays(y, m));
    long s0 = dayOf(y, m, d) * 1440 + (r.p(0.5) ? 0 : r.i(0, 1439));
    int n = r.i(2, r.p(0.2) ? 3000 : 300);
    auto mjd = [&](long min) { return GetMJD(calOf(min / 1440).y, calOf(min / 1440).m, calOf(min / 1440).d, (min % 1440) / 60, min % 60, 0); };
    auto minutesOf = [&](int k) { return s0 + k * sm; };
    long s1 = minutesOf(n - 1);
    std::vector<Var> vars(r.i(1, 6));
    ParametersUpdater up;
    for (auto& x : vars) {
        x.kind = r.i(0, 2);
        x.p = std::make_unique<Parameter>("p", x.expected = (float)r.uni(-5, 5));
        x.ptr = x.p->GetValuePointer();
        ParameterModifier mod(x.kind == 0 ? ParameterModifierType::Yearly : x.kind == 1 ? ParameterModifierType::Monthly : ParameterModifierType::Dates);
        bool ok;
        size_t len;
        if (x.kind == 0) {
            x.y0 = calOf(s0 / 1440).y - r.i(-2, 3);
            len = std::max(1, calOf(s1 / 1440).y - x.y0 + 1 + r.i(-2, 3));
        } else if (x.kind == 1) len = 12;
        else {
            // Dates of the run (some of them, and others around), ascending or descending
            std::set<long> at;
            double keep = r.p(0.3) ? 1 : r.uni(0.05, 0.9);
            for (int k = 0; k < n; ++k) if (r.p(keep)) at.insert(minutesOf(k));
            for (int k = r.i(0, 5); k--;) at.insert(std::max(0L, s0 + (long)(r.uni(-0.1, 1.1) * (s1 - s0 + 1440))));
            if (at.empty()) at.insert(s0);
            x.at.assign(at.begin(), at.end());
            if (r.p(0.15)) std::reverse(x.at.begin(), x.at.end());
            len = x.at.size();
        }
        for (size_t k = 0; k < len; ++k) x.v.push_back(r.p(0.1) ? 0.0f : r.p(0.05) && k ? x.v.back() : r.p(0.05) ? (float)r.logu(1e-12, 1e12) : (float)r.uni(-100, 100));
        if (r.p(0.1)) {  // values that do not fit are refused
            auto bad = x.v;
            if (r.p(0.5) || bad.size() < 2) bad.push_back(1); else bad.pop_back();
            ParameterModifier other = mod;
            if (x.kind == 0) ok = other.SetYearlyValues(x.y0, x.y0 + (int)len - 1, bad);
            else if (x.kind == 1) ok = other.SetMonthlyValues(bad);
            else { vecDouble dd; for (long a : x.at) dd.push_back(mjd(a)); ok = other.SetDatesAndValues(dd, bad); }
            c.count("refused lengths");
            if (ok) c.fail("length accepted", fmt("kind %d: %zu values for %zu entries were accepted", x.kind, bad.size(), len));
        }
        while (r.p(0.15)) {  // former values are replaced
            c.count("values declared again");
            int w = x.kind == 1 ? 12 : r.i(1, 12);
            vecFloat former;
            vecDouble dd;
            for (int k = 0; k < w; ++k) { former.push_back((float)r.uni(-100, 100)); dd.push_back(mjd(minutesOf(k))); }
            if (r.p(0.2)) former.pop_back();  // refused
            if (x.kind == 0) { int from = x.y0 - r.i(0, 5); ok = mod.SetYearlyValues(from, from + w - 1, former); }
            else if (x.kind == 1) ok = mod.SetMonthlyValues(former);
            else ok = mod.SetDatesAndValues(dd, former);
        }
        if (x.kind == 0) ok = mod.SetYearlyValues(x.y0, x.y0 + (int)len - 1, x.v);
        else if (x.kind == 1) ok = mod.SetMonthlyValues(x.v);
        else { vecDouble dd; for (long a : x.at) dd.push_back(mjd(a)); ok = mod.SetDatesAndValues(dd, x.v); }
        if (r.p(0.1)) {  // without usable values the parameter keeps its value
            x.usable = false;
            ParameterModifier none(mod.GetType());
            bool set = true;
            if (x.kind == 0 && r.p(0.7)) { if (r.p(0.5)) set = none.SetYearlyValues(2000, 1999, {}); else none.SetYearlyValues(x.y0, x.y0 + (int)len + 40, x.v); }
            else if (x.kind == 1 && r.p(0.5)) none.SetMonthlyValues({1, 2});
            else if (x.kind == 2 && r.p(0.7)) { if (r.p(0.5)) set = none.SetDatesAndValues({}, {}); else none.SetDatesAndValues({mjd(s0), mjd(s1) + 1}, {7}); }
            (void)set;
            x.p->SetModifier(none);
            up.AddParameter(x.p.get());
            c.count("without usable values");
            continue;
        }
        if (!ok) { c.fail("values refused", fmt("kind %d with %zu values", x.kind, len)); return; }
        x.p->SetModifier(mod);
        up.AddParameter(x.p.get());
    }
    TimeMachine t;
    t.SetParametersUpdater(&up);
    t.Initialize(mjd(s0), mjd(s1) + (r.p(0.5) ? 0 : 0.4 * sm / 1440.0), step, unit);
    auto judge = [&](int rn, int k) {
        long now = minutesOf(k);
        Cal cl = calOf(now / 1440);
        for (size_t i = 0; i < vars.size(); ++i) {
            Var& x = vars[i];
            if (!x.usable) {}
            else if (x.kind == 0) { int j = cl.y - x.y0; if (j >= 0 && j < (int)x.v.size()) x.expected = x.v[j]; else c.count("years without a value"); }
            else if (x.kind == 1) x.expected = x.v[cl.m - 1];
            else {
                auto it = std::find(x.at.begin(), x.at.end(), now);
                if (it != x.at.end()) { x.expected = x.v[it - x.at.begin()]; c.count("listed dates"); }
            }
            c.count("values compared");
            if (*x.ptr != x.expected || x.p->GetValue() != x.expected) {
                static const char* K[] = {"yearly", "monthly", "dated"};
                c.fail(std::string(x.usable ? "" : "unusable ") + K[x.kind] + " value", fmt("run %d step %d (%d-%02d-%02d + %ld min): parameter %zu is %g, declared %g; step %ld min, start minute %ld", rn, k, cl.y, cl.m, cl.d, now % 1440, i, *x.ptr, x.expected, sm, s0));
                return false;
            }
        }
        return true;
    };
    int runs = r.i(1, 3);
    for (int rn = 0; rn < runs; ++rn) {
        t.Reset();
        up.DateUpdate(t.GetDate());
        for (int k = 0; k < n; ++k) {
            if (t.IsOver()) { c.fail("steps", fmt("over after %d of %d steps", k, n)); return; }
            if (!judge(rn, k)) return;
            t.IncrementTime();
        }
        if (!t.IsOver()) { c.fail("steps", fmt("not over after %d steps", n)); return; }
    }
    c.count("runs", runs);
    c.sample = fmt("%d parameters, step %ld min from %d-%02d-%02d, %d steps, %d runs", (int)vars.size(), sm, y, m, d, n, runs);
    c.signature = c.sample;
}

Check mon::GetCheck() { return {"T06", 30000, 300000, run, "distinct combination of declared values, time step and period, every date's values compared"}; }
