// Dates: conversions both ways against an own Gregorian calendar, text formats, day of the year, rejection of invalid dates.
#include "TimeMachine.h"
#include "gen.h"
using namespace mon;
using namespace gen;

namespace {
bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
int monthDays(int y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return d[m - 1] + (m == 2 && leap(y)); }
struct D { int y, m, d, h = 0, mi = 0, s = 0; };
struct Pattern { TimeFormat f; const char* text; int parts; };  // parts: 3 date, 5 to the minute, 6 to the second
const std::vector<Pattern>& patterns() {
    static std::vector<Pattern> v = [] {
        std::vector<Pattern> p;
        for (auto f : {ISOdate, YYYY_MM_DD}) for (auto t : {"Y-M-D", "Y.M.D", "Y/M/D", "YMD"}) p.push_back({f, t, 3});
        for (auto f : {ISOdateTime, YYYY_MM_DD_hh_mm, YYYY_MM_DD_hh_mm_ss}) {
            for (auto t : {"Y-M-DTh:m:s", "Y-M-D h:m:s", "Y.M.D h:m:s", "Y/M/D h:m:s", "YMD hms", "YMDhms", "YMDThms"}) p.push_back({f, t, 6});
            for (auto t : {"Y.M.D h:m", "Y-M-D h:m", "Y/M/D h:m", "YMD h:m", "YMD hm"}) p.push_back({f, t, 5});
        }
        for (auto t : {"D.M.Y", "D/M/Y", "D-M-Y", "DMY"}) p.push_back({DD_MM_YYYY, t, 3});
        for (auto f : {DD_MM_YYYY_hh_mm, DD_MM_YYYY_hh_mm_ss}) {
            for (auto t : {"D.M.Y h:m:s", "D/M/Y h:m:s", "D-M-Y h:m:s", "DMY h:m:s", "DMY hms"}) p.push_back({f, t, 6});
            for (auto t : {"D.M.Y h:m", "D/M/Y h:m", "D-M-Y h:m", "DMY h:m", "DMY hm"}) p.push_back({f, t, 5});
        }
        for (auto t : {"Y-M-DTh:m:s", "Y-M-D h:m:s", "Y.M.D h:m:s", "Y/M/D h:m:s", "YMDhms", "YMDThms", "D.M.Y h:m:s", "D/M/Y h:m:s", "D-M-Y h:m:s", "DMY h:m:s"}) p.push_back({guess, t, 6});
        for (auto t : {"Y.M.D h:m", "Y-M-D h:m", "Y/M/D h:m", "YMD h:m", "D.M.Y h:m", "D/M/Y h:m", "D-M-Y h:m", "DMY h:m"}) p.push_back({guess, t, 5});
        for (auto t : {"Y-M-D", "Y/M/D", "YMD", "D.M.Y", "D/M/Y", "D-M-Y", "DMY"}) p.push_back({guess, t, 3});
        return p;
    }();
    return v;
}
std::string render(const char* t, const D& x) {
    std::string r;
    for (; *t; ++t) switch (*t) {
        case 'Y': r += fmt("%04d", x.y); break;
        case 'M': r += fmt("%02d", x.m); break;
        case 'D': r += fmt("%02d", x.d); break;
        case 'h': r += fmt("%02d", x.h); break;
        case 'm': r += fmt("%02d", x.mi); break;
        case 's': r += fmt("%02d", x.s); break;
        default: r += *t;
    }
    return r;
}
D randomDate(Rng& r, int y0, int y1) {
    D x;
    x.y = r.p(0.3) ? r.pick(std::vector<int>{1900, 1904, 1999, 2000, 2001, 2020, 2023, 2024, 2100}) : r.i(y0, y1);
    x.m = r.p(0.3) ? r.pick(std::vector<int>{1, 2, 3, 12}) : r.i(1, 12);
    int md = monthDays(x.y, x.m);
    x.d = r.p(0.3) ? (r.p(0.5) ? 1 : md) : r.i(1, md);
    x.h = r.p(0.2) ? (r.p(0.5) ? 0 : 23) : r.i(0, 23);
    x.mi = r.p(0.2) ? (r.p(0.5) ? 0 : 59) : r.i(0, 59);
    x.s = r.p(0.2) ? (r.p(0.5) ? 0 : 59) : r.i(0, 59);
    return x;
}
}  // namespace

static void run(Ctx& c) {
    Rng& r = c.rng;
    c.sample = "";
    for (int k = 0; k < 40; ++k) {
        D x = randomDate(r, 1859, 2400);
        std::string at = render("Y-M-D h:m:s", x);
        long day = civilToMjd(x.y, x.m, x.d);
        double want = day + (x.h * 3600 + x.mi * 60 + x.s) / 86400.0;
        // Both ways.
        double got = GetMJD(x.y, x.m, x.d, x.h, x.mi, x.s);
        c.count("conversions");
        if (!close(got, want, 1e-9)) c.fail("to number", at + fmt(" is %.12g, not %.12g", want, got));
        Time t = GetTimeStructFromMJD(got);
        if (t.year != x.y || t.month != x.m || t.day != x.d || t.hour != x.h || t.min != x.mi || t.sec != x.s)
            c.fail("from number", at + fmt(" comes back as %d-%d-%d %d:%d:%d", t.year, t.month, t.day, t.hour, t.min, t.sec));
        Time t2 = GetTimeStructFromMJD(want + r.uni(-0.4, 0.4) / 86400);
        if (t2.year != x.y || t2.month != x.m || t2.day != x.d || t2.hour != x.h || t2.min != x.mi || t2.sec != x.s) c.fail("nearest second", at + fmt(" comes back as %d-%d-%d %d:%d:%d", t2.year, t2.month, t2.day, t2.hour, t2.min, t2.sec));
        if (GetMJD(x.y, x.m, x.d) != (double)day) c.fail("whole day", at + fmt(": %.12g instead of %ld", GetMJD(x.y, x.m, x.d), day));
        // The following day.
        D n = x;
        if (++n.d > monthDays(n.y, n.m)) { n.d = 1; if (++n.m > 12) { n.m = 1; ++n.y; } }
        if (GetMJD(n.y, n.m, n.d) - GetMJD(x.y, x.m, x.d) != 1.0) c.fail("consecutive days", at);
        // Increments.
        int a = r.i(0, 4000);
        static const std::vector<std::pair<TimeUnit, double>> un = {{TimeUnit::Week, 7 * 86400.0}, {TimeUnit::Day, 86400.0}, {TimeUnit::Hour, 3600.0}, {TimeUnit::Minute, 60.0}};
        for (auto& [u, sec] : un) if (!close(IncrementDateBy(got, a, u), want + a * sec / 86400, 1e-8)) c.fail("increment", at + fmt(" by %d units of %g s", a, sec));
        // Day of the year.
        TimeMachine tm;
        bool hourly = r.p(0.5);
        tm.Initialize(got, got + 400, hourly ? r.i(1, 11) : r.i(1, 3), hourly ? TimeUnit::Hour : TimeUnit::Day);
        for (int i = 0, ni = r.i(1, 30); i < ni; ++i) tm.IncrementTime();
        long dd = (long)std::floor(tm.GetDate() + 0.5 / 86400);
        int y = x.y;
        while (civilToMjd(y + 1, 1, 1) <= dd) ++y;
        int doy = (int)(dd - civilToMjd(y, 1, 1)) + 1;
        c.count("days of the year");
        if (tm.GetCurrentDayOfYear() != doy) c.fail("day of the year", fmt("MJD %.10g (from %s): day %d, not %d", tm.GetDate(), at.c_str(), doy, tm.GetCurrentDayOfYear()));
    }
    // Text formats.
    for (int k = 0; k < 12; ++k) {
        D x = randomDate(r, 1900, 2100);
        for (auto& p : patterns()) {
            D y = x;
            if (p.parts < 6) y.s = 0;
            if (p.parts < 5) y.h = y.mi = 0;
            double want = civilToMjd(y.y, y.m, y.d) + (y.h * 3600 + y.mi * 60 + y.s) / 86400.0;
            std::string text = render(p.text, y);
            c.count("texts");
            try {
                double got = ParseDate(text, p.f);
                if (got != GetMJD(y.y, y.m, y.d, y.h, y.mi, y.s) || !close(got, want, 1e-9)) c.fail(fmt("text:%s", p.text), fmt("'%s' (format %d) read as %.12g instead of %.12g", text.c_str(), (int)p.f, got, want));
            } catch (const std::exception& e) {
                c.fail(fmt("refused:%s", p.text), fmt("'%s' (format %d): %s", text.c_str(), (int)p.f, e.what()));
            }
        }
    }
    // Invalid texts.
    for (int k = 0; k < 12; ++k) {
        auto& p = r.pick(patterns());
        D x = randomDate(r, 1900, 2100);
        if (p.parts < 6) x.s = 0;
        if (p.parts < 5) x.h = x.mi = 0;
        std::string kind, text;
        int what = r.i(0, 9);
        switch (what) {
            case 0: case 1: { std::vector<int> sm = {4, 6, 9, 11, 2, 2}; x.m = r.pick(sm); x.d = x.m == 2 ? r.i(monthDays(x.y, 2) + 1, 31) : 31; kind = "day of the month"; break; }
            case 2: x.m = r.p(0.5) ? 0 : r.i(13, 19); kind = "month"; break;
            case 3: x.d = r.p(0.5) ? 0 : r.i(32, 39); kind = "day"; break;
            case 4: if (p.parts < 5) continue; x.h = r.i(24, 29); kind = "hour"; break;
            case 5: if (p.parts < 5) continue; x.mi = r.i(60, 99); kind = "minute"; break;
            case 6: if (p.parts < 6) continue; x.s = r.i(61, 99); kind = "second"; break;
            default: kind = "text";
        }
        text = render(p.text, x);
        if (what == 7) text += r.pick(std::vector<std::string>{"x", " x", "Z+1", "-", ".5.", "/", "99", ":", " 7:"});
        if (what == 8) text = r.pick(std::vector<std::string>{"", " ", "abc", "-", "2020", "2020-", "20-20", "yesterday", "2020-aa-01", "aa.01.2020", "2020--01", "0000-00-00", "00.00.0000"});
        if (what == 9) { size_t q = r.i(0, (int)text.size() - 1); text[q] = r.pick(std::vector<char>{'x', 'O', '?', '#', '_'}); }
        // An impossible month or day of YYYYMMDD may be a valid DDMMYYYY when the format is guessed, and the reverse.
        bool compactDate = std::string(p.text).find("YMD") != std::string::npos || std::string(p.text).find("DMY") != std::string::npos;
        bool compactTime = std::string(p.text).find("hm") != std::string::npos;
        if (p.f == guess && compactDate && what <= 3) continue;
        if (compactTime) kind += " (time without separators)";
        // Trailing digits may complete a shorter compact form into a longer one: skip those.
        if (what == 7 && text.ends_with("99") && p.text[std::string(p.text).size() - 1] != 's' && std::string(p.text).find_first_of("-./:") == std::string::npos) continue;
        c.count("invalid " + kind);
        bool thrown = false;
        double got = 0;
        try { got = ParseDate(text, p.f); } catch (const std::exception&) { thrown = true; }
        if (!thrown) c.fail("accepted:" + kind, fmt("'%s' (format %d, %s) read as %.12g", text.c_str(), (int)p.f, p.text, got));
        if (p.f == guess) {
            // The same through the timer of a model.
            TimerSettings ts;
            ts.start = text; ts.end = "2100-12-31"; ts.timeStep = 1; ts.timeStepUnit = "day";
            TimeMachine tm;
            thrown = false;
            try { tm.Initialize(ts); } catch (const std::exception&) { thrown = true; }
            c.count("invalid timers");
            if (!thrown) c.fail("timer accepted:" + kind, fmt("'%s'", text.c_str()));
        }
    }
    // Invalid numbers.
    for (int k = 0; k < 6; ++k) {
        D x = randomDate(r, 1900, 2100);
        switch (r.i(0, 5)) {
            case 0: x.m = 2; x.d = monthDays(x.y, 2) + 1; break;
            case 1: x.m = r.p(0.3) ? 256 + r.i(1, 12) : r.i(13, 500); break;
            case 2: x.d = r.p(0.3) ? 256 + r.i(1, 28) : r.i(32, 600); break;
            case 3: x.h = r.i(24, 100); break;
            case 4: x.mi = r.i(60, 200); break;
            case 5: x.s = r.i(61, 200); break;
        }
        bool thrown = false;
        try { (void)GetMJD(x.y, x.m, x.d, x.h, x.mi, x.s); } catch (const std::exception&) { thrown = true; }
        c.count("invalid numbers");
        if (!thrown) c.fail("accepted:numbers", fmt("%d-%d-%d %d:%d:%d", x.y, x.m, x.d, x.h, x.mi, x.s));
    }
    c.signature = fmt("%llu", (unsigned long long)r.next());
}

Check mon::GetCheck() { return {"T03", 12000, 60000, run, "case of 40 random dates (month and year ends favoured), 12 dates in every text format and 18 invalid texts or numbers"}; }
