// Hydro units are independent: the same model with its units reordered, renumbered, extended or subdivided.
#include "gen.h"
using namespace mon;
using namespace gen;

// The specification with the units 'from' (indices of the original, areas scaled), in that order and with these identifiers.
static Spec remap(const Spec& s, const std::vector<int>& from, const std::vector<double>& scale, const std::vector<int>& ids) {
    Spec t = s;
    t.units.clear();
    for (size_t j = 0; j < from.size(); ++j) {
        UnitSpec u = s.units[from[j]];
        u.id = ids[j];
        u.area *= scale[j];
        t.units.push_back(u);
    }
    for (auto& [name, f] : t.forcing) {
        const axxd& o = s.forcing.at(name);
        f = axxd::Zero(o.rows(), (long)from.size());
        for (size_t j = 0; j < from.size(); ++j) f.col((long)j) = o.col(from[j]);
    }
    t.changes.clear();
    for (auto& x : s.changes)
        for (size_t j = 0; j < from.size(); ++j)
            if (from[j] == x.unit) { ChangeSpec y = x; y.unit = (int)j; t.changes.push_back(y); }
    return t;
}

struct Run { Outputs o; std::vector<double> w; };
static Run execute(const Spec& s) {
    auto b = buildModel(s);
    runModel(*b);
    Run x{collect(*b->model), {}};
    double tot = 0;
    for (auto& u : s.units) tot += u.area;
    for (auto& u : s.units) x.w.push_back(u.area / tot);
    return x;
}

static int find(const std::vector<std::string>& v, const std::string& x) {
    for (size_t i = 0; i < v.size(); ++i) if (v[i] == x) return (int)i;
    return -1;
}
static bool eq(double a, double b, double at, double rt) { return a == b || (std::isnan(a) && std::isnan(b)) || close(a, b, at, rt); }

// Unit ja of a against unit jb of b: contents as they are, fluxes either as they are or per area of the basin.
static std::string unitDiff(const Run& a, int ja, const Run& b, int jb, double at, double rt, long& n) {
    for (size_t k = 0; k < a.o.huLabels.size(); ++k) {
        int l = find(b.o.huLabels, a.o.huLabels[k]);
        if (l < 0) return "label '" + a.o.huLabels[k] + "' is missing";
        auto x = a.o.hu[k].col(ja), y = b.o.hu[l].col(jb);
        if (x.size() != y.size()) return "lengths differ";
        bool flux = a.o.huLabels[k].ends_with(":output");
        bool plain = true, perArea = flux;
        int tp = -1, tw = -1;
        for (int t = 0; t < x.size(); ++t) {
            if (plain && !eq(x[t], y[t], at, rt)) { plain = false; tp = t; }
            if (perArea && !eq(x[t] / a.w[ja], y[t] / b.w[jb], at, rt)) { perArea = false; tw = t; }
        }
        n += x.size();
        if (!plain && !perArea) { int t = std::max(tp, tw); return fmt("'%s' step %d: %.17g vs %.17g (area shares %.6g, %.6g)", a.o.huLabels[k].c_str(), t, x[t], y[t], a.w[ja], b.w[jb]); }
    }
    for (size_t k = 0; k < a.o.frLabels.size(); ++k) {
        int l = find(b.o.frLabels, a.o.frLabels[k]);
        if (l < 0) return "fraction '" + a.o.frLabels[k] + "' is missing";
        for (int t = 0; t < a.o.fr[k].rows(); ++t) if (!eq(a.o.fr[k](t, ja), b.o.fr[l](t, jb), at, rt)) return fmt("fraction '%s' step %d: %.17g vs %.17g", a.o.frLabels[k].c_str(), t, a.o.fr[k](t, ja), b.o.fr[l](t, jb));
    }
    return "";
}

// Basin series of a against the area-weighted combination of the others.
static std::string basinDiff(const Run& a, const std::vector<std::pair<const Run*, double>>& parts, double at, double rt) {
    for (size_t k = 0; k < a.o.sbLabels.size(); ++k)
        for (int t = 0; t < a.o.sb[k].size(); ++t) {
            double sum = 0;
            for (auto& [p, w] : parts) {
                int l = find(p->o.sbLabels, a.o.sbLabels[k]);
                if (l < 0) return "basin label '" + a.o.sbLabels[k] + "' is missing";
                sum += w * p->o.sb[l][t];
            }
            if (!eq(a.o.sb[k][t], sum, at, rt)) return fmt("'%s' step %d: %.17g vs %.17g", a.o.sbLabels[k].c_str(), t, a.o.sb[k][t], sum);
        }
    return "";
}

static void run(Ctx& c) {
    Rng& r = c.rng;
    Opts o;
    o.allowLateral = false; o.allowExchange = true; o.allowSubdaily = true; o.allowChanges = true; o.anyOrder = true; o.maxStepDays = 2;
    o.maxSteps = c.thorough ? 250 : 100; o.maxUnits = 5;
    Spec s = randomSpec(r, o);
    c.sample = s.describe();
    Run base = execute(s);
    int nu = (int)s.units.size();
    std::vector<int> all(nu), ids;
    for (int j = 0; j < nu; ++j) { all[j] = j; ids.push_back(s.units[j].id); }
    // Rounding: areas (hence the shares of the fluxes to the basin) are summed in another order.
    double rt = 1e-9, at = 1e-11;
    bool exact = s.fam != HBV;  // nothing else in a unit depends on its area
    auto shuffledIds = [&](int n) {
        std::set<int> seen;
        std::vector<int> v;
        while ((int)v.size() < n) { int x = r.p(0.1) ? r.i(1, 2000000000) : r.i(1, 60); if (seen.insert(x).second) v.push_back(x); }
        return v;
    };
    long n = 0;
    {   // reordered and renumbered
        std::vector<int> from = all, id = r.p(0.3) ? ids : shuffledIds(nu);
        for (int i = nu - 1; i > 0; --i) std::swap(from[i], from[r.i(0, i)]);
        if (r.p(0.2)) { std::reverse(from.begin(), from.end()); }
        Spec t = remap(s, from, std::vector<double>(nu, 1.0), id);
        Run x = execute(t);
        for (int j = 0; j < nu; ++j) {
            std::string d = unitDiff(base, from[j], x, j, exact ? 0 : at, exact ? 1e-13 : rt, n);
            if (!d.empty()) c.fail("order", fmt("unit #%d, at place %d: ", from[j], j) + d + " " + c.sample);
        }
        std::string d = basinDiff(base, {{&x, 1.0}}, 1e-10, rt);
        if (!d.empty()) c.fail("order-basin", "reordered: " + d + " " + c.sample);
        c.count("reordered models");
    }
    if (r.p(0.6)) {  // further units in between
        int extra = r.i(1, 3);
        std::vector<int> from;
        Spec big = s;
        for (int k = 0; k < extra; ++k) {
            UnitSpec u = s.units[r.i(0, nu - 1)];
            u.area = r.logu(1e3, 1e8); u.elev = r.uni(200, 3800); u.slopeDeg = r.uni(1, 60); u.aspect = r.pick(std::vector<std::string>{"N", "S", "E", "W"});
            if (s.covers.size() > 1) {
                double rest = 1;
                for (size_t cv = 1; cv < s.covers.size(); ++cv) { u.frac[cv] = r.p(0.3) ? 0 : rest * r.uni(0.1, 0.9); rest -= u.frac[cv]; }
                u.frac[0] = rest;
            }
            big.units.push_back(u);
        }
        Spec f = big;
        randomForcing(r, f);
        for (auto& [name, m] : big.forcing) { axxd g = f.forcing[name]; g.leftCols(nu) = s.forcing[name]; m = g; }
        int nb = nu + extra;
        from.resize(nb);
        for (int j = 0; j < nb; ++j) from[j] = j;
        for (int i = nb - 1; i > 0; --i) std::swap(from[i], from[r.i(0, i)]);
        Spec t = remap(big, from, std::vector<double>(nb, 1.0), shuffledIds(nb));
        Run x = execute(t);
        for (int j = 0; j < nb; ++j) {
            if (from[j] >= nu) continue;
            std::string d = unitDiff(base, from[j], x, j, exact ? 0 : at, exact ? 1e-13 : rt, n);
            if (!d.empty()) c.fail("others", fmt("unit #%d with %d other units: ", from[j], extra) + d + " " + c.sample);
        }
        c.count("extended models");
    }
    if (r.p(0.6) && !s.usesType("runoff:socont")) {  // subdivided (that runoff depends on the unit's size)
        std::vector<int> from;
        std::vector<double> scale;
        for (int j = 0; j < nu; ++j) {
            int parts = r.p(0.5) ? 1 : r.i(2, 3);
            double left = 1;
            for (int k = 0; k < parts; ++k) {
                // With changes, which are asked for in areas, halves: the fractions stay exactly the same.
                double f = k + 1 == parts ? left : left * (!s.changes.empty() || r.p(0.3) ? 0.5 : r.uni(0.01, 0.9));
                from.push_back(j); scale.push_back(f);
                left -= f;
            }
        }
        int nb = (int)from.size();
        for (int i = nb - 1; i > 0; --i) { int k = r.i(0, i); std::swap(from[i], from[k]); std::swap(scale[i], scale[k]); }
        Spec t = remap(s, from, scale, shuffledIds(nb));
        Run x = execute(t);
        for (int j = 0; j < nb; ++j) {
            std::string d = unitDiff(base, from[j], x, j, exact ? 0 : at, exact ? 1e-13 : rt, n);
            if (!d.empty()) c.fail("split", fmt("unit #%d, a part of %g: ", from[j], scale[j]) + d + " " + c.sample);
        }
        std::string d = basinDiff(base, {{&x, 1.0}}, 1e-10, rt);
        if (!d.empty()) c.fail("split-basin", "subdivided: " + d + " " + c.sample);
        c.count("subdivided models");
    }
    if (nu > 1 && r.p(0.6)) {  // two basins of their own
        std::vector<int> pa, pb;
        for (int j = 0; j < nu; ++j) (j == 0 || (j > 1 && r.p(0.5)) ? pa : pb).push_back(j);
        double wa = 0;
        for (int j : pa) wa += base.w[j];
        auto idsOf = [&](const std::vector<int>& v) { std::vector<int> w; for (int j : v) w.push_back(ids[j]); return w; };
        Run A = execute(remap(s, pa, std::vector<double>(pa.size(), 1.0), idsOf(pa))), B = execute(remap(s, pb, std::vector<double>(pb.size(), 1.0), idsOf(pb)));
        for (size_t j = 0; j < pa.size(); ++j) {
            std::string d = unitDiff(base, pa[j], A, (int)j, exact ? 0 : at, exact ? 1e-13 : rt, n);
            if (!d.empty()) c.fail("alone", fmt("unit #%d in a smaller basin: ", pa[j]) + d + " " + c.sample);
        }
        // The rate constraints of the stages of a solver act on the whole of a basin-level store: no combination of the parts then.
        bool basinStores = std::any_of(s.chain.begin(), s.chain.end(), [](auto& b) { return b.subBasin; }) || s.ctypes.back() == "glacier";
        bool linearStores = std::all_of(s.chain.begin(), s.chain.end(), [](auto& b) { return !b.subBasin || (b.procs.size() == 1 && b.procs[0].type == "outflow:linear"); });
        bool additive = !basinStores || linearStores && (s.solver == "euler_explicit" && s.stepDays() <= 1);
        if (additive) c.count("combined basins");
        // Nor do they release anything below 1e-8 mm.
        std::string d = !additive ? "" : basinDiff(base, {{&A, wa}, {&B, 1 - wa}}, 1e-6, rt);
        if (!d.empty()) c.fail("combine", "two basins combined: " + d + " " + c.sample);
        c.count("separated basins");
    }
    c.count("unit values compared", n);
    if (!s.changes.empty()) c.count("with land cover changes");
    double mx = 0;
    for (int t = 0; t < s.nsteps; ++t) mx = std::max(mx, base.o.outlet[t]);
    if (mx > 0 && nu > 1) c.signature = s.shortSig();
}

Check mon::GetCheck() { return {"S03", 20000, 120000, run, "distinct model structure with several units and discharge, run again with its units rearranged"}; }
