// Structure variants: each unit built with the variant that fits its covers, against all units built with the full structure.
#include "gen.h"
using namespace mon;
using namespace gen;

static int find(const std::vector<std::string>& v, const std::string& x) {
    for (size_t i = 0; i < v.size(); ++i) if (v[i] == x) return (int)i;
    return -1;
}
static std::string attempt(Built& b) {
    try { runModel(b); return ""; } catch (const std::exception& e) { return e.what(); }
}

static void run(Ctx& c) {
    Rng& r = c.rng;
    Opts o;
    o.fams = {SOCONT, HBV};
    o.allowExchange = true; o.allowSubdaily = true; o.allowCorrection = true; o.lateralAnyOrder = true;
    o.maxSteps = c.thorough ? 200 : 70; o.minUnits = 1; o.maxUnits = 6;
    Spec s;
    std::vector<int> gl;
    do {
        s = randomSpec(r, o);
        gl.clear();
        for (size_t cv = 0; cv < s.covers.size(); ++cv) if (s.ctypes[cv] == "glacier") gl.push_back((int)cv);
    } while (gl.empty());
    // Units with every mix of glacier covers.
    for (auto& u : s.units) {
        if (r.p(0.3)) continue;
        double left = 1;
        for (size_t cv = 1; cv < s.covers.size(); ++cv) {
            bool g = s.ctypes[cv] == "glacier";
            u.frac[cv] = g && r.p(0.45) ? 0 : r.p(0.05) ? left : left * r.uni(0.05, 0.8);
            left -= u.frac[cv];
            if (left < 1e-9) left = 0;
        }
        u.frac[0] = left;
    }
    if (r.p(0.3)) {  // changes of the covers that the unit has from the beginning
        randomChanges(r, s);
        for (auto& x : s.changes) if (s.ctypes[x.cover] == "glacier" && s.units[x.unit].frac[x.cover] <= 0) { s.changes.clear(); break; }
    }
    Spec full = s, var = s;
    full.multi = false; full.omitZero = false;
    var.multi = true;
    // Variants: any subsets of the glacier covers, one of them with all of them.
    int n = (int)gl.size();
    std::vector<std::vector<int>> v;
    for (int k = 0; k < (1 << n); ++k) {
        std::vector<int> x;
        for (int i = 0; i < n; ++i) if (k >> i & 1) x.push_back(gl[i]);
        if (k == (1 << n) - 1 || r.p(0.6)) v.push_back(x);
    }
    for (int i = (int)v.size() - 1; i > 0; --i) std::swap(v[i], v[r.i(0, i)]);
    var.variants = v;
    // A variant with more covers than the unit needs the area of the others: listed as zero.
    std::vector<int> expect(s.units.size());
    bool exact = true;
    for (size_t j = 0; j < s.units.size(); ++j) {
        std::set<int> has;
        for (int g : gl) if (s.units[j].frac[g] > 1e-8) has.insert(g);
        size_t best = 99;
        for (size_t k = 0; k < v.size(); ++k) {
            std::set<int> w(v[k].begin(), v[k].end());
            // The variant's other covers count as well: an exact match needs all of them to have an area.
            if (std::includes(w.begin(), w.end(), has.begin(), has.end()) && w.size() < best) { best = w.size(); expect[j] = (int)k; }
        }
        exact &= best == has.size();
    }
    var.omitZero = exact && r.p(0.5);
    c.sample = var.describe();
    auto a = buildModel(full), b = buildModel(var);
    for (size_t j = 0; j < s.units.size(); ++j) {
        HydroUnit* u = b->model->GetSubBasin()->GetHydroUnit((int)j);
        for (int g : gl) {
            bool has = u->TryGetLandCover(s.covers[g]) != nullptr, want = std::find(v[expect[j]].begin(), v[expect[j]].end(), g) != v[expect[j]].end();
            if (has != want) c.fail("variant", fmt("unit #%zu %s the cover '%s' ", j, has ? "was built with" : "lacks", s.covers[g].c_str()) + c.sample);
        }
        c.count("units matched");
    }
    if (r.p(0.2)) {  // no variant fits a unit that needs this cover
        int g = r.pick(gl);
        bool needed = false;
        for (auto& u : s.units) needed |= u.frac[g] > 0.01;
        Spec bad = var;
        std::erase_if(bad.variants, [&](auto& x) { return std::find(x.begin(), x.end(), g) != x.end(); });
        if (bad.variants.empty()) bad.variants.push_back({});
        if (needed) {
            Built z;
            bool ok = false;
            try {
                buildSettings(z.sm, bad, false);
                buildBasin(z.sb, bad);
                z.model = std::make_unique<ModelHydro>();
                ok = z.model->InitializeWithBasin(z.sm, z.sb).has_value() && z.model->IsValid();
            } catch (const std::exception&) { }
            if (ok) c.fail("unfit", "no variant has the cover '" + s.covers[g] + "' of a unit, and the model is accepted " + bad.describe());
            c.count("models without a fitting variant");
        }
    }
    int runs = r.i(1, 2);
    for (int k = 0; k < runs; ++k) {
        if (k) {
            if (r.p(0.7)) {
                Spec t = s;
                t.pars.clear();
                randomParams(r, t, o);
                applyParams(a->sm, t.pars); applyParams(b->sm, t.pars);
                a->model->UpdateParameters(a->sm); b->model->UpdateParameters(b->sm);
                c.count("parameter updates");
            }
            if (r.p(0.2)) { a->model->SaveAsInitialState(); b->model->SaveAsInitialState(); }
            a->model->Reset(); b->model->Reset();
        }
        std::string ea = attempt(*a), eb = attempt(*b);
        if (ea != eb) c.fail("outcome", "full: '" + ea + "', variants: '" + eb + "' " + c.sample);
        if (!ea.empty() || !eb.empty()) { c.count("runs refused"); return; }
        Outputs x = collect(*a->model), y = collect(*b->model);
        const double rt = 1e-12, at = 1e-13;
        for (size_t l = 0; l < y.huLabels.size(); ++l)
            if (find(x.huLabels, y.huLabels[l]) < 0) c.fail("labels", "label '" + y.huLabels[l] + "' only with variants " + c.sample);
        if (x.huLabels.size() != y.huLabels.size() || x.frLabels.size() != y.frLabels.size()) c.fail("labels", fmt("%zu and %zu labels, %zu and %zu covers ", x.huLabels.size(), y.huLabels.size(), x.frLabels.size(), y.frLabels.size()) + c.sample);
        for (size_t j = 0; j < s.units.size(); ++j) {
            auto absent = [&](const std::string& label) {  // of a glacier cover that the unit's variant does not have
                for (int g : gl) {
                    if (std::find(v[expect[j]].begin(), v[expect[j]].end(), g) != v[expect[j]].end()) continue;
                    if (label.starts_with(s.covers[g] + ":") || label.starts_with(s.covers[g] + "_snowpack:") || label == s.covers[g]) return true;
                }
                return false;
            };
            for (size_t l = 0; l < x.huLabels.size(); ++l) {
                int q = find(y.huLabels, x.huLabels[l]);
                if (q < 0) { c.fail("labels", "label '" + x.huLabels[l] + "' is missing " + c.sample); continue; }
                bool none = absent(x.huLabels[l]);
                for (int t = 0; t < s.nsteps; ++t) {
                    double p = x.hu[l](t, j), w = y.hu[q](t, j);
                    if (none ? !std::isnan(w) : !(p == w || close(p, w, at, rt)))
                        c.fail(none ? "missing" : "unit", fmt("run %d unit #%zu '%s' step %d: full %.17g, variant %.17g ", k, j, x.huLabels[l].c_str(), t, p, w) + c.sample);
                }
                c.count(none ? "missing values" : "unit values compared", s.nsteps);
            }
            for (size_t l = 0; l < x.frLabels.size(); ++l) {
                int q = find(y.frLabels, x.frLabels[l]);
                if (q < 0) { c.fail("labels", "fraction '" + x.frLabels[l] + "' is missing " + c.sample); continue; }
                bool none = absent(x.frLabels[l]);
                for (int t = 0; t < s.nsteps; ++t) {
                    double p = x.fr[l](t, j), w = y.fr[q](t, j);
                    if (none ? !(std::isnan(w) || w == 0) || p != 0 : p != w) c.fail("fraction", fmt("unit #%zu '%s' step %d: full %.17g, variant %.17g ", j, x.frLabels[l].c_str(), t, p, w) + c.sample);
                }
            }
        }
        if (x.sbLabels != y.sbLabels) c.fail("labels", "basin labels differ " + c.sample);
        else for (size_t l = 0; l < x.sbLabels.size(); ++l)
            for (int t = 0; t < s.nsteps; ++t)
                if (!close(x.sb[l][t], y.sb[l][t], 1e-12, 1e-10)) c.fail("basin", fmt("run %d '%s' step %d: full %.17g, variants %.17g ", k, x.sbLabels[l].c_str(), t, x.sb[l][t], y.sb[l][t]) + c.sample);
        double dt = std::fabs(a->model->GetTotalET() - b->model->GetTotalET());
        if (!(dt <= 1e-9 * (1 + std::fabs(a->model->GetTotalET())))) c.fail("totals", fmt("total ET: full %.12g, variants %.12g ", a->model->GetTotalET(), b->model->GetTotalET()) + c.sample);
        double sa = a->model->GetTotalSnowStorageChanges(), sv = b->model->GetTotalSnowStorageChanges();
        if (!close(sa, sv, 1e-9, 1e-9)) c.fail("totals", fmt("snow storage changes: full %.12g, variants %.12g ", sa, sv) + c.sample);
        sa = a->model->GetTotalWaterStorageChanges(); sv = b->model->GetTotalWaterStorageChanges();
        if (!close(sa, sv, 1e-9, 1e-9)) c.fail("totals", fmt("water storage changes: full %.12g, variants %.12g ", sa, sv) + c.sample);
        double mx = 0;
        for (int t = 0; t < s.nsteps; ++t) mx = std::max(mx, x.outlet[t]);
        if (mx > 0) c.signature = var.shortSig();
    }
    if (!s.changes.empty()) c.count("with land cover changes");
    if (!s.lats.empty()) c.count("with lateral transport");
}

Check mon::GetCheck() { return {"S05", 16000, 60000, run, "distinct structure with several variants and discharge, compared with the full structure"}; }
