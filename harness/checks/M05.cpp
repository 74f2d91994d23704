// Solver schemes: every step of a store network against the named scheme (linear networks) and against a finely
// resolved solution (non-linear networks); synonyms of a solver name give identical outputs.
#include "trace.h"
using namespace mon;
using namespace gen;

namespace {
typedef std::vector<double> Vec;
struct Edge { int from, to; double weight; std::function<double(double)> rate; bool linear; double k; int flux; };  // to: -1 leaves the network
struct Net {
    int n = 0;
    std::vector<Edge> e;
    std::vector<int> order;  // upstream first
    std::vector<Vec> outs;   // edges leaving each node
    double rate(const Edge& x, double S) const { return S <= 0 ? 0 : x.rate(S); }
    Vec deriv(const Vec& S, const Vec& in) const {
        Vec d = in;
        for (auto& x : e) { double r = rate(x, S[x.from]); d[x.from] -= r; if (x.to >= 0) d[x.to] += r * x.weight; }
        return d;
    }
    double out(int i, double S) const { double q = 0; for (auto& x : e) if (x.from == i) q += rate(x, S); return q; }
};
Vec axpy(const Vec& a, double h, const Vec& b) { Vec r = a; for (size_t i = 0; i < r.size(); ++i) r[i] += h * b[i]; return r; }

// End contents of one step. Explicit schemes act on the whole network, the others store by store with the inflow of the step.
// The rates of a stage empty no store below its content at the start: limited tells that this came into play.
Vec staged(const Net& n, const std::string& solver, const Vec& S, const Vec& in, double h, bool* limited = nullptr) {
    auto stage = [&](const Vec& at, bool bounded = true) {
        Vec k = n.deriv(at, in);
        if (limited && bounded) for (size_t i = 0; i < S.size(); ++i) *limited |= S[i] + h * k[i] < 1e-6 && k[i] < 0;
        return k;
    };
    Vec k1 = stage(S);
    if (solver == "euler_explicit") return axpy(S, h, k1);
    if (solver == "heun_explicit") { Vec k2 = stage(axpy(S, h, k1)); return axpy(axpy(S, h / 2, k1), h / 2, k2); }
    Vec k2 = stage(axpy(S, h / 2, k1)), k3 = stage(axpy(S, h / 2, k2)), k4 = stage(axpy(S, h, k3), false);
    Vec r = S;
    for (size_t i = 0; i < r.size(); ++i) r[i] += h / 6 * (k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]);
    return r;
}
// One linear store with constant inflow I and outflow k S + c.
double linearStep(const std::string& solver, double S, double I, double k, double c, double h) {
    I -= c;
    if (solver == "implicit_euler") return (S + h * I) / (1 + h * k);
    if (solver == "crank_nicolson") return (S * (1 - h * k / 2) + h * I) / (1 + h * k / 2);
    if (k * h < 1e-12) return S + h * (I - k * S);  // degenerate
    return S * std::exp(-k * h) + I / k * (1 - std::exp(-k * h));  // exponential Euler and the analytic solution coincide
}
double fine(const Net& n, int i, double S, double I, double h) {
    const int m = 60;
    double d = h / m;
    for (int j = 0; j < m; ++j) {
        double a = I - n.out(i, S), b = I - n.out(i, S + d / 2 * a), c = I - n.out(i, S + d / 2 * b), e = I - n.out(i, S + d * c);
        S += d / 6 * (a + 2 * b + 2 * c + e);
    }
    return S;
}
// The linear stores of an HBV soil column: the upper zone loses constant fluxes (percolation, capillary rise towards one or
// several soils) next to its linear runoff.
void hbvColumn(Ctx& c) {
    Opts o;
    o.fams = {HBV};
    o.allowGlacier = false;
    o.allowSnow = c.rng.p(0.3);
    o.allowSpinup = false;
    o.allowSubdaily = true;
    o.anyOrder = true;
    o.maxSteps = c.thorough ? 200 : 60;
    o.maxUnits = 2;
    o.solvers = {"analytic_linear", "implicit_euler", "crank_nicolson", "exponential_euler"};
    Spec s;
    do s = randomSpec(c.rng, o); while (!s.upperLinear);
    double dt = s.stepDays();
    c.sample = s.describe() + " column";
    auto b = buildModel(s);
    b->model->Reset();
    for (auto& x : stores(*b->model)) if (x.name == "upper_zone" || x.name == "lower_zone") x.wc->SetInitialState(c.rng.logu(5, 500));
    b->model->Reset();
    Trace tr;
    tr.attach(*b->model, s);
    runModel(*b);
    mon::onEvent() = nullptr;
    Topo tp(s, tr);
    long exact = 0;
    for (int t = 0; t < (int)tr.content.size(); ++t)
        for (int u = 0; u < (int)s.units.size(); ++u)
            for (std::string name : {"upper_zone", "lower_zone"}) {
                double in = 0, cst = 0, perc = 0, k = par(s, name, "response_factor", 0.2);
                for (auto& p : tp.up)
                    for (size_t j = 0; j < p.to.size(); ++j) {
                        if (p.to[j].name == name) in += tp.released(t, u, p, (int)j) * tp.weight(t, u, p, p.to[j]) / dt;
                        if (p.brick == name && p.type != "outflow:linear") cst += tr.amt(t, u, name, p.proc, (int)j) / dt;
                        if (p.brick == name && p.type == "percolation:constant") perc = tr.amt(t, u, name, p.proc, (int)j) / dt;
                    }
                int st = tr.store(u, name, ContentType::Water);
                double S = tr.before(t, st), E = tr.content[t][st];
                double demand = name == "upper_zone" ? par(s, name, "percolation_rate", 0.1) : 0;
                if ((s.solver == "implicit_euler" || s.solver == "crank_nicolson") && S > 1e-6 && S + in * dt < 0.99 * demand * dt) {
                    c.count("emptied by a constant loss");
                    if (E > 1e-6)
                        c.fail("emptied:" + s.solver, fmt("unit #%d %s step %d: %.12g -> %.12g, inflow %.12g, while %.12g were to leave ", u, name.c_str(), t, S, E, in, demand * dt) + c.sample);
                    continue;
                }
                if (std::min(S, E) < 3 * cst * dt + 1e-3 || k * dt > 1.9) { c.count("steps near a limit"); continue; }
                if (s.solver == "exponential_euler" && cst > 0) {
                    // This scheme shares the volume of the step in proportion to the rates at its start.
                    if (perc <= 0) continue;
                    cst *= par(s, name, "percolation_rate", 0.1) / perc;
                }
                double want = linearStep(s.solver, S, in, k, cst, dt);
                double tol = 3e-7 + (s.solver == "exponential_euler" ? 1e-7 * (S + in * dt) : 1e-9 * want);
                ++exact;
                if (!close(E, want, tol))
                    c.fail("column:" + s.solver, fmt("unit #%d %s step %d: %.12g -> %.12g, inflow %.12g, k %.9g, constant losses %.9g: the scheme gives %.12g ", u, name.c_str(), t, S, E, in, k, cst, want) + c.sample);
            }
    c.count("column steps on the scheme: " + s.solver, exact);
    if (exact) c.signature = s.shortSig() + fmt("/%d%s", s.stepN, s.stepUnit.c_str());
}
}  // namespace

static void run(Ctx& c) {
    if (c.rng.p(0.12)) return hbvColumn(c);
    Opts o;
    o.fams = {CHAIN};
    o.allowSnow = false;
    o.allowGlacier = false;
    o.allowSpinup = c.rng.p(0.1);
    o.allowSubdaily = true;
    o.anyOrder = true;
    o.maxSteps = c.thorough ? 120 : 40;
    o.maxUnits = 3;
    o.solvers = {"rk4", "euler_explicit", "heun_explicit", "implicit_euler", "crank_nicolson", "exponential_euler", "analytic_linear"};
    Spec s = randomSpec(c.rng, o);
    bool linear = c.rng.p(0.6);
    double dt = s.stepDays();
    // A fresh network of stores, keeping the random units, forcing and declaration order.
    std::erase_if(s.pars, [](auto& p) { return p.component.starts_with("store_"); });
    int nb = (int)s.chain.size();
    std::map<std::string, int> pos;
    for (int i = 0; i < nb; ++i) pos[s.chain[i].name] = std::stoi(s.chain[i].name.substr(6));
    bool perc = c.rng.p(0.3);
    double kmax = linear ? 0.95 : 0.12;
    for (auto& b : s.chain) {
        b.procs.clear();
        b.capacity = -1;
        auto target = [&]() -> std::string {
            std::vector<std::string> t;
            for (auto& x : s.chain) if (pos[x.name] > pos[b.name]) t.push_back(x.name);
            return t.empty() || c.rng.p(0.3) ? "outlet" : c.rng.pick(t);
        };
        bool hasEt = !linear && !b.subBasin && c.rng.p(0.5);
        if (hasEt) {
            b.capacity = (float)c.rng.logu(2000, 20000);
            b.procs.push_back({"et", c.rng.p(0.5) ? "et:linear" : "et:socont", ""});
            s.pars.push_back({b.name, "capacity", b.capacity});
        }
        if (!linear && !b.subBasin && c.rng.p(0.5)) {
            double al = c.rng.uni(0, 0.8);
            b.procs.push_back({"quick", "runoff:hbv", target()});
            s.pars.push_back({b.name, "alpha", (float)al});
            s.pars.push_back({b.name, "response_factor", (float)std::min(kmax / dt / 8, c.rng.logu(1e-5, 1e-3) / dt)});
        } else {
            b.procs.push_back({"outflow", "outflow:linear", target()});
            s.pars.push_back({b.name, "response_factor", (float)(c.rng.p(0.05) && linear ? 0 : c.rng.logu(0.002, kmax) / dt)});
        }
        if (perc && !b.subBasin && c.rng.p(0.5)) {
            b.procs.push_back({"percolation", "percolation:constant", target()});
            s.pars.push_back({b.name, "percolation_rate", (float)c.rng.uni(0, 1.0)});
        }
        if (hasEt) b.procs.push_back({"overflow", "overflow", target()});
    }
    if (!linear) for (int j = 0; j < s.forcing["precipitation"].cols(); ++j) for (int t = 0; t < s.forcing["precipitation"].rows(); ++t) s.forcing["precipitation"](t, j) = std::min(s.forcing["precipitation"](t, j), 30 * dt);
    c.sample = s.describe() + (linear ? " linear" : " non-linear");

    auto b = buildModel(s);
    b->model->Reset();
    // Start from filled stores.
    std::vector<double> init0;
    for (auto& x : stores(*b->model)) if (x.name.starts_with("store_")) { init0.push_back(c.rng.p(0.2) && linear ? 0 : c.rng.logu(20, 1500)); x.wc->SetInitialState(init0.back()); }
    b->model->Reset();
    Trace tr;
    tr.attach(*b->model, s);
    try {
        runModel(*b);
    } catch (const std::runtime_error& e) {
        mon::onEvent() = nullptr;
        if (std::string(e.what()).find("is too high") == std::string::npos) throw;
        c.count("refused: rate beyond the supported range");
        return;
    }
    Topo tp(s, tr);

    // The declared network.
    Net n;
    std::map<std::pair<int, std::string>, int> node;
    std::vector<std::pair<int, std::string>> nodes;
    for (int u = -1; u < (int)s.units.size(); ++u)
        for (auto& x : s.chain) if (x.subBasin == (u < 0)) { node[{u, x.name}] = n.n++; nodes.push_back({u, x.name}); }
    std::vector<double> cap(n.n, 1e300);
    Vec petOf(n.n, 0);
    std::vector<std::pair<int, int>> spill;  // overflows: the store they reach, the flux
    for (int i = 0; i < n.n; ++i) {
        const ChainBrick* cb = nullptr;
        for (auto& x : s.chain) if (x.name == nodes[i].second) cb = &x;
        int u = nodes[i].first;
        if (cb->capacity > 0) cap[i] = cb->capacity;
        double ca = cb->capacity;
        for (auto& p : cb->procs) {
            Edge e;
            e.from = i; e.to = -1; e.weight = 1; e.linear = false; e.k = 0;
            e.flux = tr.flux(u, cb->name, p.name, 0);
            if (!p.target.empty() && p.target != "outlet") {
                auto it = node.find({u, p.target});
                if (it != node.end()) e.to = it->second;
                else { e.to = node.at({-1, p.target}); e.weight = s.units[u].area / tp.area; }
            }
            if (p.type == "overflow") { if (e.to >= 0) spill.push_back({e.to, e.flux}); continue; }
            double k = par(s, cb->name, "response_factor", 0.2), al = par(s, cb->name, "alpha", 1), pr = par(s, cb->name, "percolation_rate", 0);
            double* pet = &petOf[i];
            if (p.type == "outflow:linear") { e.rate = [k](double S) { return k * S; }; e.linear = true; e.k = k; }
            else if (p.type == "percolation:constant") e.rate = [pr](double) { return pr; };
            else if (p.type == "runoff:hbv") e.rate = [k, al](double S) { return k * std::pow(S, 1 + al); };
            else if (p.type == "et:linear") e.rate = [pet, ca](double S) { return *pet * S / ca; };
            else e.rate = [pet, ca](double S) { return *pet * std::sqrt(S / ca); };
            n.e.push_back(e);
        }
    }
    std::vector<int> st(n.n);
    for (int i = 0; i < n.n; ++i) st[i] = tr.store(nodes[i].first, nodes[i].second, ContentType::Water);
    bool isStaged = s.solver == "rk4" || s.solver == "euler_explicit" || s.solver == "heun_explicit";
    int order = s.solver == "rk4" ? 4 : (s.solver == "heun_explicit" || s.solver == "crank_nicolson" || s.solver == "exponential_euler") ? 2 : 1;
    long exact = 0, resolved = 0;
    for (int t = 0; t < (int)tr.content.size(); ++t) {
        Vec S(n.n), E(n.n), in(n.n, 0), part(n.n, 0);
        for (int i = 0; i < n.n; ++i) {
            S[i] = tr.before(t, st[i]); E[i] = tr.content[t][st[i]];
            if (nodes[i].first >= 0) petOf[i] = forcingAt(s, "pet", nodes[i].first, t);
        }
        for (int u = 0; u < (int)s.units.size(); ++u)
            for (auto& p : tp.up) {
                if (coverOf(s, p.brick) < 0) continue;
                auto it = node.find({u, p.to[0].name});
                if (it == node.end()) it = node.find({-1, p.to[0].name});
                if (it != node.end()) in[it->second] += tp.released(t, u, p, 0) * tp.weight(t, u, p, p.to[0]) / dt;
            }
        // Away from empty and full stores no storage limit interferes with the scheme.
        std::vector<bool> ok(n.n, true);
        Vec q(n.n, 0);  // relative size of a step, for the error bound
        double F = 0, Q = 0;
        std::vector<double> inAll = in;  // with the observed inflow from other stores
        for (auto& e : n.e) if (e.to >= 0) inAll[e.to] += tr.amount[t][e.flux] / dt;
        bool all = true;
        for (auto& [to, flux] : spill) if (tr.amount[t][flux] > 0) { ok[to] = all = false; c.count("overflows into another store"); }
        for (int i = 0; i < n.n; ++i) {
            double constant = 0, cover = 0;
            for (auto& e : n.e) if (e.from == i && !e.linear) { constant += e.rate(std::max(S[i], 1e-9)) * dt; }
            for (auto& e : n.e) if (e.from == i) cover += e.rate(std::max(S[i], 1e-9)) * dt;
            if (constant > 0 && std::min(S[i], E[i]) < 3 * constant + 1e-3) ok[i] = false;
            if (cover > S[i] + 1e-12 && S[i] > 0) ok[i] = false;
            if (std::max(S[i], E[i]) + inAll[i] * dt > 0.95 * cap[i]) ok[i] = false;
            double fl = std::max(inAll[i], std::max(n.out(i, S[i]), n.out(i, E[i]))) * dt;
            double base = std::min(S[i], E[i]), L = base > 0 ? std::max((n.out(i, S[i] * 1.001) - n.out(i, S[i])) / (S[i] * 0.001), (n.out(i, E[i] * 1.001) - n.out(i, E[i])) / (E[i] * 0.001)) * dt : 1;
            q[i] = base > 0 ? std::max(L, fl / base) : 1;
            F = std::max(F, fl); Q = std::max(Q, q[i]);
            all = all && ok[i];
        }
        auto where = [&](int i) { return fmt("unit #%d %s step %d: %.12g -> %.12g", nodes[i].first, nodes[i].second.c_str(), t, S[i], E[i]); };
        if (isStaged && linear) {
            // A store that is empty or limited disturbs the stores downstream of it: judge the network as a whole.
            if (!all) { c.count("steps near a limit"); continue; }
            bool limited = false;
            Vec want = staged(n, s.solver, S, in, dt, &limited);
            if (limited) { c.count("steps near a limit"); continue; }
            for (int i = 0; i < n.n; ++i) {
                ++exact;
                if (!close(E[i], want[i], 2e-7, 1e-9))
                    c.fail("scheme:" + s.solver, where(i) + fmt(", the scheme gives %.12g ", want[i]) + c.sample);
            }
        } else if (isStaged) {
            if (!all || Q > 0.25) { c.count("steps near a limit"); continue; }
            Vec ref = S;
            for (int j = 0; j < 40; ++j) ref = staged(n, "rk4", ref, in, dt / 40);
            double bound = 1e-6 + 3 * std::pow(Q, order) * F;
            for (int i = 0; i < n.n; ++i) {
                ++resolved;
                c.count("order " + std::to_string(order));
                if (!close(E[i], ref[i], bound)) c.fail("order:" + s.solver, where(i) + fmt(", resolved solution %.12g, bound %.3g ", ref[i], bound) + c.sample);
            }
        } else {
            for (int i = 0; i < n.n; ++i) {
                if (!ok[i]) { c.count("steps near a limit"); continue; }
                double k = 0, cst = 0;
                bool lin = true;
                for (auto& e : n.e) if (e.from == i) { if (e.linear) k += e.k; else if (e.rate(1) == e.rate(2)) cst += e.rate(1); else lin = false; }
                if (lin && !(S[i] <= 1e-8 && (cst > 0 || S[i] + inAll[i] * dt <= 1e-6))) {
                    // The slope of the exponential Euler scheme may be found numerically; empty stores release nothing at their start.
                    double want = linearStep(s.solver, S[i], inAll[i], k, cst, dt);
                    double tol = 3e-7 + (s.solver == "exponential_euler" ? 1e-7 * (S[i] + inAll[i] * dt) : 1e-9 * want);
                    if (s.solver == "exponential_euler" && k <= 1e-9) continue;
                    ++exact;
                    if (!close(E[i], want, tol)) c.fail("scheme:" + s.solver, where(i) + fmt(", inflow %.12g, k %.9g: the scheme gives %.12g ", inAll[i], k, want) + c.sample);
                } else if (!lin && q[i] < 0.25) {
                    double ref = fine(n, i, S[i], inAll[i], dt), fl = std::max(inAll[i], std::max(n.out(i, S[i]), n.out(i, E[i]))) * dt;
                    double bound = 1e-6 + 3 * std::pow(q[i], order) * fl + (s.solver == "exponential_euler" ? 2e-3 * q[i] * fl : 0);
                    ++resolved;
                    c.count("order " + std::to_string(order));
                    if (!close(E[i], ref, bound)) c.fail("order:" + s.solver, where(i) + fmt(", resolved solution %.12g, bound %.3g ", ref, bound) + c.sample);
                }
            }
        }
    }
    c.count("steps on the scheme: " + s.solver, exact);
    c.count("steps against the resolved solution", resolved);
    // Synonyms select the same scheme.
    static const std::map<std::string, std::string> syn = {{"rk4", "runge_kutta"}, {"analytic_linear", "analytic"}, {"implicit_euler", "euler_implicit"}, {"crank_nicolson", "trapezoidal"}};
    mon::onEvent() = nullptr;
    auto it = syn.find(s.solver);
    if (it != syn.end() && c.rng.p(0.2)) {
        auto o1 = (b->model->Reset(), runModel(*b), collect(*b->model));
        Spec s2 = s;
        s2.solver = it->second;
        auto b2 = buildModel(s2);
        size_t k = 0;
        for (auto& x : stores(*b2->model)) if (x.name.starts_with("store_")) x.wc->SetInitialState(init0.at(k++));
        b2->model->Reset();
        runModel(*b2);
        std::string df = diff(o1, collect(*b2->model));
        c.count("synonyms");
        if (!df.empty()) c.fail("synonym:" + it->second, df + " " + c.sample);
    }
    if (exact + resolved > 0) c.signature = s.shortSig() + fmt("/%d%s/%d", s.stepN, s.stepUnit.c_str(), linear);
}

Check mon::GetCheck() { return {"M05", 40000, 150000, run, "distinct network (stores, targets, scheme, time step) with steps judged against the scheme or the resolved solution"}; }
