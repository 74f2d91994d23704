// Step-by-step trace of a run (contents and flux amounts after every step) and the topology declared by a specification.
#pragma once
#include "gen.h"

#include "Flux.h"
#include "FluxToBrickInstantaneous.h"
#include "Splitter.h"

namespace gen {

struct TTarget { std::string name; ContentType type = ContentType::Water; bool inst = false; };  // "outlet", "atmosphere", "lateral" or a brick
struct TProc { std::string brick, proc, type; ContentType from = ContentType::Water; std::vector<TTarget> to; };
// The processes declared for a unit (all covers) and for the sub-basin, in declaration order per brick.
std::vector<TProc> declaredUnit(const Spec& s);
std::vector<TProc> declaredSubBasin(const Spec& s);
bool isCoverOrSurface(const Spec& s, const std::string& brick);
int coverOf(const Spec& s, const std::string& brick);  // index of the cover a brick occupies, -1 if the whole unit
double par(const Spec& s, const std::string& component, const std::string& name, double dflt);
// Rain and snow depth of a unit at a step (index into the simulated period), by the documented rule.
void rainSnow(const Spec& s, int unit, int t, double& rain, double& snow);
// Round-off of that division (transition parameters are single precision) [mm].
double splitTol(const Spec& s, int unit, int t);
double forcingAt(const Spec& s, const std::string& name, int unit, int t);
// Brick and content receiving the rain of a cover.
std::string rainTarget(const Spec& s, int cover);

struct Trace {
    const Spec* s = nullptr;
    ModelHydro* m = nullptr;
    std::vector<StoreRef> st;
    struct PRef { int unit; std::string brick, proc; int out; Flux* flux; };
    std::vector<PRef> pr;
    std::map<std::string, int> stIdx, prIdx;
    std::vector<double> init;                   // contents before the first recorded step
    std::vector<std::vector<double>> content;   // [step][store]
    std::vector<std::vector<double>> amount;    // [step][flux]
    std::vector<std::vector<double>> frac;      // [step][unit * covers + cover]
    std::vector<double> q;                      // outlet discharge
    long spin = 0;
    void attach(ModelHydro& m, const Spec& s);  // registers the observer; call before Run
    int store(int unit, const std::string& brick, ContentType t) const;  // -1 if absent
    int flux(int unit, const std::string& brick, const std::string& proc, int out) const;
    std::vector<std::vector<double>> begun;     // [step][store], after the actions of the step
    double before(int t, int i) const { return begun[t][i]; }
    double beforeActions(int t, int i) const { return t == 0 ? init[i] : content[t - 1][i]; }
    double f(int t, int u, int c) const;        // fraction of unit u covered by cover c during step t
    double amt(int t, int unit, const std::string& brick, const std::string& proc, int out = 0) const {
        int i = flux(unit, brick, proc, out);
        return i < 0 ? 0 : amount[t][i];
    }
};

// Everything entering and leaving a store of unit j (or of the sub-basin, j = -1) during step t, by the declared topology.
struct Budget { double in = 0, out = 0, forcing = 0; };
struct Topo {
    const Spec* s;
    const Trace* tr;
    std::vector<TProc> up, sp;
    double area = 0;
    Topo(const Spec& s, const Trace& tr);
    double weight(int t, int unit, const TProc& p, const TTarget& g) const;       // declared weight of a flux
    double released(int t, int unit, const TProc& p, int out) const;  // what left the store, in its own depth
    Budget budget(int t, int store) const;
    // Lateral: list of (giver unit, process, out index, receiver unit, receiver cover, area ratio).
    struct Lat { int giver; int cover; int out; int receiver; int rcover; double fraction; };
    std::vector<Lat> lats;
    double ratio(int t, const Lat& l) const;
    double area_(int u) const { return s->units[u].area; }

};

}  // namespace gen
