// Documented process laws, evaluated on the observed state of every step and compared with the observed fluxes.
#pragma once
#include "trace.h"

namespace gen {

struct LawItem {
    int unit = -1, step = 0;
    std::string brick, proc, type;
    int out = 0;
    double law = 0;    // amount the law gives for the step [mm], before limits
    double avail = 0;  // what the container holds at that point
    double obs = 0;    // observed amount, in the depth of the source
    double tol = 0;    // round-off allowance from the forcing partition
    bool exact = true; // false: the law only bounds the flux (limits of other stores may apply)
    double state = 0;  // content the law was evaluated at
};

struct Laws {
    const Spec& s;
    const Trace& tr;
    const Topo& tp;
    double dt;
    struct SnowMem { double cold = 0, rho = 250, prev = 0; };
    std::map<std::pair<int, std::string>, SnowMem> mem;
    Laws(const Spec& s, const Trace& tr, const Topo& tp);
    // Bricks computed directly (canopies, snowpacks, land covers), in the order of the unit.
    void direct(int t, const std::function<void(const LawItem&)>& f);
    // Solved bricks, rates of the explicit Euler scheme at the state of the start of the step.
    void solved(int t, const std::function<void(const LawItem&)>& f);
    double ddf(int unit, const std::string& brick, const std::string& melt) const;
    double meltLaw(int t, int u, const std::string& brick, const std::string& type, double content, SnowMem* m) const;

    double socontRunoff(int u, const std::string& brick, double content, double coverFraction) const;

  private:
    std::map<std::string, std::vector<const TProc*>> byBrick_;
    std::vector<std::string> directOrder_;
    double inputs(int t, int u, const std::string& brick, ContentType type) const;
    double latIn(int t, int u, const std::string& brick, bool earlierOnly, bool laterOnly) const;
    double depositsOf(int t, int u, const std::string& brick) const;  // instantaneous deposits into a solved brick
};

// Published GR4J store functions (Perrin et al., 2003).
double gr4jInfiltration(double S, double Pn, double X1);
double gr4jEvaporation(double S, double En, double X1);
double gr4jPercolation(double S, double X1);

}  // namespace gen
