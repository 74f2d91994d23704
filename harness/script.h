// Call scripts: sequences of calls of the public interface as data, recorded from valid constructions, mutated, executed on
// the real objects.
#pragma once
#include <memory>
#include <string>
#include <vector>

#include "gen.h"
#include "mon.h"

namespace script {

struct Op {
    std::string f;
    std::vector<std::string> s;
    std::vector<double> d;
    std::string str() const;
};

// Same calls as SettingsModel / SettingsBasin; records them.
struct Recorder {
    std::vector<Op> ops;
    int nStruct = 1;
    void add(const char* f, std::vector<std::string> s = {}, std::vector<double> d = {}) { ops.push_back({f, std::move(s), std::move(d)}); }
    void SetSolver(const std::string& n) { add("SetSolver", {n}); }
    void SetTimer(const std::string& a, const std::string& b, int n, const std::string& u) { add("SetTimer", {a, b, u}, {(double)n}); }
    void SetSpinupDays(int n) { add("SetSpinupDays", {}, {(double)n}); }
    void SetLogAll(bool b) { add("SetLogAll", {}, {(double)b}); }
    void GeneratePrecipitationSplitters(bool b, const std::string& t) { add("GeneratePrecipitationSplitters", {t}, {(double)b}); }
    void AddLandCoverBrick(const std::string& n, const std::string& t) { add("AddLandCoverBrick", {n, t}); }
    void AddHydroUnitBrick(const std::string& n, const std::string& t) { add("AddHydroUnitBrick", {n, t}); }
    void AddSubBasinBrick(const std::string& n, const std::string& t) { add("AddSubBasinBrick", {n, t}); }
    void SelectHydroUnitBrick(const std::string& n) { add("SelectHydroUnitBrick", {n}); }
    void AddBrickParameter(const std::string& n, float v) { add("AddBrickParameter", {n}, {v}); }
    void AddBrickProcess(const std::string& n, const std::string& t, const std::string& target = "") { add("AddBrickProcess", {n, t, target}); }
    void AddProcessOutput(const std::string& t) { add("AddProcessOutput", {t}); }
    void SetProcessOutputsAsInstantaneous() { add("SetProcessOutputsAsInstantaneous"); }
    void SetCurrentBrickComputedDirectly() { add("SetCurrentBrickComputedDirectly"); }
    void GenerateCanopyInterception(const std::string& c, const std::string& t) { add("GenerateCanopyInterception", {c, t}); }
    void GenerateSnowpacks(const std::string& m) { add("GenerateSnowpacks", {m}); }
    void GenerateSnowpacksWithWaterRetention(const std::string& m, const std::string& o, bool r) { add("GenerateSnowpacksWithWaterRetention", {m, o}, {(double)r}); }
    void AddSnowpackRefreezing(const std::string& p) { add("AddSnowpackRefreezing", {p}); }
    void AddSnowIceTransformation(const std::string& p) { add("AddSnowIceTransformation", {p}); }
    void AddSnowRedistribution(const std::string& p, bool k) { add("AddSnowRedistribution", {p}, {(double)k}); }
    void AddSnowpackSublimation(const std::string& p) { add("AddSnowpackSublimation", {p}); }
    void AddLoggingToItem(const std::string& n) { add("AddLoggingToItem", {n}); }
    int AddStructure() { add("AddStructure"); return ++nStruct; }
    bool SelectStructure(int i) { add("SelectStructure", {}, {(double)i}); return true; }
    bool SetParameterValue(const std::string& c, const std::string& n, float v) { add("SetParameterValue", {c, n}, {v}); return true; }
    void AddHydroUnit(int id, double a, double e) { add("AddHydroUnit", {}, {(double)id, a, e}); }
    void AddHydroUnitPropertyDouble(const std::string& n, double v, const std::string& u) { add("AddHydroUnitPropertyDouble", {n, u}, {v}); }
    void AddHydroUnitPropertyString(const std::string& n, const std::string& v) { add("AddHydroUnitPropertyString", {n, v}); }
    void AddLandCover(const std::string& n, const std::string& t, double f) { add("AddLandCover", {n, t}, {f}); }
    void AddLateralConnection(int a, int b, double f) { add("AddLateralConnection", {}, {(double)a, (double)b, f}); }
};

// The objects a script works on. The settings outlive the model.
struct Session {
    SettingsModel sm;
    SettingsBasin sb;
    std::vector<std::unique_ptr<Action>> actions;
    std::unique_ptr<ModelHydro> model;
    const gen::Spec* spec = nullptr;  // source of the forcing, the actions
    SettingsModel* other = nullptr;   // settings of another structure
    std::string dir;
    std::map<std::string, long> refusals;
    bool verbose = false;
    long done = 0, refused = 0, runs = 0;
    ~Session() { model.reset(); }
};

// The construction, a run and what follows, as recorded calls.
std::vector<Op> record(const gen::Spec& s, bool withParams = true);
std::vector<Op> workload(mon::Rng& r, const gen::Spec& s);  // calls on the built model
// Replaces, removes, repeats, swaps some calls or their arguments; true if the structure of the settings may be changed.
std::string mutate(mon::Rng& r, std::vector<Op>& ops, const gen::Spec& s, int n);
// Executes a call; errors are reported by exceptions or results, counted here.
void exec(Session& x, const Op& op);

}  // namespace script
