// Random model generator: builds settings, basins and forcing through the public API only.
#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "Action.h"
#include "ActionLandCoverChange.h"
#include "Brick.h"
#include "Glacier.h"
#include "HydroUnit.h"
#include "LandCover.h"
#include "Logger.h"
#include "ModelHydro.h"
#include "Process.h"
#include "SettingsBasin.h"
#include "SettingsModel.h"
#include "Snowpack.h"
#include "SubBasin.h"
#include "Utils.h"
#include "WaterContainer.h"
#include "mon.h"

namespace gen {

enum Fam { SOCONT, GR4J, GR6J, HBV, CHAIN };

struct UnitSpec {
    int id;
    double area, elev;
    double slopeDeg;
    std::string aspect;
    std::vector<double> frac;  // one per cover of the specification
};
struct LatSpec { int giver, receiver; double fraction; };
struct ChangeSpec { long step; int unit, cover; double frac; long early; };  // applied at a step, dated up to a step earlier [minutes]
struct TableSpec { bool deltaH = true; int month = 10; std::string cover; std::vector<int> units; axxd area, volume; };  // glacier evolution [m2, m3]
struct IceDateSpec { int month, day; std::string cover; };  // snow to ice transformation
struct ParSpec { std::string component, name; float value; };
struct ChainProc { std::string name, type, target; bool inst = false; };
struct ChainBrick { std::string name; bool subBasin = false; float capacity = -1; std::vector<ChainProc> procs; };

struct Spec {
    Fam fam = SOCONT;
    bool snow = true, retention = false, refreeze = false, rainToSnow = false, cemaSplitMM = false;
    std::string split = "snow_rain:linear", melt = "melt:degree_day", subl, iceT, redist;
    bool skipGl = false;
    std::vector<std::string> covers, ctypes;  // covers[0] is the generic one
    bool multi = false;                       // glacier-free base structure plus a with-glacier variant
    std::vector<std::vector<int>> variants;   // or, with multi, these: the glacier covers of each (the first one has the basin level)
    bool omitZero = false;                    // the basin does not list the glacier covers without area
    int soilNb = 1;
    std::string runoff = "socont_runoff";
    bool infGl = false;
    bool otherNames = false;  // process types under their other name
    bool discrete = true;     // GR4J / GR6J
    bool sharedSoil = true;   // HBV
    std::vector<int> canopy;  // covers with a canopy (HBV)
    bool instGlacier = true;
    std::vector<ChainBrick> chain;
    std::vector<std::vector<ChainProc>> coverProcs;  // chain: processes of the covers (empty: outflow:direct to the head store)
    std::string head = "store_1";  // the store of the chain that receives from the covers
    std::string solver = "heun_explicit";
    int spinup = 0;
    int nsteps = 60;
    int y0 = 2020, m0 = 1, d0 = 1;
    int stepN = 1; std::string stepUnit = "day";
    int startMin = 0;     // minutes past midnight of the first date
    int endExtraMin = 0;  // minutes the period continues past the last simulated date (less than a step)
    int dataBefore = 0, dataAfter = 0;  // extra forcing days around the period
    double jitter = 0;  // inaccuracy of the forcing dates [s]
    std::vector<UnitSpec> units;
    std::vector<LatSpec> lats;
    std::vector<ParSpec> pars;
    std::map<std::string, axxd> forcing;  // rows: dataBefore + nsteps + dataAfter, cols: unit order
    std::map<std::string, double> initIce;  // initial ice [mm w.e.] per glacier cover (finite storages)
    std::vector<ChangeSpec> changes;        // land cover changes, in registration order
    std::vector<TableSpec> tables;          // glacier evolution actions (after the changes)
    std::vector<IceDateSpec> iceDates;      // snow-to-ice actions (after the tables)
    bool glacierAction = false;             // the extents are changed by a glacier evolution action
    bool upperLinear = false;               // HBV with a linear outflow of the upper zone
    bool snowSeep = false;                  // chain: the snowpacks leak to the head store
    bool logAll = true;
    double start() const;  // MJD of the first simulated date
    double stepDays() const;
    long stepMinutes() const;
    double dateOf(long step) const;  // MJD of a step, from exact minutes
    std::string describe() const;
    std::string shortSig() const;
    std::vector<ChainProc> procsOf(size_t cover) const;
    bool usesType(const std::string& type) const;  // by a cover or a store of the chain, or the surface runoff
};

struct Opts {
    std::vector<Fam> fams = {SOCONT, GR4J, GR6J, HBV, CHAIN};
    bool allowSnow = true, allowGlacier = true, allowFiniteGlacier = true, allowInfGlacier = true, allowMulti = true,
         allowLateral = true, allowSpinup = true, allowExchange = false, allowAspect = true, allowCorrection = false,
         allowContinuousGR = true, lateralAlways = false, lateralAnyOrder = false, allowNonTrivialStart = true, allowExtraData = true, allowSubdaily = false, anyOrder = false, allowChanges = false, roundFractions = false, extremeShares = false;
    std::vector<std::string> solvers = {"rk4", "euler_explicit", "heun_explicit", "implicit_euler", "crank_nicolson", "exponential_euler"};
    double maxStepDays = 7;
    int minSteps = 20, maxSteps = 120, minUnits = 1, maxUnits = 4, maxGlacierCovers = 2;
};

Spec randomSpec(mon::Rng& r, const Opts& o);
void randomChanges(mon::Rng& r, Spec& s, bool glaciers = true);
// Glacier evolution tables starting from the extents of the specification, and snow-to-ice dates.
void randomGlacierActions(mon::Rng& r, Spec& s);
void randomForcing(mon::Rng& r, Spec& s);
void randomParams(mon::Rng& r, Spec& s, const Opts& o);

void buildSettings(SettingsModel& sm, const Spec& s, bool applyParams = true);
void applyParams(SettingsModel& sm, const std::vector<ParSpec>& pars);
void buildBasin(SettingsBasin& sb, const Spec& s);
std::string dateStr(double mjd);
long civilToMjd(int y, int m, int d);  // own Gregorian calendar, independent of the core
std::string dateTimeStr(long mjd, long minute);  // minutes may exceed a day

// A fully built model with its settings (which must outlive it).
struct Built {
    SettingsModel sm;
    SettingsBasin sb;
    std::unique_ptr<ModelHydro> model;
    std::vector<std::unique_ptr<Action>> actions;
    ~Built() { model.reset(); }
};
std::unique_ptr<Built> buildModel(const Spec& s, bool attachForcing = true);  // throws std::runtime_error on failure
void attachForcing(ModelHydro& m, const Spec& s);
void setInitialIce(ModelHydro& m, const Spec& s);
void runModel(Built& b);  // throws on failure

// All outputs of a run, bit for bit comparable.
struct Outputs {
    axd time, outlet;
    std::vector<std::string> sbLabels, huLabels, frLabels;
    vecAxd sb;
    vecAxxd hu, fr;
};
Outputs collect(ModelHydro& m);
// Returns an empty string if equal; otherwise describes the first difference.
std::string diff(const Outputs& a, const Outputs& b, double atol = 0, double rtol = 0);

// The same for rows [a0, a0+n) and [b0, b0+n), whatever their dates.
std::string diffRows(const Outputs& a, int a0, const Outputs& b, int b0, int n, double atol = 0, double rtol = 0);

// State of every store of the model (contents without pending changes).
struct StoreRef { std::string name; ContentType type; Brick* brick; WaterContainer* wc; HydroUnit* unit; };
std::vector<StoreRef> stores(ModelHydro& m);
double coverFraction(const StoreRef& s);  // fraction of its unit a store occupies (1 if none)
// Basin-average total stored water (water + snow + ice of finite storages) [mm].
double totalStorage(ModelHydro& m);

}  // namespace gen
