// R01: no call of the public interface corrupts memory, has undefined behaviour, ends the process or leaks.
#include <cstddef>

extern "C" size_t __sanitizer_get_current_allocated_bytes();

#include <filesystem>
#include <set>

#include "../script.h"

using namespace gen;

static gen::Opts opts(mon::Rng& r) {
    Opts o;
    o.maxSteps = 50; o.minSteps = 3;
    o.allowSubdaily = true; o.lateralAnyOrder = true; o.anyOrder = true; o.allowExchange = true;
    o.allowChanges = r.p(0.5); o.roundFractions = true;
    return o;
}

struct Tally { long done = 0, refused = 0, runs = 0; std::map<std::string, long> refusals; };

static Tally play(const std::vector<script::Op>& ops, const Spec& s, SettingsModel* other, const std::string& dir, bool verbose) {
    script::Session x;
    x.spec = &s;
    x.other = other;
    x.dir = dir;
    x.verbose = verbose;
    x.model = std::make_unique<ModelHydro>();
    for (auto& o : ops) {
        if (verbose) fprintf(stderr, "  %s\n", o.str().c_str());
        script::exec(x, o);
    }
    return {x.done, x.refused, x.runs, x.refusals};
}

static void run(mon::Ctx& c) {
    auto& r = c.rng;
    Opts o = opts(r);
    Spec s = randomSpec(r, o);
    if (r.p(0.25)) { Spec t = s; randomGlacierActions(r, t); s = t; }
    bool hostile = r.p(0.65);
    std::vector<script::Op> build = script::record(s), work = script::workload(r, s), ops;
    std::string mut;
    if (hostile) {
        if (r.p(0.6)) mut += script::mutate(r, build, s, r.i(1, 3));
        if (mut.empty() || r.p(0.5)) mut += script::mutate(r, work, s, r.i(1, 3));
        // The structure of the settings is not changed once a model uses them.
        std::vector<script::Op> w1, w2;
        auto ofModel = [](const script::Op& p) {
            static const std::set<std::string> m = {"Init", "SetIce", "AddForcing", "Attach", "ClearForcing", "AddChanges", "AddTable", "AddIceDate", "AddBadTable", "AddBadChange", "AddBadIceDate", "Actions", "Run",
                "Reset", "SaveState", "Update", "Dump", "Getters", "NewModel", "SetParameterValue", "SelectStructure", "SelectHydroUnitBrick", "SelectProcess", "BasinClear", "BasinSelect", "AddHydroUnit", "SetSolver", "SetSpinupDays"};
            return m.count(p.f) > 0;
        };
        std::vector<script::Op> all = build;
        all.insert(all.end(), work.begin(), work.end());
        bool used = false;
        for (auto& p : all) {
            if (p.f == "Init") used = true;
            if (used && !ofModel(p)) continue;
            ops.push_back(p);
        }
    } else {
        ops = build;
        ops.insert(ops.end(), work.begin(), work.end());
    }
    c.sample = (hostile ? "hostile [" + mut + "] " : "valid ") + s.describe();
    std::string dir = mon::scratchDir() + "/r01";
    std::filesystem::create_directories(dir);
    SettingsModel other;
    Spec s2 = r.p(0.5) ? randomSpec(r, o) : s;
    buildSettings(other, s2);

    Tally t = play(ops, s, &other, dir, c.verbose);
    c.count("calls performed", t.done);
    c.count("calls refused", t.refused);
    c.count("runs", t.runs);
    c.count(hostile ? "hostile sessions" : "valid sessions");
    if (!hostile) for (auto& [f, n] : t.refusals) c.count("refused in valid sessions: " + f, n);
    c.signature = s.shortSig() + "|" + mut;
    if (r.p(0.15)) {
        // What a session allocates is released with it.
        auto free0 = [] { mon::capturedLog().clear(); mon::capturedLog().shrink_to_fit(); };
        play(ops, s, &other, dir, false);
        free0();
        size_t a = __sanitizer_get_current_allocated_bytes();
        play(ops, s, &other, dir, false);
        free0();
        size_t b = __sanitizer_get_current_allocated_bytes();
        play(ops, s, &other, dir, false);
        free0();
        size_t d = __sanitizer_get_current_allocated_bytes();
        if (b > a && d > b) c.fail("leak", mon::fmt("each repetition of the session keeps memory allocated: %zu, %zu, %zu bytes [", a, b, d) + c.sample + "]");
        c.count("sessions checked for leaks");
    }
}

mon::Check mon::GetCheck() {
    return {"R01", 1500, 40000, run,
            "no call sequence (valid or not) of the public interface makes the sanitizers, the assertions of the libraries or the allocation balance report anything"};
}
