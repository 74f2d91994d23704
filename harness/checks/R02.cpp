// R02: models that run at the same time in different threads give what each gives alone, without a data race.
#include <atomic>
#include <barrier>
#include <set>
#include <thread>

#include "../gen.h"
#include "ModelHydro.h"

using namespace gen;

namespace {

// Which model took which step, in the order of arrival. Relaxed on purpose: the recording must not order the threads.
struct Journal {
    static constexpr size_t MAX = 1 << 16;
    std::atomic<size_t> n{0};
    std::unique_ptr<std::atomic<unsigned char>[]> who{new std::atomic<unsigned char>[MAX]};
    void add(unsigned char w) {
        size_t i = n.fetch_add(1, std::memory_order_relaxed);
        if (i < MAX) who[i].store(w, std::memory_order_relaxed);
    }
};

struct Life {
    Spec spec;
    std::vector<ParSpec> later;  // parameters of the second run
    int runs = 1;
    std::vector<Outputs> out;
    std::string error;
};

thread_local unsigned char tlWho = 255;
thread_local mon::Rng* tlRng = nullptr;
thread_local double tlDelay = 0;

void build(Life& l, std::unique_ptr<Built>& b) {
    try { b = buildModel(l.spec); } catch (const std::exception& e) { l.error = std::string("build: ") + e.what(); }
}

void live(Life& l, Built& b) {
    try {
        for (int k = 0; k < l.runs; ++k) {
            if (k > 0) {
                applyParams(b.sm, l.later);
                b.model->UpdateParameters(b.sm);
                b.model->Reset();
            }
            ModelResult r = b.model->Run();
            if (!r) { l.error = "run refused"; return; }
            l.out.push_back(collect(*b.model));
        }
    } catch (const std::exception& e) {
        l.error = std::string("run: ") + e.what();
    }
}

}  // namespace

static void run(mon::Ctx& c) {
    auto& r = c.rng;
    Opts o;
    o.minSteps = 10; o.maxSteps = c.thorough ? 200 : 80; o.maxUnits = 6;
    o.allowSubdaily = true; o.lateralAnyOrder = true; o.anyOrder = true; o.allowExchange = true; o.allowChanges = r.p(0.4);
    o.roundFractions = true;
    int n = r.i(2, 6);
    bool same = r.p(0.4);  // the same structure everywhere: every shared piece of code is shared at once
    std::vector<Life> alone(n);
    for (int i = 0; i < n; ++i) {
        if (same && i > 0) {
            alone[i].spec = alone[0].spec;
            randomParams(r, alone[i].spec, o);
            if (r.p(0.5)) randomForcing(r, alone[i].spec);
        } else {
            alone[i].spec = randomSpec(r, o);
            if (r.p(0.3)) randomGlacierActions(r, alone[i].spec);
        }
        alone[i].runs = r.i(1, 3);
        Spec t = alone[i].spec;
        randomParams(r, t, o);
        alone[i].later = t.pars;
    }
    std::vector<Life> together = alone;
    c.sample = mon::fmt("%d models ", n);
    for (auto& l : alone) c.sample += l.spec.shortSig() + " ";
    mon::onEvent() = nullptr;
    for (auto& l : alone) {
        std::unique_ptr<Built> b;
        build(l, b);
        if (!b) { c.count("skipped: refused construction"); return; }
        live(l, *b);
    }
    // 0: models prepared beforehand, only run at the same time; 1: the whole life in its thread.
    bool whole = r.p(0.5);
    bool noise = r.p(0.3);  // another thread logs and changes the verbosity
    Journal j;
    mon::onEvent() = [&j](const char* ev, ModelHydro*) {
        if (tlWho == 255) return;
        if (ev[0] == 's') j.add(tlWho);
        if (tlRng && tlRng->p(tlDelay)) {
            if (tlRng->p(0.7)) std::this_thread::yield();
            else std::this_thread::sleep_for(std::chrono::microseconds(tlRng->i(1, 200)));
        }
    };
    std::vector<std::unique_ptr<Built>> built(n);
    if (!whole) for (int i = 0; i < n; ++i) build(together[i], built[i]);
    std::vector<mon::Rng> rngs;
    for (int i = 0; i < n; ++i) rngs.emplace_back(r.next());
    double delay = r.pick(std::vector<double>{0, 0.02, 0.1, 0.4});
    std::barrier start(n);
    std::vector<std::thread> th;
    for (int i = 0; i < n; ++i) {
        th.emplace_back([&, i] {
            tlWho = (unsigned char)i; tlRng = &rngs[i]; tlDelay = delay;
            start.arrive_and_wait();
            if (whole) build(together[i], built[i]);
            if (built[i]) live(together[i], *built[i]);
            if (whole) built[i].reset();
            tlRng = nullptr;
        });
    }
    std::atomic<bool> stop{false};
    std::thread other;
    if (noise) other = std::thread([&] {
        int k = 0;
        while (!stop.load(std::memory_order_relaxed)) {
            LogSetLevel(++k % 2 ? LogLevel::Error : LogLevel::Warning);
            LogWarning("concurrent message");
            std::this_thread::sleep_for(std::chrono::microseconds(50));
        }
    });
    for (auto& t : th) t.join();
    stop = true;
    if (noise) { other.join(); LogSetLevel(LogLevel::Warning); }
    mon::onEvent() = nullptr;
    built.clear();

    size_t m = std::min(j.n.load(), Journal::MAX);
    long switches = 0;
    uint64_t h = 1469598103934665603ULL;
    for (size_t i = 0; i < m; ++i) {
        unsigned char w = j.who[i].load();
        h = (h ^ w) * 1099511628211ULL;
        if (i && w != j.who[i - 1].load()) switches++;
    }
    c.signature = mon::fmt("%016lx", h);  // the interleaving of the steps
    c.count("models run concurrently", n);
    c.count("steps taken concurrently", (long)m);
    c.count("switches between models", switches);
    c.count(whole ? "cases with construction in the threads" : "cases with runs in the threads");
    if (switches > n) c.count("cases with interleaved steps");
    if (noise) c.count("cases with concurrent logging");
    for (int i = 0; i < n; ++i) {
        const Life &a = alone[i], &b = together[i];
        if (a.error != b.error) { c.fail("outcome", mon::fmt("model %d alone: '", i) + a.error + "', with others: '" + b.error + "' [" + c.sample + "]"); continue; }
        if (!a.error.empty()) { c.count("refused alike"); continue; }
        for (size_t k = 0; k < a.out.size() && k < b.out.size(); ++k) {
            std::string d = diff(a.out[k], b.out[k]);
            if (!d.empty()) c.fail("outputs", mon::fmt("model %d, run %zu differs from the same run alone: ", i, k) + d + " [" + a.spec.describe() + "]");
            c.count("runs compared");
        }
    }
}

mon::Check mon::GetCheck() {
    return {"R02", 400, 8000, run, "the race detector stays silent and the outputs of models run in parallel threads equal those of the same models run alone"};
}
