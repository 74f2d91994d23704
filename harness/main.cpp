// Shard driver: runs cases [from,to) with a stride, writes one JSON line per event.
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

#include <exception>
#include <filesystem>
#include <iostream>
#include <streambuf>
#include "mon.h"
#include "Includes.h"

class ModelHydro;
namespace mon {
std::function<void(const char*, ModelHydro*)>& onEvent() { static std::function<void(const char*, ModelHydro*)> f; return f; }
}
void HydrobricksMonitorEvent(const char* event, ModelHydro* model) {
    if (mon::onEvent()) mon::onEvent()(event, model);
}
namespace mon {
static std::string g_scratch;
std::string scratchDir() { return g_scratch; }
std::string& capturedLog() { static std::string l; return l; }
std::string fmt(const char* f, ...) {
    char b[4096];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    return b;
}
static std::string esc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}
}  // namespace mon

using namespace mon;

// Captures what the core logs (errors, warnings) so that monitors can read it and shards stay quiet.
struct CaptureBuf : std::streambuf {
    int overflow(int c) override { if (mon::capturedLog().size() < 200000) mon::capturedLog().push_back((char)c); return c; }
    std::streamsize xsputn(const char* p, std::streamsize n) override {
        if (mon::capturedLog().size() < 200000) mon::capturedLog().append(p, n);
        return n;
    }
};

static long g_curIndex = -1;
static int g_progressFd = -1;
static void onCpuLimit(int) {
    char b[128];
    int n = snprintf(b, sizeof b, "\n{\"ev\":\"cpulimit\",\"index\":%ld}\n", g_curIndex);
    if (g_progressFd >= 0) (void)!write(g_progressFd, b, n);
    _exit(97);
}

int main(int argc, char** argv) {
    uint64_t seed = 1; long from = 0, to = -1, stride = 1; bool thorough = false, verbose = false, info = false;
    std::string out; std::string scratch; long cpu = 60;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--seed") seed = std::stoull(nx());
        else if (a == "--from") from = std::stol(nx());
        else if (a == "--to") to = std::stol(nx());
        else if (a == "--stride") stride = std::stol(nx());
        else if (a == "--tier") thorough = nx() == "thorough";
        else if (a == "--out") out = nx();
        else if (a == "--scratch") scratch = nx();
        else if (a == "--cpu") cpu = std::stol(nx());
        else if (a == "-v") verbose = true;
        else if (a == "--info") info = true;
    }
    Check chk = GetCheck();
    if (info) {
        printf("{\"id\":\"%s\",\"quick\":%ld,\"thorough\":%ld,\"rule\":\"%s\"}\n", chk.id.c_str(), chk.quickCases,
               chk.thoroughCases, esc(chk.rule).c_str());
        return 0;
    }
    if (to < 0) to = thorough ? chk.thoroughCases : chk.quickCases;
    if (scratch.empty()) { fprintf(stderr, "--scratch is required\n"); return 3; }
    std::filesystem::create_directories(scratch);
    mon::g_scratch = scratch;
    FILE* fo = out.empty() ? stdout : fopen(out.c_str(), "a");
    if (!fo) { fprintf(stderr, "cannot write %s\n", out.c_str()); return 3; }
    g_progressFd = fileno(fo);
    signal(SIGPROF, onCpuLimit);
    LogSetLevel(LogLevel::Warning);
    static CaptureBuf cap;
    // The stream outlives main: give it its own buffer back before the exit.
    struct Restore { std::streambuf* b = std::cerr.rdbuf(); ~Restore() { std::cerr.rdbuf(b); } } restore;
    if (!verbose) std::cerr.rdbuf(&cap);
    for (long idx = from; idx < to; idx += stride) {
        g_curIndex = idx;
        fprintf(fo, "{\"ev\":\"start\",\"index\":%ld}\n", idx);
        fflush(fo);
        itimerval tv{}; tv.it_value.tv_sec = cpu; setitimer(ITIMER_PROF, &tv, nullptr);
        mon::capturedLog().clear();
        mon::onEvent() = nullptr;
        Ctx c;
        c.seed = seed; c.index = idx; c.thorough = thorough; c.verbose = verbose;
        uint64_t h = 1469598103934665603ULL;
        for (char ch : chk.id) h = (h ^ (unsigned char)ch) * 1099511628211ULL;
        c.rng = Rng(h ^ (seed * 0x9E3779B97F4A7C15ULL) ^ ((uint64_t)idx * 0xD1B54A32D192ED03ULL));
        try {
            chk.run(c);
        } catch (const std::exception& e) {
            // Rates above the range the software supports are refused (extreme weather over long steps); the share of such cases is judged over the whole run.
            if (std::string(e.what()).find("is too high") != std::string::npos) c.count("refused: rate beyond the supported range");
            else c.fail(std::string("exception:") + e.what(), std::string("uncaught exception: ") + e.what() + " [" + c.sample + "]");
        } catch (...) {
            c.fail("exception:unknown", "uncaught non-standard exception [" + c.sample + "]");
        }
        std::string line = fmt("{\"ev\":\"done\",\"index\":%ld", idx);
        line += ",\"sig\":\"" + esc(c.signature) + "\",\"sample\":\"" + esc(c.sample.substr(0, 1500)) + "\",\"counts\":{";
        bool first = true;
        for (auto& [k, n] : c.counts) { line += (first ? "\"" : ",\"") + esc(k) + "\":" + std::to_string(n); first = false; }
        line += "},\"viol\":[";
        first = true;
        for (auto& [k, d] : c.violations) {
            line += std::string(first ? "" : ",") + "[\"" + esc(k) + "\",\"" + esc(d.substr(0, 3000)) + "\"]";
            first = false;
        }
        line += "]}";
        fprintf(fo, "%s\n", line.c_str());
        fflush(fo);
        if (verbose) for (auto& [k, d] : c.violations) fprintf(stderr, "VIOL %s: %s\n", k.c_str(), d.c_str());
    }
    fprintf(fo, "{\"ev\":\"end\"}\n");
    fflush(fo);
    return 0;
}
