// Small helpers of a demonstration: build, force and run a model through the public classes.
#pragma once
#include <cmath>
#include <cstdio>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include "Action.h"
#include "Brick.h"
#include "Glacier.h"
#include "HydroUnit.h"
#include "LandCover.h"
#include "Logger.h"
#include "ModelHydro.h"
#include "Process.h"
#include "SettingsBasin.h"
#include "SettingsModel.h"
#include "Snowpack.h"
#include "SubBasin.h"
#include "Utils.h"
#include "WaterContainer.h"

using Series = std::function<double(int step, int unit)>;
static inline double MJD(int y, int m, int d) { return GetMJD(y, m, d); }

static inline void force(ModelHydro& m, const std::vector<int>& unitIds, double start, double step, int n, const std::string& var, Series f) {
    axi ids((int)unitIds.size());
    for (int j = 0; j < ids.size(); ++j) ids[j] = unitIds[j];
    axd time(n);
    axxd data(n, ids.size());
    for (int t = 0; t < n; ++t) {
        time[t] = start + t * step;
        for (int j = 0; j < ids.size(); ++j) data(t, j) = f(t, j);
    }
    if (!m.CreateTimeSeries(var, time, ids, data)) throw std::runtime_error("forcing refused: " + var);
}
static inline void must(bool ok, const char* what) { if (!ok) throw std::runtime_error(what); }
template <class R> static inline void mustR(R&& r, const char* what) { if (!r) throw std::runtime_error(std::string(what) + ": " + r.error()); }
static int failures = 0;
static inline void expect(bool ok, const std::string& what) { if (!ok) { std::printf("FAILED: %s\n", what.c_str()); ++failures; } }
static inline void expectNear(double a, double b, double tol, const std::string& what) {
    if (!(std::fabs(a - b) <= tol)) { std::printf("FAILED: %s: %.12g, expected %.12g\n", what.c_str(), a, b); ++failures; }
}
void demo();
int main() {
    try { demo(); } catch (const std::exception& e) { std::printf("FAILED: exception: %s\n", e.what()); return 2; }
    return failures ? 1 : 0;
}
