// Own description of a NetCDF file, independent of the core: written with the C library, damaged on purpose by the checks.
#pragma once
#include <netcdf.h>

#include <cstdio>
#include <string>
#include <utility>
#include <vector>

#include "mon.h"

namespace ncw {
struct Dim { std::string name; size_t len; bool unlimited = false; };
struct Var {
    std::string name;
    nc_type type = NC_DOUBLE;
    std::vector<std::string> dims;
    std::vector<double> values;
    std::vector<std::pair<std::string, std::string>> atts;
    bool compress = false;
    std::vector<std::string> text;  // NC_STRING variables
};
struct Att { std::string name; std::vector<std::string> text; bool asString = true; };  // text attribute: the first item
struct File {
    std::vector<Dim> dims;
    std::vector<Var> vars;
    std::vector<Att> atts;
    int format = NC_NETCDF4;
    Var* var(const std::string& n) { for (auto& v : vars) if (v.name == n) return &v; return nullptr; }
    Dim* dim(const std::string& n) { for (auto& d : dims) if (d.name == n) return &d; return nullptr; }
    size_t size(const Var& v) { size_t n = 1; for (auto& d : v.dims) n *= dim(d)->len; return n; }
    // Values of variables that became larger are repeated.
    bool write(const std::string& path) {
        int id;
        remove(path.c_str());
        if (nc_create(path.c_str(), NC_CLOBBER | format, &id) != NC_NOERR) return false;
        bool ok = true;
        auto chk = [&](int s) { if (s != NC_NOERR) ok = false; return s == NC_NOERR; };
        std::vector<int> did(dims.size()), vid(vars.size(), -1);
        for (size_t i = 0; i < dims.size(); ++i) chk(nc_def_dim(id, dims[i].name.c_str(), dims[i].unlimited ? NC_UNLIMITED : dims[i].len, &did[i]));
        for (auto& a : atts) {
            if (a.asString) {
                std::vector<const char*> p;
                for (auto& t : a.text) p.push_back(t.c_str());
                chk(nc_put_att_string(id, NC_GLOBAL, a.name.c_str(), p.size(), p.data()));
            } else {
                std::string t = a.text.empty() ? "" : a.text[0];
                chk(nc_put_att_text(id, NC_GLOBAL, a.name.c_str(), t.size(), t.data()));
            }
        }
        for (size_t k = 0; k < vars.size(); ++k) {
            std::vector<int> d;
            for (auto& n : vars[k].dims) for (size_t i = 0; i < dims.size(); ++i) if (dims[i].name == n) d.push_back(did[i]);
            if (!chk(nc_def_var(id, vars[k].name.c_str(), vars[k].type, (int)d.size(), d.data(), &vid[k]))) continue;
            if (vars[k].compress && format == NC_NETCDF4 && !d.empty() && vars[k].type != NC_STRING) chk(nc_def_var_deflate(id, vid[k], NC_SHUFFLE, 1, 4));
            for (auto& a : vars[k].atts) chk(nc_put_att_text(id, vid[k], a.first.c_str(), a.second.size(), a.second.data()));
        }
        chk(nc_enddef(id));
        for (size_t k = 0; k < vars.size(); ++k) {
            auto& v = vars[k];
            size_t n = size(v);
            if (vid[k] < 0 || n == 0) continue;
            std::vector<size_t> start(v.dims.size() + 1, 0), count;
            for (auto& d : v.dims) count.push_back(dim(d)->len);
            count.push_back(0);
            if (v.type == NC_STRING) {
                std::vector<const char*> p;
                for (size_t i = 0; i < n; ++i) p.push_back(v.text.empty() ? "" : v.text[i % v.text.size()].c_str());
                chk(nc_put_vara_string(id, vid[k], start.data(), count.data(), p.data()));
                continue;
            }
            std::vector<double> x(n);
            for (size_t i = 0; i < n; ++i) x[i] = v.values.empty() ? 0 : v.values[i % v.values.size()];
            if (v.type == NC_CHAR) { std::string t(n, 'x'); chk(nc_put_vara_text(id, vid[k], start.data(), count.data(), t.data())); }
            else chk(nc_put_vara_double(id, vid[k], start.data(), count.data(), x.data()));
        }
        chk(nc_close(id));
        return ok;
    }
};
// What a value becomes when stored with a type.
inline double stored(double v, nc_type t) {
    return t == NC_FLOAT ? (double)(float)v : t == NC_DOUBLE ? v : t == NC_SHORT ? (double)(short)v : (double)(int)v;
}
inline std::string slurp(const std::string& p) {
    std::string s;
    FILE* f = fopen(p.c_str(), "rb");
    if (!f) return s;
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
    fclose(f);
    return s;
}
inline void spill(const std::string& p, const std::string& s) {
    FILE* f = fopen(p.c_str(), "wb");
    if (!f) return;
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
}
}  // namespace ncw
