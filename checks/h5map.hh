// Reads a whole HDF5 file: every data set with its dimensions and numbers.
#ifndef H5MAP_HH
#define H5MAP_HH
#include <hdf5.h>
#include <map>
#include <string>
#include <vector>
#include <cmath>
#include "vp.hh"

struct DSet { std::vector<size_t> dims; std::vector<double> v; };
typedef std::map<std::string, DSet> H5Map;

inline DSet table(std::vector<std::vector<double>> rows, size_t cols)
{
    DSet d; d.dims = {rows.size(), cols}; for (auto& r : rows) for (double x : r) d.v.push_back(x); return d;
}
inline DSet line(std::vector<double> v) { DSet d; d.dims = {v.size()}; d.v = v; return d; }

static herr_t h5map_visit(hid_t obj, const char* name, const H5O_info_t* info, void* data)
{
    if (info->type != H5O_TYPE_DATASET) return 0;
    H5Map* m = (H5Map*)data; DSet d;
    hid_t ds = H5Dopen2(obj, name, H5P_DEFAULT); if (ds < 0) return -1;
    hid_t sp = H5Dget_space(ds); int r = H5Sget_simple_extent_ndims(sp); std::vector<hsize_t> n(r > 0 ? r : 1);
    H5Sget_simple_extent_dims(sp, n.data(), NULL); size_t tot = 1;
    for (int i = 0; i < r; i++) { d.dims.push_back(n[i]); tot *= n[i]; }
    d.v.resize(tot);
    herr_t e = tot ? H5Dread(ds, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, d.v.data()) : 0;
    H5Sclose(sp); H5Dclose(ds);
    if (e < 0) return -1;
    (*m)[name] = d; return 0;
}
// Error text, or "" and the content.
inline std::string h5read(const std::string& file, H5Map& m)
{
    H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
    hid_t f = H5Fopen(file.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (f < 0) return "the file cannot be opened";
    herr_t e = H5Ovisit(f, H5_INDEX_NAME, H5_ITER_NATIVE, h5map_visit, &m);
    H5Fclose(f);
    return e < 0 ? "the file cannot be read" : "";
}
inline std::string h5cmp(const H5Map& got, const H5Map& want, double rel = 1e-9)
{
    for (auto& w : want)
    {
        auto g = got.find(w.first); if (g == got.end()) return "no " + w.first;
        if (g->second.dims != w.second.dims)
        {
            std::string a, b; for (size_t d : g->second.dims) a += vp::fmt("%zu ", d); for (size_t d : w.second.dims) b += vp::fmt("%zu ", d);
            return w.first + " has size " + a + "instead of " + b;
        }
        for (size_t i = 0; i < w.second.v.size(); i++)
            if (!vp::close(g->second.v[i], w.second.v[i], rel)) return w.first + vp::fmt(" number %zu is %.12g instead of %.12g", i, g->second.v[i], w.second.v[i]);
    }
    for (auto& g : got) if (!want.count(g.first)) return "unexpected " + g.first;
    return "";
}
inline uint64_t h5hash(const H5Map& m)
{
    uint64_t h = 7; for (auto& k : m) { h = vp::hash(k.first, h); h = vp::hash(k.second.v.data(), k.second.v.size() * 8, h); } return h;
}
#endif
