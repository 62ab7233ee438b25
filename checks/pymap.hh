// The Python module, compiled into the harness and driven through an embedded
// interpreter, so that the bindings themselves are exercised.
#ifndef PYMAP_HH
#define PYMAP_HH
#include <pybind11/embed.h>
#include <pybind11/numpy.h>
#include "runmap.hh"
namespace py = pybind11;
extern "C" PyObject* PyInit_QEDCascPy();
namespace run
{
struct Rows { size_t n = 0, cols = 0; std::vector<double> v; };
struct PyRes { Rows in, el, po, ph; };
inline void pyInit() { PyImport_AppendInittab("QEDCascPy", PyInit_QEDCascPy); py::initialize_interpreter(); py::module_::import("numpy"); }
inline py::object pyManager() { return py::module_::import("QEDCascPy").attr("RunManager")(); }
inline py::object pyVec(V v) { return py::module_::import("QEDCascPy").attr("ThreeVector")(v[0], v[1], v[2]); }
inline void pyTime(py::object m, const Cfg& c) { m.attr("setTime")(c.dt * TIME, c.end * TIME); }
inline void pyField(py::object m, const Cfg& c) { m.attr("setField")(c.field, c.maxE * EF, c.wl * LENGTH, c.tau * TIME, c.waist * LENGTH, c.pol, pyVec(LENGTH * c.start), pyVec(LENGTH * c.focus)); }
inline void pyPhysics(py::object m, const Cfg& c) { m.attr("setPhysics")(c.model); }
inline void pyGen(py::object m, const Source& s) { m.attr("setGenerator")(s.type, s.distro, s.e1 * ENERGY, s.e2 * ENERGY, s.radius * LENGTH, s.dur * TIME, s.div, pyVec(LENGTH * s.pos), pyVec(s.dir)); }
inline Rows pyRows(py::object m, const char* f)
{
    py::array_t<double, py::array::c_style | py::array::forcecast> a = m.attr(f)(); Rows r;
    if (a.ndim() != 2) { r.n = 1; r.cols = 0; return r; }
    r.n = a.shape(0); r.cols = a.shape(1); r.v.assign(a.data(), a.data() + r.n * r.cols); return r;
}
inline PyRes pyResults(py::object m) { PyRes r; r.in = pyRows(m, "getInput"); r.el = pyRows(m, "getElectrons"); r.po = pyRows(m, "getPositrons"); r.ph = pyRows(m, "getPhotons"); return r; }
inline PyRes pyRun(const Cfg& c, int events)
{
    py::object m = pyManager(); pyTime(m, c); pyField(m, c); pyPhysics(m, c); m.attr("setSampleFraction")(c.frac); m.attr("usePairProduction")(c.pairs); pyGen(m, c.src[0]);
    m.attr("beamOn")(events); return pyResults(m);
}
inline std::vector<double> pyRow(const Part& p, bool w)
{ std::vector<double> r; for (int i = 0; i < 3; i++) r.push_back(p.p[i] * MOM); for (int i = 0; i < 3; i++) r.push_back(p.x[i] * LENGTH); if (w) r.push_back(p.w); return r; }
// rows as a multiset
inline std::string pyTable(const Rows& g, const char* name, const std::vector<std::vector<double>>& want, size_t cols, double tol, double xs)
{
    if (g.cols != cols) return std::string(name) + vp::fmt(" has %zu columns instead of %zu", g.cols, cols);
    if (g.n != want.size()) return std::string(name) + vp::fmt(" has %zu rows instead of %zu", g.n, want.size());
    std::vector<bool> used(want.size(), false); size_t hint = 0;
    for (size_t r = 0; r < g.n; r++)
    {
        const double* a = &g.v[r * cols]; std::string first; bool ok = false;
        for (size_t h = 0; h < want.size() && !ok; h++)
        {
            size_t k = (hint + h) % want.size();
            if (used[k]) continue; auto& w = want[k]; std::string e;
            double p = std::sqrt(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]) + 1e-3 * MOM, x = std::max(xs * LENGTH, std::sqrt(w[3] * w[3] + w[4] * w[4] + w[5] * w[5]));
            static const char* N[] = {"px", "py", "pz", "x", "y", "z", "weight"};
            for (size_t i = 0; i < cols && e.empty(); i++) { double s = i < 3 ? p : i < 6 ? x : std::fabs(w[6]); if (!(std::fabs(a[i] - w[i]) <= tol * s)) e = vp::fmt("%s is %.12g instead of %.12g", N[i], a[i], w[i]); }
            if (e.empty()) { used[k] = true; ok = true; hint = k + 1; } else if (first.empty() || k == r) first = e;
        }
        if (!ok) return std::string(name) + vp::fmt(" row %zu: ", r) + first;
    }
    return "";
}
inline std::string pyCompare(const Cfg& c, const PyRes& g, const Out& o, double tol = 1e-7)
{
    std::vector<std::vector<double>> in, sp[3]; double xs = scaleX(c);
    for (auto& p : o.prim[0]) in.push_back(pyRow(p, false));
    for (auto& e : o.ev[0]) for (auto& p : e.p) if (p.alive) sp[p.kind].push_back(pyRow(p, true));
    std::string e = pyTable(g.in, "input", in, 6, tol, xs); if (e.size()) return e;
    e = pyTable(g.el, "electrons", sp[ref::ELECTRON], 7, tol, xs); if (e.size()) return e;
    e = pyTable(g.po, "positrons", sp[ref::POSITRON], 7, tol, xs); if (e.size()) return e;
    return pyTable(g.ph, "photons", sp[ref::PHOTON], 7, tol, xs);
}
// the primaries returned by the module as starting points of the reference
inline std::string pyPrimaries(const Cfg& c, const Rows& in, double u, std::vector<Part>& r)
{
    r.clear(); if (in.cols != 6) return "the input array has not six columns";
    for (size_t i = 0; i < in.n; i++) { const double* v = &in.v[6 * i]; Part p; p.kind = kind(c.src[0].type); p.p = V(v[0] / MOM, v[1] / MOM, v[2] / MOM); p.x = V(v[3] / LENGTH, v[4] / LENGTH, v[5] / LENGTH); p.od = ref::freshDepth(u); r.push_back(p); }
    return "";
}
}
#endif
