"""Compares every node of /repo's interpolation tables with theory (data/theory.json)."""
import bisect, json, os
from vplib import *

def _nums(f):
    try: return [float(x) for x in open(os.path.join(REPO, "Tables", f)).read().split()]
    except (OSError, ValueError) as e: raise CheckError("cannot read table %s: %s" % (f, e))

def _interp(xs, ys, q):
    i = min(max(bisect.bisect_right(xs, q), 1), len(xs) - 1)
    return ys[i-1] + (q - xs[i-1]) * (ys[i] - ys[i-1]) / (xs[i] - xs[i-1])

def _load(): return json.load(open(os.path.join(VERIF, "data", "theory.json")))

def _fail(res, key, msg): res.violations.append((key, msg, {"harness": "tables"}))

def _curve(res, name, xs, ys, tol):
    if len(xs) < 2 or any(b <= a for a, b in zip(xs, xs[1:])): _fail(res, "table %s" % name, "axis not increasing"); return
    return lambda q: _interp(xs, ys, q)

def photon(res, only=None):
    T = _load(); n = 0
    v = _nums("hsokolov.table"); m = int(v[0]); xs, ys = v[1:1+2*m:2], v[2:2+2*m:2]
    # node by node against the theory curve, and the theory nodes against the table
    f = _curve(res, "hsokolov", xs, ys, 0)
    if f:
        for q, y in zip(T["logeta"], T["logh"]):
            n += 1
            if abs(f(q) - y) > 1e-3: _fail(res, "table hsokolov logeta=%g" % q, "log h is %.6g, theory %.6g" % (f(q), y))
        for q, y in zip(xs, ys):
            n += 1
            if -5 <= q <= 1 and abs(_interp(T["logeta"], T["logh"], q) - y) > 2e-3: _fail(res, "table hsokolov node logeta=%g" % q, "log h is %.6g, theory %.6g" % (y, _interp(T["logeta"], T["logh"], q)))
    v = _nums("ksi_sokolov.table"); cm = _nums("chimin.table")
    if v[:4] != [100, 100, -5, 1]: res.coverage["ksi_sokolov"] = "other layout, not compared"; return
    for i in range(100):
        if abs(cm[i] / T["chimin"][i] - 1) > 1e-3: _fail(res, "table chimin row=%d" % i, "%g instead of %g" % (cm[i], T["chimin"][i]))
        for j in range(100):
            n += 1
            if abs(v[4+100*i+j] - T["cdf"][i][j]) > 5e-4: _fail(res, "table ksi_sokolov row=%d column=%d" % (i, j), "%.6g, theory %.6g" % (v[4+100*i+j], T["cdf"][i][j]))
    res.coverage["table_nodes_compared_with_theory"] = n; res.evals += n

def pair(res, only=None):
    T = _load(); n = 0
    v = _nums("pairprod.table"); m = int(v[0]); xs, ys = v[1:1+2*m:2], v[2:2+2*m:2]
    f = _curve(res, "pairprod", xs, ys, 0)
    if f:
        for q, y in zip(T["logchi"], T["logT"]):
            n += 1
            if abs(f(q) - y) > (0.1 if q < -1.9 else 5e-3): _fail(res, "table pairprod logchi=%g" % q, "log T is %.6g, theory %.6g" % (f(q), y))
        for q, y in zip(xs, ys):
            n += 1
            if q >= -1 and abs(_interp(T["logchi"], T["logT"], q) - y) > 0.02: _fail(res, "table pairprod node logchi=%g" % q, "log T is %.6g, theory %.6g" % (y, _interp(T["logchi"], T["logT"], q)))
            if q < -2.5 and y > -40: _fail(res, "table pairprod node logchi=%g" % q, "log T is %.6g" % y)
    v = _nums("e_split.table"); e = _nums("epsilon.table"); l = _nums("log_chi.table")
    for i in range(100):
        n += 2
        if abs(e[i] - (i + 1) / 100.) > 1e-6: _fail(res, "table epsilon row=%d" % i, "%g" % e[i])
        if abs(l[i] - (-2.3010299956639813 + i * 5.3010299956639813 / 99)) > 1e-6: _fail(res, "table log_chi row=%d" % i, "%g" % l[i])
        for j in range(100):
            n += 1
            if abs(v[1+100*i+j] - T["split"][i][j]) > 0.012: _fail(res, "table e_split row=%d column=%d" % (i, j), "%.6g, theory %.6g" % (v[1+100*i+j], T["split"][i][j]))
    res.coverage["table_nodes_compared_with_theory"] = n; res.evals += n
