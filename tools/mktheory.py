#!/usr/bin/env python3-vt
"""Recomputes the theory values that the interpolation tables have to agree with
(quantum synchrotron function: Kirk, Bell & Arka 2009; pair rate: Erber 1966;
pair spectrum: e.g. Baier & Katkov) into data/theory.json."""
import json, numpy as np
from scipy.special import kv
from scipy.integrate import quad
def tail(nu, g): return np.array([quad(lambda u: kv(nu, np.exp(u)) * np.exp(u), np.log(y), np.log(y + 60), limit=300, epsrel=1e-10)[0] for y in g])
g = np.logspace(-14, np.log10(500), 3000); k53 = np.log(np.maximum(tail(5/3, g), 1e-300)); k13 = np.log(np.maximum(tail(1/3, g), 1e-300))
def I(y, k): return np.where(y > 490, 0, np.exp(np.interp(np.log(y), np.log(g), k)))
def F(eta, chi):
    y = 4*chi/(3*eta*(eta-2*chi))
    return 4*chi**2/eta**2*y*kv(2/3, y) + (1-2*chi/eta)*y*I(y, k53)
def cum(eta):
    u = np.linspace(np.log(eta/2)-55, np.log(eta/2)-1e-9, 400001); f = F(eta, np.exp(u))
    return u, np.concatenate([[0], np.cumsum((f[1:]+f[:-1])/2*np.diff(u))])
out = {"logeta": [], "logh": [], "cdf": [], "logchi": [], "logT": [], "split": []}
for le in np.linspace(-5, 1, 61):
    out["logeta"].append(le); out["logh"].append(float(np.log10(cum(10**le)[1][-1])))
cm = [5e-18*(5e-7/5e-18)**(i/99) for i in range(100)]
cm = np.array(open('/repo/Tables/chimin.table').read().split(), float)
for i in range(100):
    le = -5+6*i/99; u, c = cum(10**le); lc = np.log10(cm[i])+np.arange(100)*(le-np.log10(2)-np.log10(cm[i]))/99
    out["cdf"].append([round(float(x), 6) for x in np.interp(lc*np.log(10), u, c)/c[-1]])
for l in np.linspace(-2.5, 8, 211):
    c = 10**l; out["logchi"].append(l); out["logT"].append(float(np.log10(0.16/c)+2*np.log10(kv(1/3, 2/(3*c)))))
lchi = np.log10(0.005)+np.arange(100)*(3-np.log10(0.005))/99
for l in lchi:
    X = 2*10**l; s = np.linspace(0, 1, 40003)[1:-1]; y = 2/(3*X*s*(1-s)); f = (2+3*X*y)*kv(2/3, y)-I(y, k13)
    c = np.concatenate([[0], np.cumsum((f[1:]+f[:-1])/2)]); c /= c[-1]
    out["split"].append([round(float(x), 6) for x in np.interp(np.arange(1, 101)/100, s, c)])
out["chimin"] = [float(x) for x in cm]
json.dump(out, open('/verif/data/theory.json', 'w'))
