"""Independent re-derivation of the redshift refinement (long-hand, per redshift, SVD/NNLS on exact design matrices)."""
import numpy as np
from rv import synth
from rv.checks.c03 import effective, HUGE

C = 299792.458
OII = (3724., 3733.)


def solve(t, f, w, D):
    """(chi2, coeff) of template t's documented fit method"""
    if not np.any(w > 0):
        return HUGE, np.zeros(D.shape[1])
    if t.method == 'PCA':
        return synth.ref_wls(D, f, w)
    return synth.ref_nnls(D, f, w)


def penalty(t, c):
    if t.template_type == 'GALAXY' and t.method == 'PCA':
        m = (t.wave >= OII[0]) & (t.wave <= OII[1])
        o2 = float(np.sum(c @ t.flux[:, m])) if m.any() else 0.
        return -o2 if o2 < 0 else 0.
    return 0.


class Model:
    def __init__(self, t, raws):
        self.t = t
        self.f, self.w, self.R, self.wave = effective(raws)
        self.spectra = [dict(wave=a, R=b) for a, b in zip(self.wave, self.R)]

    def at(self, z):
        D = synth.ref_design(self.t, z, self.spectra)
        chi2, c = solve(self.t, self.f, self.w, D)
        return chi2, c, chi2 + penalty(self.t, c), D


def minima(x):
    """indices of local minima (plateaus included, edges allowed), NaN never; ordered by value, stable"""
    n = len(x)
    out = []
    for i in range(n):
        left = i == 0 or x[i] <= x[i - 1]
        right = i == n - 1 or x[i] <= x[i + 1]
        if left and right:
            out.append(i)
    return sorted(out, key=lambda i: x[i])


def dv(z, zref):
    return C * (z - zref) / (1 + zref)
