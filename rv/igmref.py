"""Long-hand reference for the IGM transmission models (scalar z, no batching).

Published formulae: Calura et al. 2012 eq.5 with Irsic et al. 2013 ratios, Kamble et al. 2020,
Inoue et al. 2014 (eqs. 21-29, with the published table of coefficients kept here as a copy).
"""
import os
import numpy as np

LYA = 1215.67
CAL = [(1215.67, 0.0023, 3.64), (1025.72, 0.0023 / 5.2615, 3.64), (972.537, 0.0023 / 14.356, 3.64),
       (949.7431, 0.0023 / 29.85984, 3.64), (937.8035, 0.0023 / 53.36202, 3.64)]
KAM = [(1215.67, 0.00554, 3.182)]
_tab = None


def tables():
    global _tab
    if _tab is None:
        d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')
        _tab = np.loadtxt(os.path.join(d, 'LAFcoeff.txt')), np.loadtxt(os.path.join(d, 'DLAcoeff.txt'))
    return _tab


def tau_inoue(z, lobs):
    laf, dla = tables()
    lobs = np.asarray(lobs, float)
    tau = np.zeros_like(lobs)
    for (_, l, a1, a2, a3), (_, ld, d1, d2) in zip(laf, dla):
        u = lobs / l
        absorbing = lobs < l * (1 + z)
        t = np.where(u < 2.2, a1 * u**1.2, np.where(u < 5.7, a2 * u**3.7, a3 * u**5.5))
        tau += np.where(absorbing, t, 0.)
        # the DLA term uses the LAF wavelength list (identical line list)
        t = np.where(u < 3.0, d1 * u**2, d2 * u**3)
        tau += np.where(absorbing, t, 0.)
    L = 911.8
    v = lobs / L
    lc = np.zeros_like(lobs)
    inside = lobs < L * (1 + z)
    Z = 1 + z
    if z < 1.2:
        t = 0.3248 * (v**1.2 - Z**-0.9 * v**2.1)
    elif z < 4.7:
        t = np.where(v < 2.2, 2.545e-2 * Z**1.6 * v**2.1 + 0.3248 * v**1.2 - 0.2496 * v**2.1,
                     2.545e-2 * (Z**1.6 * v**2.1 - v**3.7))
    else:
        t = np.where(v < 2.2, 5.221e-4 * Z**3.4 * v**2.1 + 0.3248 * v**1.2 - 3.140e-2 * v**2.1,
                     np.where(v < 5.7, 5.221e-4 * Z**3.4 * v**2.1 + 0.2182 * v**2.1 - 2.545e-2 * v**3.7,
                              5.221e-4 * (Z**3.4 * v**2.1 - v**5.5)))
    lc += np.where(inside, t, 0)
    if z < 2.0:
        t = 0.2113 * Z**2 - 0.07661 * Z**2.3 * v**-0.3 - 0.1347 * v**2
    else:
        t = np.where(v < 3.0, 0.6340 + 0.04696 * Z**3 - 0.01779 * Z**3.3 * v**-0.3 - 0.1347 * v**2 - 0.2905 * v**-0.3,
                     0.04696 * Z**3 - 0.01779 * Z**3.3 * v**-0.3 - 0.02916 * v**3)
    lc += np.where(inside, t, 0)
    return tau + lc


def transmission(z, lobs, model):
    lobs = np.asarray(lobs, float)
    if model in (None, 'None'):
        return np.ones_like(lobs)
    if model == 'Inoue14':
        return np.exp(-tau_inoue(z, lobs))
    T = np.ones_like(lobs)
    for line, A, B in (CAL if model == 'Calura12' else KAM):
        T = T * np.where(lobs / (1 + z) < line, np.exp(-A * (lobs / line)**B), 1.)
    return T
