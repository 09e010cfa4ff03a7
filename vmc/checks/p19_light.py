"""P19: every light profile is one consistent surface brightness and a LightModel is the sum of its profiles.

Profiles: linear in the amplitude, covariant under shifts and rotations, the same for scalars, lists and arrays, independent of earlier
evaluations, total flux = integral, three-dimensional light projects to the surface brightness, alternative parametrisations agree.
LightModel: sum over the selected components, linear responses times amplitudes = surface brightness, amplitudes survive a round trip.
Bases: shapelets are orthonormal, decompositions invert.
"""
import itertools
import warnings

import numpy as np
from scipy.integrate import quad

from lenstronomy.LightModel.light_model import LightModel
from lenstronomy.LightModel.light_model_base import _MODELS_SUPPORTED
from lenstronomy.LightModel.Profiles.shapelets import ShapeletSet, Shapelets
from lenstronomy.LightModel.Profiles.shapelets_polar import ShapeletSetPolar
from lenstronomy.LightModel.Profiles.starlets import SLIT_Starlets
from vmc.core import snap

warnings.simplefilter("ignore")

STARLETS = ("SLIT_STARLETS", "SLIT_STARLETS_GEN2")
E = dict(e1=0.12, e2=-0.2)
C = dict(center_x=0.13, center_y=-0.07)
N_COMP = 3


def shapelet_num(model, n_max):
    return (n_max + 1) ** 2 if model == "SHAPELETS_POLAR_EXP" else (n_max + 1) * (n_max + 2) // 2


def image(j=0):
    ii, jj = np.meshgrid(np.arange(6), np.arange(5), indexing="ij")
    return 1.0 + 0.3 * ii - 0.2 * jj + 0.05 * ii * jj + 0.4 * np.cos(1.3 * ii + jj + j)


def params(m, j=0):
    """generic parameter set number j"""
    f = 1.0 + 0.17 * j
    g = 1.0 - 0.11 * j
    e = dict(e1=E["e1"] * g, e2=E["e2"] * f)
    c = dict(center_x=C["center_x"] * f, center_y=C["center_y"] * g)
    if m.startswith("SHAPELETS"):
        n_max = 3 + (j % 2)
        amp = np.array([1.0 / (1 + i) * (-1) ** i * f for i in range(shapelet_num(m, n_max))])
        kw = dict(amp=amp, n_max=n_max, beta=0.6 * g, **c)
        return dict(kw, **e) if m == "SHAPELETS_ELLIPSE" else kw
    if m in STARLETS:
        amp = np.array([np.sin(0.7 * i + j) + 0.3 for i in range(2 * 25)]) * f
        return dict(amp=amp, n_scales=2, n_pixels=25, scale=0.3 * f, **c)
    out = {
        "GAUSSIAN": dict(amp=2.1, sigma=0.5), "GAUSSIAN_ELLIPSE": dict(amp=2.1, sigma=0.5, **e), "ELLIPSOID": dict(amp=1.7, radius=0.9, **e),
        "MULTI_GAUSSIAN": dict(amp=np.array([1.0, 2.0, 0.5]) * f, sigma=np.array([0.3, 0.7, 1.2])),
        "MULTI_GAUSSIAN_ELLIPSE": dict(amp=np.array([1.0, 2.0, 0.5]) * f, sigma=np.array([0.3, 0.7, 1.2]), **e),
        "MGE_SET": dict(amp=np.array([1.0, 2.0, 0.5]) * f, sigma_min=0.2, sigma_width=1.1),
        "MGE_SET_ELLIPSE": dict(amp=np.array([1.0, 2.0, 0.5]) * f, sigma_min=0.2, sigma_width=1.1, **e),
        "SERSIC": dict(amp=2.0, R_sersic=0.6, n_sersic=2.5), "SERSIC_ELLIPSE": dict(amp=2.0, R_sersic=0.6, n_sersic=2.5, **e),
        "SERSIC_ELLIPSE_FLEXION": dict(amp=2.0, R_sersic=0.6, n_sersic=2.5, a=0.02, b1=0.03, b2=-0.02, c1=0.01, c2=0.015, d1=-0.01, d2=0.02, **e),
        "SERSIC_ELLIPSE_Q_PHI": dict(amp=2.0, R_sersic=0.6, n_sersic=2.5, q=0.7, phi=0.5),
        "CORE_SERSIC": dict(amp=2.0, R_sersic=0.6, Rb=0.2, n_sersic=2.5, gamma=0.5, **e),
        "HERNQUIST": dict(amp=1.5, Rs=0.7), "HERNQUIST_ELLIPSE": dict(amp=1.5, Rs=0.7, **e),
        "PJAFFE": dict(amp=1.5, Ra=0.3, Rs=0.9), "PJAFFE_ELLIPSE": dict(amp=1.5, Ra=0.3, Rs=0.9, **e),
        "PL_SERSIC": dict(amp=1.5, R_sersic=0.6, n_sersic=2.5, alpha_c=1.2, r_c=0.3, **e),
        "UNIFORM": dict(amp=0.8), "POWER_LAW": dict(amp=1.3, gamma=2.2, **e), "NIE": dict(amp=1.4, s_scale=0.3, **e),
        "CHAMELEON": dict(amp=1.5, w_c=0.3, w_t=0.8, **e),
        "DOUBLE_CHAMELEON": dict(amp=1.5, ratio=0.7, w_c1=0.3, w_t1=0.8, e11=0.1, e21=-0.15, w_c2=0.5, w_t2=1.4, e12=-0.07, e22=0.12),
        "TRIPLE_CHAMELEON": dict(amp=1.5, ratio12=0.7, ratio13=0.4, w_c1=0.3, w_t1=0.8, e11=0.1, e21=-0.15, w_c2=0.5, w_t2=1.4, e12=-0.07, e22=0.12,
                                 w_c3=0.9, w_t3=2.1, e13=0.05, e23=0.2),
        "INTERPOL": dict(image=image(j), amp=1.2, phi_G=0.4, scale=0.3), "LINEAR": dict(amp=1.5, k=-0.8), "LINEAR_ELLIPSE": dict(amp=1.5, k=-0.8, **e),
        "LINE_PROFILE": dict(amp=1.5, angle=35.0, length=1.3, width=0.6),
    }[m]
    for k in ("amp", "sigma", "radius", "R_sersic", "Rs", "w_t", "w_t1", "s_scale", "length", "k"):
        if k in out and np.ndim(out[k]) == 0:
            out[k] = out[k] * f
    if m == "LINE_PROFILE":
        out.update(start_x=c["center_x"], start_y=c["center_y"])
    elif m != "UNIFORM":
        out.update(c)
    return out


def corner_sets(m):
    """generic sets and the degenerate corners of the parameter space"""
    out = [params(m, j) for j in range(3)]
    base = params(m)
    if "e1" in base:
        out += [dict(base, e1=0.0, e2=0.0), dict(base, e1=0.3, e2=0.0), dict(base, e1=0.0, e2=-0.3), dict(base, e1=-0.3, e2=0.0)]
    if "center_x" in base:
        out.append(dict(base, center_x=0.0, center_y=0.0))
    if "n_sersic" in base:
        out += [dict(base, n_sersic=1.0), dict(base, n_sersic=4.0), dict(base, n_sersic=0.5)]
    if "phi" in base:
        out += [dict(base, phi=2.5), dict(base, phi=-1.2), dict(base, q=1.0)]
    if "phi_G" in base:
        out += [dict(base, phi_G=0.0), dict(base, phi_G=-2.0)]
    if "angle" in base:
        out += [dict(base, angle=-120.0), dict(base, angle=90.0)]
    if "w_c" in base:
        out.append(dict(base, w_c=0.9, w_t=0.4))
    if m.startswith("PJAFFE"):
        out.append(dict(base, Ra=0.9, Rs=0.3))
    if "n_max" in base:
        out += [dict(base, n_max=n, amp=np.arange(1.0, 1.0 + shapelet_num(m, n))) for n in (0, 1, 6)]
    if "gamma" in base:
        out.append(dict(base, gamma=2.0) if m == "POWER_LAW" else dict(base, gamma=0.0))
    return out


def model(*names, **kw):
    return LightModel(list(names), profile_kwargs_list=[{"n_comp": N_COMP} if n.startswith("MGE_SET") else {} for n in names], **kw)


def grid(tier):
    g = [-2.3, -0.8, -0.31, 0.05, 0.42, 0.97, 1.9] if tier == "quick" else [-4.1, -2.3, -1.4, -0.8, -0.5, -0.31, -0.1, 0.05, 0.2, 0.42, 0.7, 0.97, 1.4, 1.9, 3.3]
    x, y = np.meshgrid(g, g)
    return x.ravel() + 0.013, y.ravel() - 0.021


LINEAR_AMP = [m for m in _MODELS_SUPPORTED if not m.startswith("LINEAR")]
ANGLES = (0.3, np.pi / 2, 2.2)


def rotated(m, kw, phi):
    """the parameters of the profile turned counter-clockwise by phi around the origin; None when it has no such set"""
    out = dict(kw)
    c, s = np.cos(phi), np.sin(phi)
    if "center_x" in kw:
        out["center_x"], out["center_y"] = c * kw["center_x"] - s * kw["center_y"], s * kw["center_x"] + c * kw["center_y"]
    if "start_x" in kw:
        out["start_x"], out["start_y"] = c * kw["start_x"] - s * kw["start_y"], s * kw["start_x"] + c * kw["start_y"]
    c2, s2 = np.cos(2 * phi), np.sin(2 * phi)
    for a, b in (("e1", "e2"), ("e11", "e21"), ("e12", "e22"), ("e13", "e23")):
        if a in kw:
            out[a], out[b] = c2 * kw[a] - s2 * kw[b], s2 * kw[a] + c2 * kw[b]
    if "phi" in kw:
        out["phi"] = kw["phi"] + phi
    if "angle" in kw:
        out["angle"] = kw["angle"] - np.rad2deg(phi)  # measured from the first axis, clockwise
    if m == "INTERPOL":
        out["phi_G"] = kw["phi_G"] + phi
    if m == "SERSIC_ELLIPSE_FLEXION":  # spins 2, 1 and 3
        b = (kw["b1"] + 1j * kw["b2"]) * np.exp(2j * phi)
        cc = (kw["c1"] + 1j * kw["c2"]) * np.exp(1j * phi)
        d = (kw["d1"] + 1j * kw["d2"]) * np.exp(3j * phi)
        out.update(b1=b.real, b2=b.imag, c1=cc.real, c2=cc.imag, d1=d.real, d2=d.imag)
    if m in STARLETS or m in ("SHAPELETS", "SHAPELETS_ELLIPSE", "SHAPELETS_POLAR", "SHAPELETS_POLAR_EXP"):
        return None
    return out


def profile_case(m, tier, rec):
    x, y = grid(tier)
    kink = m in ("ELLIPSOID", "LINE_PROFILE")  # discontinuous: points next to the edge may fall on either side
    for j, kw in enumerate(corner_sets(m)):
        lm = model(m)
        what = "%s set %d" % (m, j)
        kw0 = snap(kw)
        f = lm.surface_brightness(x, y, [kw])
        rec.trans(x.size)
        rec.state("%s|%d" % (m, j))
        rec.outcome(f)
        rec.true("shape", np.shape(f) == np.shape(x), "%s: shape %s for %s points" % (what, np.shape(f), np.shape(x)))
        rec.true("finite", np.all(np.isfinite(f)), "%s: not finite" % what)
        ok = np.ones(x.size, bool)
        # -------- kinds of coordinates
        rec.same("list", lm.surface_brightness(list(x), list(y), [kw]), f, what=what)
        one = [lm.surface_brightness(float(a), float(b), [kw]) for a, b in zip(x, y)]
        rec.same("scalar", [float(v) for v in one], f, what=what + " one by one")
        rec.same("sub", lm.surface_brightness(x[::-3], y[::-3], [kw]), f[::-3], what=what + " subset")
        xi, yi = np.array([-2, -1, 0, 1, 3, 0, 2]), np.array([1, 0, 0, -2, 0, 2, -1])
        fi = model(m).surface_brightness(xi, yi, [kw])
        rec.same("int", fi, model(m).surface_brightness(xi.astype(float), yi.astype(float), [kw]), what=what + " integer coordinates")
        rec.same("direct", np.asarray(lm.func_list[0].function(x, y, **kw), dtype=float) + 0 * x, f, what=what)
        # -------- special places
        cx, cy = kw.get("center_x", kw.get("start_x", 0.0)), kw.get("center_y", kw.get("start_y", 0.0))
        far = lm.surface_brightness(np.array([cx, cx + 1e-12, cx, 1e3, -1e3, 0.0, 1e6]), np.array([cy, cy, cy - 1e-9, 1e3, 0.0, -1e3, -1e6]), [kw])
        if kw.get("alpha_c", 0) >= 1:  # a cusp that diverges in projection
            far = far[3:]
        rec.true("finite-special", np.all(np.isfinite(far)), "%s: not finite at the centre or far away: %s" % (what, far))
        # -------- amplitude
        if m in LINEAR_AMP:
            for s in (2.5, -0.7, 0.0):
                fs = model(m).surface_brightness(x, y, [dict(kw, amp=np.array(kw["amp"]) * s if np.ndim(kw["amp"]) else kw["amp"] * s)])
                rec.same("linear", fs, s * f, 1e-9, 1e-11, what=what + " amp times %s" % s)
            if np.ndim(kw["amp"]):
                amp2 = np.cos(np.arange(len(kw["amp"])))
                f2 = model(m).surface_brightness(x, y, [dict(kw, amp=amp2)])
                rec.same("add", model(m).surface_brightness(x, y, [dict(kw, amp=np.array(kw["amp"]) + 2 * amp2)]), f + 2 * f2, 1e-9, 1e-10, what=what + " vector amplitudes add")
        # -------- shift and rotation
        if m not in ("UNIFORM", "SERSIC_ELLIPSE_FLEXION") or (m == "SERSIC_ELLIPSE_FLEXION" and not any(kw[k] for k in ("a", "b1", "c1", "d1"))):
            for dx, dy in ((0.7, 0.0), (0.0, -1.3), (-2.1, 0.4)):
                k2 = dict(kw)
                for a, b in (("center_x", "center_y"), ("start_x", "start_y")):
                    if a in kw:
                        k2[a], k2[b] = kw[a] + dx, kw[b] + dy
                rec.same("shift", model(m).surface_brightness(x + dx, y + dy, [k2]), f, 1e-7, 1e-9, what=what + " moved by (%s,%s)" % (dx, dy))
        for phi in ANGLES:
            k2 = rotated(m, kw, phi)
            if k2 is None:
                continue
            xr, yr = np.cos(phi) * x - np.sin(phi) * y, np.sin(phi) * x + np.cos(phi) * y
            fr = model(m).surface_brightness(xr, yr, [k2])
            if kink:
                rec.true("rotate", np.sum(np.abs(fr - f) > 1e-9) == 0, "%s rotated by %.2f: %d points differ" % (what, phi, np.sum(np.abs(fr - f) > 1e-9)))
            else:
                rec.same("rotate", fr, f, 1e-6, 1e-9, what=what + " rotated by %.2f" % phi)
        rec.unchanged("kwargs", kw, kw0, what)
    # -------- repeated evaluation: all sequences of evaluations on one instance against fresh instances
    xs, ys = x[::5], y[::5]
    ops = [("a", params(m, 0), xs, ys), ("b", params(m, 1), xs, ys), ("c", params(m, 0), ys[:4], xs[:4]), ("s", params(m, 2), 0.3, -0.2)]
    fresh = {o[0]: model(m).surface_brightness(o[2], o[3], [snap(o[1])]) for o in ops}
    for seq in itertools.product(ops, repeat=3 if tier == "quick" else 4):
        lm = model(m)
        tag = "".join(o[0] for o in seq)
        for o in seq:
            got = lm.surface_brightness(o[2], o[3], [o[1]])
            rec.trans()
        rec.trace()
        rec.same("history", got, fresh[seq[-1][0]], 1e-10, 1e-12, what="%s after evaluations %s" % (m, tag))
    if m in ("INTERPOL",) + STARLETS:
        lm = model(m)
        key = "image" if m == "INTERPOL" else "amp"
        kw = params(m)
        lm.surface_brightness(xs, ys, [kw])
        kw[key] *= 3.0  # the caller edits the array it passed
        rec.same("edited", lm.surface_brightness(xs, ys, [kw]), model(m).surface_brightness(xs, ys, [kw]), what=m + ": array edited between evaluations")


# ------------------------------------------------------------------ total flux and projection
FLUX = ["SERSIC", "SERSIC_ELLIPSE", "SERSIC_ELLIPSE_FLEXION", "INTERPOL", "GAUSSIAN", "GAUSSIAN_ELLIPSE", "MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE", "MGE_SET",
        "MGE_SET_ELLIPSE", "LINE_PROFILE", "HERNQUIST", "HERNQUIST_ELLIPSE", "PL_SERSIC"]
PROJ = ["CHAMELEON", "DOUBLE_CHAMELEON", "TRIPLE_CHAMELEON", "HERNQUIST", "HERNQUIST_ELLIPSE", "PJAFFE", "PJAFFE_ELLIPSE", "GAUSSIAN", "GAUSSIAN_ELLIPSE", "MULTI_GAUSSIAN",
        "MULTI_GAUSSIAN_ELLIPSE", "NIE", "POWER_LAW"]


def integral(m, kw, tier, lm=None):
    """integral of the surface brightness over the sky by quadrature in log-polar coordinates around the centre"""
    lm = lm or model(m)
    if m in ("INTERPOL", "LINE_PROFILE"):
        n = 1500
        g = (np.arange(n) + 0.5) / n * 6 - 3
        tot = 0.0
        for row in np.array_split(g, 50):
            xx, yy = np.meshgrid(g, row)
            tot += np.sum(lm.surface_brightness(xx.ravel(), yy.ravel(), [kw])) * (6.0 / n) ** 2
        return tot
    cx, cy = kw["center_x"], kw["center_y"]
    th = (np.arange(48) + 0.5) / 48 * 2 * np.pi
    nu = 250 if m == "PL_SERSIC" else 1500
    lo, hi = np.log(1e-5), np.log(1e5 if m.startswith("HERNQUIST") else 400.0)
    u, w = np.polynomial.legendre.leggauss(nu)
    u = lo + (u + 1) / 2 * (hi - lo)
    w = w * (hi - lo) / 2
    tot = 0.0
    for t in th[:12] if m == "PL_SERSIC" else th:
        t = t if m != "PL_SERSIC" else t * 4
        r = np.exp(u)
        f = lm.surface_brightness(cx + r * np.cos(t), cy + r * np.sin(t), [kw])
        tot += np.sum(f * r ** 2 * w) * 2 * np.pi / (12 if m == "PL_SERSIC" else 48)
    return tot


def flux_case(m, tier, rec):
    sets = corner_sets(m)
    if m == "PL_SERSIC":
        sets = sets[:2] + sets[3:5]
    tol = {"PL_SERSIC": 0.05, "LINE_PROFILE": 2e-2, "SERSIC_ELLIPSE_FLEXION": 2e-4, "INTERPOL": 1e-3, "HERNQUIST": 1e-4, "HERNQUIST_ELLIPSE": 1e-4}.get(m, 1e-5)
    for j, kw in enumerate(sets):
        if m.startswith("SERSIC_ELLIPSE_FLEXION"):
            kw = dict(kw, a=0, b1=0, b2=0, c1=0, c2=0, d1=0, d2=0)
        lm = model(m)
        what = "%s set %d" % (m, j)
        got = lm.total_flux([kw])
        rec.trans()
        rec.outcome(got)
        exp = integral(m, kw, tier)
        rec.same("flux", got[0], exp, tol, 1e-9, what=what + " total flux against the integral")
        unit = np.array(kw["amp"]) / np.sum(kw["amp"]) if np.ndim(kw["amp"]) else 1.0
        rec.same("norm", lm.total_flux([kw], norm=True)[0], lm.total_flux([dict(kw, amp=unit)])[0], what=what + " unit amplitude")
    if m == "SERSIC_ELLIPSE_FLEXION":
        kw = dict(params(m), c1=0, c2=0, d1=0, d2=0)
        rec.same("flux-shear", model(m).total_flux([kw])[0], integral(m, kw, tier), tol, 1e-9, what=m + " with a linear distortion")
    if m in ("SERSIC_ELLIPSE", "SERSIC_ELLIPSE_FLEXION"):  # the half-light radius given along the major axis
        for e1, e2 in ((0.0, 0.0), (0.2, 0.1), (0.0, -0.3)):
            kw = dict(params(m), e1=e1, e2=e2)
            if m == "SERSIC_ELLIPSE_FLEXION":
                kw.update(a=0, b1=0, b2=0, c1=0, c2=0, d1=0, d2=0)
            lm = LightModel([m], profile_kwargs_list=[{"sersic_major_axis": True}])
            rec.same("flux-major", lm.total_flux([kw])[0], integral(m, kw, tier, lm), tol, 1e-9, what="%s e=(%s,%s) radius along the major axis" % (m, e1, e2))
            phi, c = np.arctan2(e2, e1) / 2, np.hypot(e1, e2)
            t = np.linspace(0, 6, 7)
            a, b = 0.6 * np.cos(t), 0.6 * np.sin(t) * (1 - c) / (1 + c)
            kw["R_sersic"] = 0.6
            f = lm.surface_brightness(kw["center_x"] + np.cos(phi) * a - np.sin(phi) * b, kw["center_y"] + np.sin(phi) * a + np.cos(phi) * b, [kw])
            rec.same("iso-major", f, np.full(7, kw["amp"]), 1e-8, what="%s e=(%s,%s) isophote of the half-light ellipse" % (m, e1, e2))
    # pairs of profiles: list in order, selection
    for m2 in FLUX:
        lm = model(m, m2)
        kws = [params(m, 0), params(m2, 1)]
        both = [model(m).total_flux([kws[0]])[0], model(m2).total_flux([kws[1]])[0]]
        rec.same("pair", lm.total_flux(kws), both, what="%s+%s" % (m, m2))
        rec.same("pair-k0", lm.total_flux(kws, k=0), both[:1], what="%s+%s k=0" % (m, m2))
        rec.same("pair-k1", lm.total_flux(kws, k=[1]), both[1:], what="%s+%s k=[1]" % (m, m2))
        rec.trans(3)


def proj_case(m, tier, rec):
    rr = [0.05, 0.3, 0.9, 2.2, 6.0]
    for j, kw in enumerate(corner_sets(m)):
        kw = dict(kw)
        for k in ("e1", "e2", "e11", "e21", "e12", "e22", "e13", "e23"):
            if k in kw:
                kw[k] = 0.0
        lm = model(m)
        what = "%s set %d" % (m, j)
        got = lm.surface_brightness(np.array(rr) + kw["center_x"], 0 * np.array(rr) + kw["center_y"], [kw])
        l3 = lm.light_3d(np.array(rr), [kw])
        rec.same("3d-scalar", [float(lm.light_3d(r, [kw])) for r in rr], l3, what=what)
        exp = []
        for r in rr:
            exp.append(sum(2 * quad(lambda t: float(lm.light_3d(r * np.cosh(t), [kw])) * r * np.cosh(t), a, b, limit=200, epsabs=1e-13, epsrel=1e-9)[0]
                           for a, b in ((0, 2), (2, 6), (6, 16), (16, 26))))
        rec.trans(len(rr))
        rec.outcome(l3)
        tol = 1e-4 if m in ("POWER_LAW",) else 1e-6
        if m == "POWER_LAW":  # softened with 1e-4, and the outermost shells converge slowly
            tol = 5e-3
        rec.same("project", got, exp, tol, 1e-9, what=what + " surface brightness against the projected light")
    for m2 in PROJ:
        kws = [params(m, 0), params(m2, 1)]
        for k, sel in ((None, (0, 1)), (0, (0,)), ([1], (1,)), ([0, 1], (0, 1))):
            exp = sum(model((m, m2)[i]).light_3d(np.array(rr), [kws[i]]) for i in sel)
            rec.same("3d-sum", model(m, m2).light_3d(np.array(rr), kws, k=k), exp, what="%s+%s k=%s" % (m, m2, k))
            rec.trans()


# ------------------------------------------------------------------ alternative parametrisations
def alt_case(tier, rec):
    x, y = grid(tier)

    def f(m, kw):
        rec.trans()
        return model(m).surface_brightness(x, y, [kw])

    z = dict(e1=0.0, e2=0.0)
    for j in range(3):
        for a, b in (("GAUSSIAN", "GAUSSIAN_ELLIPSE"), ("MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE"), ("MGE_SET", "MGE_SET_ELLIPSE"), ("SERSIC", "SERSIC_ELLIPSE"),
                     ("HERNQUIST", "HERNQUIST_ELLIPSE"), ("PJAFFE", "PJAFFE_ELLIPSE"), ("SHAPELETS", "SHAPELETS_ELLIPSE"), ("LINEAR", "LINEAR_ELLIPSE")):
            kw = params(a, j)
            rec.same("round|" + b, f(b, dict(kw, **z)), f(a, kw), 1e-7, 1e-10, what="%s without ellipticity" % b)
        # elliptical profiles are the round ones on stretched coordinates of the same area
        for b in ("GAUSSIAN_ELLIPSE", "MULTI_GAUSSIAN_ELLIPSE", "MGE_SET_ELLIPSE", "SERSIC_ELLIPSE", "HERNQUIST_ELLIPSE", "SHAPELETS_ELLIPSE", "LINEAR_ELLIPSE"):
            a = b.replace("_ELLIPSE", "")
            kw = params(b, j)
            phi, c = np.arctan2(kw["e2"], kw["e1"]) / 2, np.hypot(kw["e1"], kw["e2"])
            q = (1 - c) / (1 + c)
            dx, dy = x - kw["center_x"], y - kw["center_y"]
            u, v = (np.cos(phi) * dx + np.sin(phi) * dy) * np.sqrt(q), (-np.sin(phi) * dx + np.cos(phi) * dy) / np.sqrt(q)
            kr = {k: w for k, w in kw.items() if k not in ("e1", "e2")}
            kr.update(center_x=0, center_y=0)
            if b == "SHAPELETS_ELLIPSE":  # a direction matters: the axes stay those of the sky
                rot = (np.cos(phi) * u - np.sin(phi) * v, np.sin(phi) * u + np.cos(phi) * v)
                alt = [model(a).surface_brightness(*rot, [kr]), model(a).surface_brightness(u, v, [kr])]
                got = f(b, kw)
                rec.true("stretch|" + b, any(np.allclose(got, t, rtol=1e-6, atol=1e-9) for t in alt), "%s is not a stretched %s" % (b, a))
                continue
            rec.same("stretch|" + b, f(b, kw), model(a).surface_brightness(u, v, [kr]), 1e-7, 1e-10, what="%s on stretched coordinates" % b)
        kw = params("SERSIC_ELLIPSE", j)
        phi, c = np.arctan2(kw["e2"], kw["e1"]) / 2, np.hypot(kw["e1"], kw["e2"])
        kq = {k: v for k, v in kw.items() if k not in ("e1", "e2")}
        rec.same("q-phi", f("SERSIC_ELLIPSE_Q_PHI", dict(kq, q=(1 - c) / (1 + c), phi=phi)), f("SERSIC_ELLIPSE", kw), 1e-7, 1e-10, what="axis ratio and angle")
        rec.same("no-flexion", f("SERSIC_ELLIPSE_FLEXION", dict(kw, a=0, b1=0, b2=0, c1=0, c2=0, d1=0, d2=0)), f("SERSIC_ELLIPSE", kw), what="no flexion")
        rec.same("no-core", f("CORE_SERSIC", dict(kw, Rb=0.0, gamma=0.4)), f("SERSIC_ELLIPSE", kw), 1e-7, 1e-10, what="no core")
        kw = params("MGE_SET_ELLIPSE", j)
        sig = np.geomspace(kw["sigma_min"], kw["sigma_min"] + kw["sigma_width"], N_COMP)
        rec.same("mge", f("MGE_SET_ELLIPSE", kw), f("MULTI_GAUSSIAN_ELLIPSE", dict(amp=kw["amp"], sigma=sig, e1=kw["e1"], e2=kw["e2"], center_x=kw["center_x"], center_y=kw["center_y"])),
                 what="set of Gaussians in logarithmic widths")
        rec.same("mg", f("MULTI_GAUSSIAN", dict(params("MULTI_GAUSSIAN", j))), sum(f("GAUSSIAN", dict(params("MULTI_GAUSSIAN", j), amp=a, sigma=s)) for a, s in zip(
            params("MULTI_GAUSSIAN", j)["amp"], params("MULTI_GAUSSIAN", j)["sigma"])), what="sum of Gaussians")
        kw = params("DOUBLE_CHAMELEON", j)
        c0 = dict(center_x=kw["center_x"], center_y=kw["center_y"])
        ra = kw["ratio"]
        rec.same("double", f("DOUBLE_CHAMELEON", kw), f("CHAMELEON", dict(amp=kw["amp"] * ra / (1 + ra), w_c=kw["w_c1"], w_t=kw["w_t1"], e1=kw["e11"], e2=kw["e21"], **c0))
                 + f("CHAMELEON", dict(amp=kw["amp"] / (1 + ra), w_c=kw["w_c2"], w_t=kw["w_t2"], e1=kw["e12"], e2=kw["e22"], **c0)), what="sum of two chameleons")
        kw = params("TRIPLE_CHAMELEON", j)
        c0 = dict(center_x=kw["center_x"], center_y=kw["center_y"])
        a1 = kw["amp"] / (1 + 1 / kw["ratio12"] + 1 / kw["ratio13"])
        rec.same("triple", f("TRIPLE_CHAMELEON", kw), sum(f("CHAMELEON", dict(amp=a, w_c=kw["w_c%d" % i], w_t=kw["w_t%d" % i], e1=kw["e1%d" % i], e2=kw["e2%d" % i], **c0))
                                                         for i, a in ((1, a1), (2, a1 / kw["ratio12"]), (3, a1 / kw["ratio13"]))), what="sum of three chameleons")
        kw = params("SHAPELETS", j)
        k0 = dict(kw, n_max=0, amp=np.array([1.7]))
        rec.same("gauss", f("SHAPELETS", k0), f("GAUSSIAN", dict(amp=1.7 * 2 * np.sqrt(np.pi) * kw["beta"] ** 2, sigma=kw["beta"], center_x=kw["center_x"], center_y=kw["center_y"])), 1e-7, 1e-10,
                 what="lowest shapelet is a Gaussian")
    # pixel values of an interpolated image are met at the pixel positions
    kw = dict(params("INTERPOL"), phi_G=0.0, center_x=0.2, center_y=-0.1)
    im = kw["image"]
    ny, nx = im.shape
    for i, j in itertools.product(range(ny), range(nx)):
        px, py = (j - (nx - 1) / 2) * kw["scale"] + 0.2, (i - (ny - 1) / 2) * kw["scale"] - 0.1
        rec.same("pixel", float(model("INTERPOL").surface_brightness(px, py, [kw])), kw["amp"] * im[i, j], 1e-8, what="pixel %d,%d" % (i, j))
        rec.trans()
    # Sersic: half of the light within the half-light radius, any ellipticity
    for n, (e1, e2) in itertools.product((1.0, 2.5, 4.0), ((0, 0), (0.2, -0.1))):
        kw = dict(amp=1.3, R_sersic=0.8, n_sersic=n, e1=e1, e2=e2, center_x=0.1, center_y=0.2)
        phi, c = np.arctan2(e2, e1) / 2, np.hypot(e1, e2)
        q = (1 - c) / (1 + c)
        u, w = np.polynomial.legendre.leggauss(800)
        uu = np.log(1e-6) + (u + 1) / 2 * (np.log(0.8) - np.log(1e-6))
        ww = w / 2 * (np.log(0.8) - np.log(1e-6))
        tot = 0
        for t in (np.arange(24) + 0.5) / 24 * 2 * np.pi:
            a, b = np.exp(uu) * np.cos(t) / np.sqrt(q), np.exp(uu) * np.sin(t) * np.sqrt(q)
            fx = model("SERSIC_ELLIPSE").surface_brightness(0.1 + np.cos(phi) * a - np.sin(phi) * b, 0.2 + np.sin(phi) * a + np.cos(phi) * b, [kw])
            tot += np.sum(fx * np.exp(2 * uu) * ww) * 2 * np.pi / 24
        rec.same("half-light", tot / model("SERSIC_ELLIPSE").total_flux([kw])[0], 0.5, 6e-3, what="n=%s e=(%s,%s) share of the light within R_sersic" % (n, e1, e2))


# ------------------------------------------------------------------ LightModel
SPLIT = [m for m in _MODELS_SUPPORTED if m not in STARLETS and not m.startswith("LINEAR")]
PHYSICAL = ["MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE", "MGE_SET", "MGE_SET_ELLIPSE", "CHAMELEON", "CORE_SERSIC", "DOUBLE_CHAMELEON", "TRIPLE_CHAMELEON", "GAUSSIAN", "GAUSSIAN_ELLIPSE",
            "HERNQUIST", "HERNQUIST_ELLIPSE", "NIE", "PJAFFE", "PJAFFE_ELLIPSE", "PL_SERSIC", "POWER_LAW", "SERSIC", "SERSIC_ELLIPSE", "SERSIC_ELLIPSE_FLEXION", "SERSIC_ELLIPSE_Q_PHI",
            "ELLIPSOID"]


def sum_case(m, tier, rec):
    x, y = np.array([-1.1, 0.0, 0.32, 0.8, 1.9]), np.array([0.4, 0.1, -0.6, 1.3, -0.2])
    third = "GAUSSIAN"
    for m2 in _MODELS_SUPPORTED:
        # the same bookkeeping with the profiles late in a longer list
        names = ("UNIFORM", third, m, m2, third)
        kws = [params(n, j % 3) for j, n in enumerate(names)]
        lm = model(*names)
        amps = np.concatenate([np.atleast_1d(k["amp"]) for k in kws])
        what = "+".join(names)
        rec.same("late-num", list(lm.num_param_linear(kws, list_return=True)), [np.size(k["amp"]) for k in kws], what=what)
        rec.same("late-linear-param", lm.linear_param_from_kwargs(kws), amps, what=what)
        new = np.arange(len(amps) + 3) + 0.25
        out, i = lm.update_linear(new, 1, snap(kws))
        rec.true("late-update-i", i == 1 + len(amps), "%s: index %s" % (what, i))
        rec.same("late-update", np.concatenate([np.atleast_1d(k["amp"]) for k in out]), new[1:i], what=what)
        rec.same("late-sum", lm.surface_brightness(x, y, kws, k=[2, 4]), model(m).surface_brightness(x, y, [kws[2]]) + model(third).surface_brightness(x, y, [kws[4]]), 1e-9, 1e-11, what=what)
        if m in SPLIT and m2 in SPLIT:
            resp, n = lm.functions_split(x, y, kws, k=[0, 2, 3])
            pick = np.concatenate([np.atleast_1d(kws[j]["amp"]) for j in (0, 2, 3)])
            rec.true("late-split-n", n == len(resp) == len(pick), what)
            if len(resp) == len(pick):
                rec.same("late-split", sum(a * np.asarray(r, float) for a, r in zip(pick, resp)), lm.surface_brightness(x, y, kws, k=[0, 2, 3]), 1e-8, 1e-10, what=what)
        rec.trans(3)
        names = (m, m2, third)
        kws = [params(m, 0), params(m2, 1), params(third, 2)]
        kws0 = snap(kws)
        single = [model(n).surface_brightness(x, y, [k]) for n, k in zip(names, kws)]
        lm = model(*names)
        what = "+".join(names)
        for k, sel in ((None, (0, 1, 2)), (0, (0,)), (1, (1,)), (2, (2,)), ([0, 2], (0, 2)), ([1, 2], (1, 2)), ([], ())):
            rec.same("sum", lm.surface_brightness(x, y, kws, k=k), sum([single[i] for i in sel], 0 * x), 1e-9, 1e-11, what="%s k=%s" % (what, k))
            rec.trans()
        rec.state(what)
        # linear basis
        if m in SPLIT and m2 in SPLIT:
            for k, sel in ((None, (0, 1, 2)), (0, (0,)), ([1], (1,)), ([0, 2], (0, 2))):
                resp, n = lm.functions_split(x, y, kws, k=k)
                amps = np.concatenate([np.atleast_1d(kws[i]["amp"]) for i in sel])
                rec.true("split-n", n == len(resp) == len(amps), "%s k=%s: %d responses, %d amplitudes" % (what, k, len(resp), len(amps)))
                rec.trans()
                if len(resp) == len(amps):
                    rec.same("split", sum(a * np.asarray(r, float) for a, r in zip(amps, resp)), sum(single[i] for i in sel), 1e-8, 1e-10, what="%s k=%s responses" % (what, k))
        nl = lm.num_param_linear(kws, list_return=True)
        num = [np.size(k["amp"]) for k in kws]
        rec.same("num", list(nl), num, what=what)
        rec.same("num-total", lm.num_param_linear(kws), sum(num), what=what)
        amps = np.concatenate([np.atleast_1d(k["amp"]) for k in kws])
        rec.same("linear-param", lm.linear_param_from_kwargs(kws), amps, what=what)
        new = np.concatenate([[9.0, 9.0], np.arange(len(amps)) + 0.5, [8.0]])
        out, i = lm.update_linear(new, 2, snap(kws))
        rec.true("update-i", i == 2 + len(amps), "%s: index %s" % (what, i))
        rec.same("update", lm.linear_param_from_kwargs(out), np.arange(len(amps)) + 0.5, what=what)
        rec.same("update-rest", [{k: v for k, v in o.items() if k != "amp"} for o in out], [{k: v for k, v in o.items() if k != "amp"} for o in kws], what=what)
        lm.check_parameters(kws)
        rec.unchanged("kwargs", kws, kws0, what)
    # parameters: everything missing or surplus is refused
    lm = model(m, "GAUSSIAN")
    kws = [params(m), params("GAUSSIAN")]
    for i, kw in enumerate(kws):
        for name in kw:
            bad = snap(kws)
            del bad[i][name]
            rec.raises("missing", lambda b=bad: lm.check_parameters(b), ValueError, "%s without %s" % (m, name))
        bad = snap(kws)
        bad[i]["unknown"] = 1
        rec.raises("surplus", lambda b=bad: lm.check_parameters(b), ValueError, "%s with an unknown parameter" % m)
        rec.trans(len(kw) + 1)
    rec.raises("count", lambda: lm.check_parameters(kws[:1]), ValueError, "%s: a profile without parameters" % m)
    # signs
    if m in PHYSICAL:
        n = np.size(params(m)["amp"])
        for neg in range(n):
            kw = params(m)
            if np.ndim(kw["amp"]):
                kw["amp"] = np.abs(kw["amp"])
                kw["amp"][neg] *= -1
            else:
                kw["amp"] = -abs(kw["amp"])
            for kws in ([kw, params("GAUSSIAN")], ):
                rec.true("negative", not model(m, "GAUSSIAN").check_positive_flux_profile(kws), "%s: negative amplitude %d passes" % (m, neg))
                rec.true("negative-2", not model("GAUSSIAN", m).check_positive_flux_profile(kws[::-1]), "%s: negative amplitude %d passes" % (m, neg))
        good = params(m)
        good["amp"] = np.abs(good["amp"]) if np.ndim(good["amp"]) else abs(good["amp"])
        rec.true("positive", model(m, "UNIFORM").check_positive_flux_profile([good, dict(amp=-1.0)]), "%s: positive amplitude refused" % m)
    # configuration passed in is not modified and may be shared
    conf = {"n_comp": N_COMP} if m.startswith("MGE_SET") else {}
    conf0 = dict(conf)
    LightModel([m], profile_kwargs_list=[conf])
    rec.true("conf", conf == conf0, "%s: profile options passed in became %s" % (m, conf))
    # default range of the parameters
    prof = model(m).func_list[0]
    for name in prof.param_names:
        lo, up = prof.lower_limit_default.get(name), prof.upper_limit_default.get(name)
        if lo is not None or up is not None:
            rec.true("range", np.all(np.asarray(lo) < np.asarray(up)), "%s: default range of %s is [%s, %s]" % (m, name, lo, up))


# ------------------------------------------------------------------ bases
def basis_case(cid, tier, rec):
    kind = cid.split("|")[1]
    if kind in ("cart", "polar", "polarexp"):
        n_top = 5 if tier == "quick" else 9
        for n_max, beta, (cx, cy) in itertools.product(range(n_top), (0.7, 1.3), ((0, 0), (0.4, -0.3))):
            if kind == "polarexp" and n_max > 2:
                continue
            d = 0.1 if kind != "polarexp" else 0.15 * beta
            half = 12.0 if kind != "polarexp" else (15, 40, 60)[n_max] * beta
            g = np.arange(-half, half + d / 2, d)
            xx, yy = [v.ravel() for v in np.meshgrid(g, g)]
            if kind == "cart":
                s, num = ShapeletSet(), (n_max + 1) * (n_max + 2) // 2
                lm = "SHAPELETS"
            elif kind == "polar":
                s, num = ShapeletSetPolar(exponential=False), (n_max + 1) * (n_max + 2) // 2
                lm = "SHAPELETS_POLAR"
            else:
                s, num = ShapeletSetPolar(exponential=True), (n_max + 1) ** 2
                lm = "SHAPELETS_POLAR_EXP"
            base = np.array(s.function_split(xx, yy, amp=np.ones(num), n_max=n_max, beta=beta, center_x=cx, center_y=cy))
            rec.trans(num)
            rec.state("%s|%d|%s|%s" % (kind, n_max, beta, cx))
            gram = base @ base.T * d * d
            if kind == "cart":
                exp = np.eye(num) * beta ** 2
            else:
                exp = np.diag([1.0 if s.index2poly(i)[1] == 0 else 0.5 for i in range(num)])
            tol = 1e-6 if kind != "polarexp" else 6e-3  # the exponential basis has a cusp in the centre
            rec.same("orthonormal", gram, exp, tol, tol, what="%s n_max=%d beta=%s" % (kind, n_max, beta))
            amp = np.array([np.sin(1.3 * i + 1) for i in range(num)])
            img = s.function(xx, yy, amp, n_max, beta, cx, cy)
            rec.same("synthesis", img, amp @ base, what=kind)
            dec = s.decomposition(img, xx, yy, n_max, beta, d, cx, cy)
            rec.same("decompose", dec, amp, 2e-6 if kind != "polarexp" else 3e-2, 2e-6 if kind != "polarexp" else 3e-2, what="%s n_max=%d beta=%s amplitudes from the image" % (kind, n_max, beta))
            rec.same("model", LightModel([lm]).surface_brightness(xx[::97], yy[::97], [dict(amp=amp, n_max=n_max, beta=beta, center_x=cx, center_y=cy)]), img[::97], what=kind)
        if kind == "cart":
            for interp, cut in itertools.product((False,), (True, False)):
                sh = Shapelets(interpolation=interp, stable_cut=cut)
                xs = np.array([-30.0, -6.0, -2.0, -0.3, 0.0, 0.8, 3.0, 7.0, 30.0])
                for n in range(0, 12):
                    want = np.array([phi_n(n, float(v)) for v in xs])
                    rec.same("phi", sh.phi_n(n, xs), want, 1e-9, 1e-12, what="one-dimensional function %d" % n)
                    rec.same("phi-scalar", [sh.phi_n(n, float(v)) for v in xs], want, 1e-9, 1e-12, what="one-dimensional function %d" % n)
                    xi = np.array([-6, -2, 0, 1, 3])
                    rec.same("phi-int", sh.phi_n(n, xi), [phi_n(n, float(v)) for v in xi], 1e-9, 1e-12, what="integer positions, function %d" % n)
                    rec.same("parity", sh.phi_n(n, -xs), (-1) ** n * sh.phi_n(n, xs), 1e-9, 1e-12, what="parity of function %d" % n)
                    rec.trans(4)
            # far outside, high order
            lm = LightModel(["SHAPELETS"])
            n_max = 60
            kw = [dict(amp=np.ones(shapelet_num("SHAPELETS", n_max)), n_max=n_max, beta=0.01, center_x=0, center_y=0)]
            for xf, yf in itertools.product((-1e4, -50.0, 0.0, 50.0, 1e4), repeat=2):
                resp, _ = lm.functions_split(np.array([xf]), np.array([yf]), kw)
                rec.true("far", np.all(np.isfinite(resp)), "responses at (%g, %g) beta=0.01 n_max=60 are not finite" % (xf, yf))
                rec.trans()
        else:
            s = ShapeletSetPolar(exponential=kind == "polarexp").shapelets
            seen = set()
            for i in range(60):
                n, mm, cb = s.index2poly(i)
                rec.true("index", s.poly2index(n, mm, cb) == i, "%s: index %d -> %s -> %s" % (kind, i, (n, mm, cb), s.poly2index(n, mm, cb)))
                rec.true("distinct", (n, mm, cb) not in seen and 0 <= mm <= n and not (cb and mm == 0), "%s: index %d -> %s" % (kind, i, (n, mm, cb)))
                seen.add((n, mm, cb))
                rec.trans()
    else:  # starlets
        for second, n_pix in itertools.product((False, True), (8, 9, 16) if tier == "quick" else (8, 9, 16, 20, 33)):
            for n_scales in range(2, int(np.log2(n_pix)) + 2):
                s = SLIT_Starlets(fast_inverse=True, second_gen=second)
                ii, jj = np.meshgrid(np.arange(n_pix), np.arange(n_pix), indexing="ij")
                img = np.cos(0.7 * ii) + np.sin(0.4 * jj + 0.2 * ii) + (ii == 3) * (jj == 2) * 2.0
                img0 = img.copy()
                co = s.decomposition_2d(img, n_scales)
                rec.true("scales", np.shape(co) == (n_scales, n_pix, n_pix), "shape %s" % (np.shape(co),))
                rec.same("starlet-inverse", s.function_2d(co, n_scales, n_pix ** 2), img, 1e-9, 1e-9, what="second_gen=%s n_pix=%d n_scales=%d" % (second, n_pix, n_scales))
                rec.same("starlet-1d", s.decomposition(img.ravel(), n_scales), np.asarray(co).ravel(), what="flat image")
                rec.unchanged("img", img, img0, "starlets")
                x1 = (np.arange(n_pix) - (n_pix - 1) / 2) * 0.2
                xx, yy = np.meshgrid(x1, x1)
                got = s.function(xx.ravel(), yy.ravel(), amp=np.asarray(co).ravel(), n_scales=n_scales, n_pixels=n_pix ** 2, scale=0.2)
                rec.same("starlet-grid", got, img.ravel(), 1e-8, 1e-9, what="second_gen=%s n_pix=%d n_scales=%d on the pixel grid" % (second, n_pix, n_scales))
                got = s.function(xx.ravel(), yy.ravel(), amp=np.asarray(co), n_scales=n_scales, n_pixels=n_pix ** 2, scale=0.2)
                rec.same("starlet-cube", got, img.ravel(), 1e-8, 1e-9, what="coefficients as a cube")
                rec.trans(5)
                rec.state("starlet|%s|%d|%d" % (second, n_pix, n_scales))


def phi_n(n, x):
    """one-dimensional shapelet from the stable three-term recurrence"""
    p0 = np.pi ** -0.25 * np.exp(-x * x / 2)
    if n == 0:
        return p0
    p1 = np.sqrt(2.0) * x * p0
    for k in range(1, n):
        p0, p1 = p1, np.sqrt(2.0 / (k + 1)) * x * p1 - np.sqrt(k / (k + 1.0)) * p0
    return p1


def cases(tier):
    return (["prof|" + m for m in _MODELS_SUPPORTED] + ["sum|" + m for m in _MODELS_SUPPORTED] + ["flux|" + m for m in FLUX] + ["proj|" + m for m in PROJ]
            + ["alt"] + ["basis|" + b for b in ("cart", "polar", "polarexp", "starlet")])


def run_case(cid, tier, rec):
    kind = cid.split("|")[0]
    if kind == "prof":
        profile_case(cid[5:], tier, rec)
    elif kind == "sum":
        sum_case(cid[4:], tier, rec)
    elif kind == "flux":
        flux_case(cid[5:], tier, rec)
    elif kind == "proj":
        proj_case(cid[5:], tier, rec)
    elif kind == "basis":
        basis_case(cid, tier, rec)
    else:
        alt_case(tier, rec)
    rec.sample(case=cid, transitions=rec.transitions)
