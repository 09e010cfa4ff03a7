"""P05: every lens profile is one consistent mass distribution.

For every registered profile, every parameter set of a small lattice and every point of a grid:
deflection = gradient of the potential, Hessian = gradient of the deflection, symmetric Hessian, covariance under shifts
and rotations of the sky, radial mass functions integrate each other, alternative parametrisations agree.
"""
import itertools

import numpy as np
from scipy.integrate import quad

from lenstronomy.LensModel.profile_list_base import lens_class
from lenstronomy.Util import param_util
from vmc import lenslib
from vmc.core import snap

# tolerance class of the profile (absolute+relative, on quantities of order one)
NO_POTENTIAL_GRADIENT = {"CURVED_ARC_CONST", "CURVED_ARC_CONST_MST", "CURVED_ARC_SPT", "SPL_CORE", "SERSIC_ELLIPSE_KAPPA", "SHEAR_REDUCED", "TNFWC", "PSEUDO_DPL",
                         "SHIFT", "DIPOLE"}
SLOW = {"GNFW", "GNFW_ELLIPSE_GAUSS_DEC", "GreenBoschNFW", "NFW_ELLIPSE_GAUSS_DEC", "SERSIC_ELLIPSE_GAUSS_DEC", "SERSIC_ELLIPSE_KAPPA",
        "CTNFW_GAUSS_DEC", "NFW_MC", "NFW_MC_ELLIPSE_POTENTIAL"}
TOL_A = {"GreenBoschNFW": 2e-2, "CNFW": 1e-3, "CNFW_ELLIPSE_POTENTIAL": 1e-3, "BPL": 1e-5, "GNFW": 1e-4, "GNFW_ELLIPSE_GAUSS_DEC": 1e-4}
TOL_H = {"GreenBoschNFW": 3e-2, "ElliSLICE": 1e-5, "GNFW_ELLIPSE_GAUSS_DEC": 1e-2, "NFW_ELLIPSE_POTENTIAL": 3e-3, "CNFW_ELLIPSE_POTENTIAL": 3e-3,
         "NFW_MC_ELLIPSE_POTENTIAL": 3e-3, "NIE_SIMPLE": 3e-3}
NOT_SYMMETRIC = {"CURVED_ARC_CONST", "CURVED_ARC_SPT"}  # documented: no potential exists
NO_HESSIAN = {"DIPOLE"}  # a perturbation of the source position, no lensing potential


def profile(model):
    return lens_class(model, lenslib.profile_kwargs(model))


def grid(tier, model):
    g = [-2.9, -1.15, -0.4, 0.35, 0.95, 2.1, 5.2] if tier == "quick" else [-6.3, -3.1, -1.7, -1.15, -0.4, -0.1, 0.0, 0.35, 0.95, 1.4, 2.1, 3.4, 5.2, 11.0]
    if model in SLOW:
        g = [-1.15, -0.4, 0.35, 0.95]
    if model in SLOW and tier == "quick":
        g = [-0.85, 0.55]
    x, y = np.meshgrid(g, g)
    return x.ravel() + 0.013, y.ravel() - 0.021


def special_sets(model):
    """parameter lattice: three generic sets and the degenerate corners of the parameter space"""
    out = [lenslib.params(model, s) for s in range(3)]
    base = lenslib.params(model, 0)
    if "e1" in base:
        out.append(dict(base, e1=0.0, e2=0.0))
        out.append(dict(base, e1=0.3, e2=0.0))
        out.append(dict(base, e1=0.0, e2=-0.3))
        out.append(dict(base, e1=-0.25, e2=0.2))
    if "center_x" in base:
        out.append(dict(base, center_x=0.0, center_y=0.0))
    if "gamma" in base:
        out.append(dict(base, gamma=2.0))
        out.append(dict(base, gamma=1.8))
    if "m" in base:
        for m in (1, 3, 4) if model == "MULTIPOLE_ELL" else (1, 2, 3, 4):
            out.append(dict(base, m=m))
    if "gamma_ext" in base:
        out.append(dict(base, psi_ext=2.5))
    return out


def diff_case(model, tier, rec):
    prof = profile(model)
    x, y = grid(tier, model)
    h = 5e-3 if model.startswith("CNFW") else 2e-4  # the potential of CNFW is a quadrature with errors of 1e-6
    sets = special_sets(model)
    if model in SLOW and tier == "quick":
        sets = sets[:2]
    for j, kw in enumerate(sets):
        what = "%s set %d" % (model, j)
        kw0 = snap(kw)

        def pot(a, b):
            return np.asarray(prof.function(a, b, **kw), dtype=float)

        def alpha(a, b):
            return [np.asarray(v, dtype=float) + 0 * a for v in prof.derivatives(a, b, **kw)]

        def hess(a, b):
            return [np.asarray(v, dtype=float) + 0 * a for v in prof.hessian(a, b, **kw)]

        def d4(f, dx, dy):  # fourth order central difference
            return (8 * (f(x + dx, y + dy) - f(x - dx, y - dy)) - (f(x + 2 * dx, y + 2 * dy) - f(x - 2 * dx, y - 2 * dy))) / (12 * (dx + dy))

        a = alpha(x, y)
        ta, th = TOL_A.get(model, 1e-6), TOL_H.get(model, 2e-6 if model not in NUMDIFF else NUMDIFF[model])
        if model not in NO_POTENTIAL_GRADIENT:
            ga = [d4(pot, h, 0), d4(pot, 0, h)]
            rec.same("gradient", a, ga, ta, ta, what=what)
        if model in NO_HESSIAN:
            continue
        H = hess(x, y)
        gx = d4(lambda p, q: np.array(alpha(p, q)), h, 0)
        gy = d4(lambda p, q: np.array(alpha(p, q)), 0, h)
        rec.same("hessian", H, [gx[0], gy[0], gx[1], gy[1]], th, th, what=what)
        if model not in NOT_SYMMETRIC | lenslib.LOS:
            rec.same("curl", H[1], H[2], th, th, what=what)
        rec.unchanged("kwargs", kw0, kw)
        rec.trans(10 * len(x))
        rec.trace()
        rec.state("%s%d" % (model, j))
        rec.outcome([a, H])


NUMDIFF = {m: 3e-4 for m in ["CNFW_ELLIPSE_POTENTIAL", "NFW_ELLIPSE_POTENTIAL", "NFW_MC_ELLIPSE_POTENTIAL", "TNFW_ELLIPSE_POTENTIAL",
                             "PJAFFE_ELLIPSE_POTENTIAL", "HERNQUIST_ELLIPSE_POTENTIAL", "GAUSSIAN_ELLIPSE_POTENTIAL", "NIE_SIMPLE", "NIE",
                             "CHAMELEON", "DOUBLE_CHAMELEON", "TRIPLE_CHAMELEON", "SERSIC_ELLIPSE_POTENTIAL", "SERSIC_ELLIPSE_KAPPA",
                             "CNFW", "SERSIC", "NFW_MC", "MULTI_GAUSSIAN_ELLIPSE_POTENTIAL", "ARC_PERT", "SIE"]}


# ------------------------------------------------------------------ covariance
def rot(x, y, phi):
    return np.cos(phi) * x - np.sin(phi) * y, np.sin(phi) * x + np.cos(phi) * y


PAIRS_E = [("e1", "e2"), ("e11", "e21"), ("e12", "e22"), ("e13", "e23"), ("gamma1", "gamma2")]
ANGLES_1 = {"phi", "phi_G", "phi_m", "phi_ref", "psi_ext", "direction", "psi"}
NO_ROT = {"FLEXION", "FLEXIONFG", "HESSIAN", "SHIFT", "DIPOLE", "SHAPELETS_CART", "SHAPELETS_POLAR", "GAUSSIAN_POTENTIAL", "CONST_MAG",
          "ARC_PERT", "NIE_SIMPLE", "BLANK_PLANE", "CSE"} | lenslib.LOS
NO_SHIFT = {"NIE_SIMPLE", "SHIFT", "BLANK_PLANE", "DIPOLE", "CURVED_ARC_CONST"} | lenslib.LOS


def rotated(model, kw, phi):
    kw = dict(kw)
    for a, b in PAIRS_E:
        if a in kw:
            kw[a], kw[b] = rot(kw[a], kw[b], 2 * phi)
    for n in ANGLES_1 & set(kw):
        kw[n] = kw[n] + phi
    for a, b in (("center_x", "center_y"), ("ra_0", "dec_0")):
        if a in kw:
            kw[a], kw[b] = rot(kw[a], kw[b], phi)
    return kw


def evaluate(prof, x, y, kw):
    out = [np.array([v + 0 * x for v in prof.derivatives(x, y, **kw)]), np.array([v + 0 * x for v in prof.hessian(x, y, **kw)])]
    try:
        out.append(np.asarray(prof.function(x, y, **kw)) + 0 * x)
    except Exception:
        out.append(None)
    return out


def angles(model, kw):
    if model in SLOW:
        return [np.pi / 2, np.pi / 3, -0.7]
    al = [np.pi / 6 * i for i in range(1, 12)]
    if "_M1" in model or "_M3" in model:
        # odd multipoles are defined relative to the major axis, whose direction is only defined modulo pi: keep it in (-pi/2, pi/2)
        phi0 = param_util.ellipticity2phi_q(kw["e1"], kw["e2"])[0]
        al = [a for a in [np.pi / 12 * i for i in range(-11, 12)] if abs(phi0 + a) < 1.5]
    return al


def covariance_case(model, tier, rec):
    prof = profile(model)
    x, y = grid("quick", model)
    tol = TOL_H.get(model, NUMDIFF.get(model, 1e-5))
    sets = [lenslib.params(model, s) for s in ((0,) if model in SLOW else (0, 1))]
    for j, kw in enumerate(sets):
        if "e1" in kw and model in {"CURVED_ARC_SPT"}:
            continue
        ref = evaluate(prof, x, y, kw)
        cname = ("center_x", "center_y") if "center_x" in kw else (("ra_0", "dec_0") if "ra_0" in kw else None)
        if cname and model not in NO_SHIFT:
            for dx, dy in ((0.4, 0), (0, -0.3), (-0.7, 0.2)):
                k2 = dict(kw, **{cname[0]: kw[cname[0]] + dx, cname[1]: kw[cname[1]] + dy})
                o = evaluate(prof, x + dx, y + dy, k2)
                rec.same("shift-alpha", o[0], ref[0], 1e-6, 1e-7, what="%s shifted by %s" % (model, (dx, dy)))
                rec.same("shift-hessian", o[1], ref[1], tol, tol, what="%s shifted by %s" % (model, (dx, dy)))
                if ref[2] is not None:
                    rec.same("shift-potential", o[2], ref[2], 1e-6, 1e-7, what="%s shifted by %s" % (model, (dx, dy)))
                rec.trans()
        if model not in NO_ROT:
            for phi in angles(model, kw):
                k2 = rotated(model, kw, phi)
                xr, yr = rot(x, y, phi)
                o = evaluate(prof, xr, yr, k2)
                ar = rot(ref[0][0], ref[0][1], phi)
                rec.same("rotate-alpha", o[0], ar, 1e-6, 1e-7, what="%s rotated by %.2f" % (model, phi))
                c, s = np.cos(phi), np.sin(phi)
                R = np.array([[c, -s], [s, c]])
                Hm = np.array([[ref[1][0], ref[1][1]], [ref[1][2], ref[1][3]]])
                Hr = np.einsum("ij,jkn,lk->iln", R, Hm, R)
                rec.same("rotate-hessian", o[1], [Hr[0, 0], Hr[0, 1], Hr[1, 0], Hr[1, 1]], tol, tol, what="%s rotated by %.2f" % (model, phi))
                if ref[2] is not None:
                    rec.same("rotate-potential", o[2], ref[2], 1e-6, 1e-7, what="%s rotated by %.2f" % (model, phi))
                rec.trans()
        rec.state("%s%d" % (model, j))
        rec.trace()
        rec.outcome(ref)


# ------------------------------------------------------------------ radial functions
def supports(prof, name, kw):
    """the base class refuses the radial functions a profile does not define"""
    fn = getattr(type(prof), name, None)
    if fn is None or fn is getattr(lens_base(), name, None):
        return False
    try:
        getattr(prof, name)(1.0, **kw)
    except (ValueError, NotImplementedError) as e:
        if "not defined" in str(e):
            return False
        raise
    return True


def radial_case(model, tier, rec):
    prof = profile(model)
    for s in range(2 if model in SLOW else 3):
        kw = {k: v for k, v in lenslib.params(model, s).items() if not k.startswith("center")}
        for n in kw:
            if n in ("e1", "e2", "e11", "e21", "e12", "e22", "e13", "e23"):
                kw[n] = 0.0
            elif n == "q":
                kw[n] = 1.0
        full = dict(kw)
        radii = np.array([0.25, 0.6, 1.0, 1.6, 2.8])
        if model in SLOW:
            radii = radii[1:3]
        a = np.array([float(prof.derivatives(np.array([r]), np.array([0.0]), **full)[0][0]) for r in radii])
        if supports(prof, "mass_2d_lens", kw):
            rad2 = np.concatenate([radii, [float(v) for v in kw.values() if isinstance(v, (int, float)) and 0.05 < v < 8]]) if model not in SLOW else radii
            a2 = np.array([float(prof.derivatives(np.array([r]), np.array([0.0]), **full)[0][0]) for r in rad2])
            m2 = np.array([float(prof.mass_2d_lens(r, **kw)) for r in rad2])
            rec.same("mass-2d", m2, a2 * np.pi * rad2, 2e-4, 1e-6, what="%s set %d enclosed projected mass vs deflection" % (model, s))
        if supports(prof, "mass_3d_lens", kw) and supports(prof, "density_lens", kw):
            shell = [quad(lambda r: 4 * np.pi * r ** 2 * float(prof.density_lens(r, **kw)), r0, r1)[0] for r0, r1 in zip(radii[:-1], radii[1:])]
            m3 = np.array([float(prof.mass_3d_lens(r, **kw)) for r in radii])
            rec.same("mass-3d", np.diff(m3), shell, 1e-4, 1e-7, what="%s set %d mass in shells vs density" % (model, s))
            if model in {"TNFWC", "TNFWC_ELLIPSE"}:  # numerical quadrature, scalar radii only
                continue
            arr = np.asarray(prof.mass_3d_lens(radii, **kw), dtype=float)
            rec.same("mass-3d-array", arr, m3, 1e-8, what="%s set %d" % (model, s))
            if model not in NO_PROJECTION:
                zmax = 2000.0
                k = []
                for R in radii[1:3]:
                    val = quad(lambda t: 2 * float(prof.density_lens(np.sqrt(R ** 2 + np.sinh(t) ** 2), **kw)) * np.cosh(t), 0, np.arcsinh(zmax), limit=400)[0]
                    k.append(val)
                H = prof.hessian(radii[1:3], 0 * radii[1:3], **full)
                kap = (np.asarray(H[0]) + np.asarray(H[3])) / 2 + 0 * radii[1:3]
                rec.same("projection", np.array(k), kap, 2e-3, 1e-5, what="%s set %d projected density vs convergence" % (model, s))
        rec.trans(len(radii))
        rec.trace()
        rec.state("%s%d" % (model, s))
        rec.outcome(a)


NO_PROJECTION = set()

# ------------------------------------------------------------------ equivalent descriptions
SPH = {"SIE": "SIS", "EPL": "SPP", "SPEP": "SPP", "EPL_NUMBA": "SPP", "NFW_ELLIPSE_POTENTIAL": "NFW", "NFW_ELLIPSE_CSE": "NFW", "NFW_ELLIPSE_GAUSS_DEC": "NFW",
       "TNFW_ELLIPSE_POTENTIAL": "TNFW", "HERNQUIST_ELLIPSE_POTENTIAL": "HERNQUIST", "HERNQUIST_ELLIPSE_CSE": "HERNQUIST", "PJAFFE_ELLIPSE_POTENTIAL": "PJAFFE",
       "CNFW_ELLIPSE_POTENTIAL": "CNFW", "SERSIC_ELLIPSE_POTENTIAL": "SERSIC", "SERSIC_ELLIPSE_KAPPA": "SERSIC", "GAUSSIAN_ELLIPSE_KAPPA": "GAUSSIAN",
       "GAUSSIAN_ELLIPSE_POTENTIAL": "GAUSSIAN", "NFW_MC_ELLIPSE_POTENTIAL": "NFW_MC", "MULTI_GAUSSIAN_ELLIPSE_KAPPA": "MULTI_GAUSSIAN",
       "MULTI_GAUSSIAN_ELLIPSE_POTENTIAL": "MULTI_GAUSSIAN", "GNFW_ELLIPSE_GAUSS_DEC": "GNFW"}
SPH_TOL = {"NFW_ELLIPSE_CSE": 1e-3, "HERNQUIST_ELLIPSE_CSE": 2e-3, "NFW_ELLIPSE_GAUSS_DEC": 5e-2, "GNFW_ELLIPSE_GAUSS_DEC": 5e-2, "SIE": 1e-4,
           "SERSIC_ELLIPSE_KAPPA": 1e-3, "CNFW_ELLIPSE_POTENTIAL": 1e-3}


def sphere_case(ell, rec):
    sph = SPH[ell]
    x, y = grid("quick", ell)
    for s in (0, 1):
        kw = dict(lenslib.params(ell, s), e1=0.0, e2=0.0)
        ks = {k: v for k, v in kw.items() if k not in ("e1", "e2")}
        a, b = evaluate(profile(ell), x, y, kw), evaluate(profile(sph), x, y, ks)
        tol = SPH_TOL.get(ell, 1e-5)
        rec.same("sphere-alpha", a[0], b[0], tol, tol, what="%s set %d" % (ell, s))
        th = max(tol * 3, 3e-4, TOL_H.get(ell, 0), TOL_H.get(sph, 0))
        rec.same("sphere-hessian", a[1], b[1], th, th, what="%s set %d" % (ell, s))
        if a[2] is not None and b[2] is not None:
            # the potential is defined up to a constant
            rec.same("sphere-potential", a[2] - a[2][0], b[2] - b[2][0], tol, tol, what="%s set %d" % (ell, s))
        rec.trans()
        rec.trace()
        rec.state("%s%d" % (ell, s))
        rec.outcome(b)


def equiv_list():
    out = []
    for s in (0, 1, 2):
        epl = lenslib.params("EPL", s)
        phi, q = param_util.ellipticity2phi_q(epl["e1"], epl["e2"])
        c = {k: epl[k] for k in ("center_x", "center_y")}
        out.append(("EPL_Q_PHI", s, ("EPL_Q_PHI", dict(theta_E=epl["theta_E"], gamma=epl["gamma"], q=q, phi=phi, **c)), [("EPL", epl)], 1e-9))
        out.append(("EPL_NUMBA", s, ("EPL_NUMBA", epl), [("EPL", epl)], 1e-6))
        out.append(("SIE-EPL", s, ("EPL", dict(epl, gamma=2.0)), [("SIE", {k: v for k, v in epl.items() if k != "gamma"})], 1e-5))
        out.append(("NIE-SIE", s, ("NIE", dict({k: v for k, v in epl.items() if k != "gamma"}, s_scale=1e-8)), [("SIE", {k: v for k, v in epl.items() if k != "gamma"})], 1e-4))
        sh = lenslib.params("SHEAR_GAMMA_PSI", s)
        g1, g2 = sh["gamma_ext"] * np.cos(2 * sh["psi_ext"]), sh["gamma_ext"] * np.sin(2 * sh["psi_ext"])
        out.append(("SHEAR_GAMMA_PSI", s, ("SHEAR_GAMMA_PSI", sh), [("SHEAR", dict(gamma1=g1, gamma2=g2, ra_0=sh["ra_0"], dec_0=sh["dec_0"]))], 1e-9))
        pm = lenslib.params("POINT_MASS_LOG_SCALED", s)
        out.append(("POINT_MASS_LOG", s, ("POINT_MASS_LOG_SCALED", pm), [("POINT_MASS", dict(theta_E=10 ** pm["log10_theta_E"], center_x=pm["center_x"], center_y=pm["center_y"]))], 1e-9))
        mg = lenslib.params("MULTI_GAUSSIAN", s)
        out.append(("MULTI_GAUSSIAN", s, ("MULTI_GAUSSIAN", mg), [("GAUSSIAN", dict(amp=mg["amp"][i] * mg["scale_factor"], sigma=mg["sigma"][i], center_x=mg["center_x"], center_y=mg["center_y"])) for i in range(2)], 1e-9))
        for ell in ("MULTI_GAUSSIAN_ELLIPSE_KAPPA", "MULTI_GAUSSIAN_ELLIPSE_POTENTIAL"):
            mg = lenslib.params(ell, s)
            out.append((ell, s, (ell, mg), [(ell[6:], dict(amp=mg["amp"][i] * mg["scale_factor"], sigma=mg["sigma"][i], e1=mg["e1"], e2=mg["e2"], center_x=mg["center_x"], center_y=mg["center_y"])) for i in range(2)], 1e-8))
        dc = lenslib.params("DOUBLE_CHAMELEON", s)
        cc = {k: dc[k] for k in ("center_x", "center_y")}
        out.append(("DOUBLE_CHAMELEON", s, ("DOUBLE_CHAMELEON", dc),
                    [("CHAMELEON", dict(alpha_1=dc["alpha_1"] / (1 + 1 / dc["ratio"]), w_c=dc["w_c1"], w_t=dc["w_t1"], e1=dc["e11"], e2=dc["e21"], **cc)),
                     ("CHAMELEON", dict(alpha_1=dc["alpha_1"] / (1 + dc["ratio"]), w_c=dc["w_c2"], w_t=dc["w_t2"], e1=dc["e12"], e2=dc["e22"], **cc))], 1e-7))
        tc = lenslib.params("TRIPLE_CHAMELEON", s)
        a1 = tc["alpha_1"] / (1 + 1 / tc["ratio12"] + 1 / tc["ratio13"])
        amps = [a1, a1 / tc["ratio12"], a1 / tc["ratio13"]]
        cc = {k: tc[k] for k in ("center_x", "center_y")}
        out.append(("TRIPLE_CHAMELEON", s, ("TRIPLE_CHAMELEON", tc), [("CHAMELEON", dict(alpha_1=amps[i], w_c=tc["w_c%d" % (i + 1)], w_t=tc["w_t%d" % (i + 1)],
                    e1=tc["e1%d" % (i + 1)], e2=tc["e2%d" % (i + 1)], **cc)) for i in range(3)], 1e-7))
        t = lenslib.params("TNFW", s)
        out.append(("TNFW-NFW", s, ("TNFW", dict(t, r_trunc=1e5)), [("NFW", {k: v for k, v in t.items() if k != "r_trunc"})], 1e-4))
        e = lenslib.params("EPL", s)
        for m in ("EPL_BOXYDISKY", "EPL_BOXYDISKY_ELL"):
            out.append((m + "-EPL", s, (m, dict(e, a4_a=0.0)), [("EPL", e)], 1e-9))
        for m in ("EPL_MULTIPOLE_M3M4", "EPL_MULTIPOLE_M3M4_ELL", "EPL_MULTIPOLE_M1M3M4", "EPL_MULTIPOLE_M1M3M4_ELL"):
            z = {k: 0.0 for k in lenslib.params(m, s) if k.endswith("_a") or k.startswith("delta")}
            out.append((m + "-EPL", s, (m, dict(e, **z)), [("EPL", e)], 1e-9))
    return out


def equiv_case(name, rec):
    x, y = grid("quick", "")
    for nm, s, (m, kw), parts, tol in equiv_list():
        if nm != name:
            continue
        a = evaluate(profile(m), x, y, kw)
        bs = [evaluate(profile(pm), x, y, pk) for pm, pk in parts]
        rec.same("alpha", a[0], sum(b[0] for b in bs), tol, tol, what="%s set %d" % (nm, s))
        th = max(tol, 3e-4 if any(p[0] in NUMDIFF for p in parts) or m in NUMDIFF else tol)
        rec.same("hessian", a[1], sum(b[1] for b in bs), th, th, what="%s set %d" % (nm, s))
        if a[2] is not None and nm not in {"NIE-SIE"}:
            pb = sum(b[2] for b in bs)
            rec.same("potential", a[2] - a[2][0], pb - pb[0], tol, tol, what="%s set %d" % (nm, s))
        rec.trans()
        rec.trace()
        rec.state("%s%d" % (nm, s))
        rec.outcome(a)


def tables(model):
    """(constructor settings, parameters) pairs of a tabulated lens together with the tabulated analytic lens"""
    truth, kt = lens_class("EPL", {}), lenslib.params("EPL", 1)
    n = 241
    gx, gy = np.linspace(-2.9, 3.1, n), np.linspace(-3.05, 2.95, n - 20)
    X, Y = np.meshgrid(gx, gy)
    f = truth.function(X.ravel(), Y.ravel(), **kt).reshape(X.shape)
    fx, fy = [v.reshape(X.shape) for v in truth.derivatives(X.ravel(), Y.ravel(), **kt)]
    fxx, fxy, fyx, fyy = [v.reshape(X.shape) for v in truth.hessian(X.ravel(), Y.ravel(), **kt)]
    full = dict(grid_interp_x=gx, grid_interp_y=gy, f_=f, f_x=fx, f_y=fy, f_xx=fxx, f_yy=fyy, f_xy=fxy)
    nohess = {k: v for k, v in full.items() if k not in ("f_xx", "f_yy", "f_xy")}
    out = []
    if model == "RADIAL_INTERPOL":
        kn = {k: v for k, v in lenslib.params("NFW", 0).items()}
        r = np.logspace(-4, 1.2, 400)
        nf = lens_class("NFW", {})
        H = nf.hessian(r, 0 * r, kn["Rs"], kn["alpha_Rs"])
        out.append(({}, dict(r_bin=r, kappa_r=(H[0] + H[3]) / 2, center_x=kn["center_x"], center_y=kn["center_y"]), nf, kn, 1.0, 5e-3))
    elif model == "TABULATED_DEFLECTIONS":
        k0 = {k: v for k, v in kt.items() if not k.startswith("center")}
        out.append((dict(custom_class=lambda x, y, **kw: truth.derivatives(x, y, **kw)), dict(k0, center_x=0.2, center_y=-0.3), truth, dict(k0, center_x=0.2, center_y=-0.3), 1.0, 1e-4))
    elif model == "SYNTHESIS":
        comp = [dict(a=1, s=v, e1=0, e2=0, center_x=0, center_y=0) for v in np.logspace(-4, 3, 30)]
        kn = dict(Rs=1.5, alpha_Rs=1.0, center_x=0, center_y=0)
        out.append((dict(target_lens_model="NFW", component_lens_model="CSE", kwargs_list=comp, lin_fit_hyperparams={"num_r_evals": 50}), kn, lens_class("NFW", {}), kn, 1.0, 2e-2))
    else:
        for settings in (dict(grid=False), dict(grid=True, min_grid_number=10), dict(grid=False, kwargs_spline={"kx": 3, "ky": 3, "s": 0})):
            for kw in (full, nohess):
                for sc in ((1.0, 2.5) if model == "INTERPOL_SCALED" else (1.0,)):
                    k2 = dict(kw, scale_factor=sc) if model == "INTERPOL_SCALED" else kw
                    out.append((settings, k2, truth, kt, sc, 8e-2 if kw is nohess else 5e-3))
    return out


def table_case(model, tier, rec):
    """every order of the three queries on a fresh object, as a grid, as single points and as unordered arrays"""
    g1, g2 = np.linspace(-1.2, 1.1, 5) + 0.05, np.linspace(-1.0, 1.3, 5) + 0.04
    X, Y = np.meshgrid(g1, g2)
    x, y = X.ravel(), Y.ravel()
    for j, (settings, kw, truth, kt, sc, tol) in enumerate(tables(model)):
        queries = {"alpha": "derivatives", "hessian": "hessian"}
        if model != "TABULATED_DEFLECTIONS":
            queries["potential"] = "function"
        want = {q: sc * np.array(getattr(truth, n)(x, y, **kt)) for q, n in queries.items()}
        for order in itertools.permutations(sorted(queries)):
            prof = lens_class(model, settings)
            for q in order:
                got = np.array(getattr(prof, queries[q])(x.copy(), y.copy(), **kw), dtype=float)
                ref, cmp = want[q], got
                if q == "potential":
                    ref, cmp = ref - ref[0], cmp - cmp[0]
                rec.same("table-" + q, cmp, ref, tol, tol, what="%s variant %d, query order %s" % (model, j, order))
                pts = [0, 7, 22]
                one = np.array([np.array(getattr(prof, queries[q])(float(x[i]), float(y[i]), **kw), dtype=float).reshape(got[..., 0].shape) for i in pts])
                rec.same("table-point-" + q, np.moveaxis(one, 0, -1), got[..., pts], 1e-6, 1e-8, what="%s variant %d single points" % (model, j))
                if not settings.get("grid"):
                    p = np.random.RandomState(3).permutation(len(x))
                    rec.same("table-perm-" + q, np.array(getattr(prof, queries[q])(x[p], y[p], **kw), dtype=float), got[..., p], 1e-6, 1e-8, what="%s variant %d permuted points" % (model, j))
                rec.trans(3)
            rec.trace()
            rec.state("%s%d%s" % (model, j, order))
            rec.outcome(got)


def corner_case(model, tier, rec):
    """values exactly on the axes and at radii equal to each parameter lie between the values right next to them"""
    prof = profile(model)
    if model in NO_HESSIAN or model == "ARC_PERT":  # ARC_PERT is discontinuous at the branch cut of its polar angle
        return
    base = dict(lenslib.params(model, 0))
    for c in ("center_x", "center_y", "ra_0", "dec_0"):
        if c in base:
            base[c] = 0.0
    sets = [base]
    if "e1" in base:
        sets.append(dict(base, e1=0.0, e2=0.0))
    radii = sorted({0.5} | {float(v) for k, v in base.items() if isinstance(v, (int, float)) and 0.05 < v < 8 and not k.startswith("center")})
    pts = [(d[0] * r, d[1] * r) for r in radii for d in ((1, 0), (0, 1), (-1, 0), (0, -1), (0.6, 0.8))]
    # right next to these radii, where closed forms cancel
    if model not in lenslib_numeric:
        pts += [(r * (1 + e), 0.0) for r in radii for e in (-1.2e-16, 2.3e-16, -1e-14, 1e-12, -1e-9, 1e-7)]
    if model in SLOW:
        pts = pts[:10]
    x, y = np.array([q[0] for q in pts]), np.array([q[1] for q in pts])
    d = 1e-4
    for n, kw in enumerate(sets):
        for name in ("function", "derivatives", "hessian"):
            def ev(a, b):
                v = getattr(prof, name)(a, b, **kw)
                return np.array([c * np.ones_like(a) for c in v]) if isinstance(v, tuple) else np.array([v * np.ones_like(a)])

            def point(a, b):
                v = getattr(prof, name)(a, b, **kw)
                return np.ravel(v)
            if name == "hessian" and model in NUMDIFF or name == "function" and model in NO_POTENTIAL_GRADIENT:
                continue
            mid = ev(x, y)
            near = np.array([ev(x + a * d, y + b * d) for a in (-1, 1) for b in (-1, 1)])
            lo, hi = near.min(0), near.max(0)
            one = np.array([point(float(a), float(b)) for a, b in zip(x, y)], dtype=float).T
            rec.same("corner-scalar-" + name, one, mid, 1e-6, 1e-9, what="%s set %d: single points against the array" % (model, n))
            scale = np.abs(near).max() if name != "function" else np.abs(near - near.mean(axis=(0, 2), keepdims=True)).max()
            tol = 2e-3 * np.maximum(np.abs(near).max(0), 1e-3 * scale) + 1e-9
            if model in lenslib_numeric:
                tol = tol * 10
            bad = ~((mid >= lo - tol) & (mid <= hi + tol))
            rec.evals += mid.size
            if bad.any():
                i = np.argwhere(bad)[0]
                rec.viol("corner|%s" % name, "set %d at (%r, %r) component %d: %r outside of the neighbouring values [%r, %r]" % (
                    n, x[i[1]], y[i[1]], i[0], mid[tuple(i)], lo[tuple(i)], hi[tuple(i)]))
            rec.trans(mid.size)
        rec.state("set%d" % n)
    rec.trace()
    rec.outcome(mid)


lenslib_numeric = {"GreenBoschNFW", "CNFW", "CNFW_ELLIPSE_POTENTIAL"}


# ------------------------------------------------------------------ profiles in physical units
# class: parameter sets of the functions in density units, and the lens parameters of the same profile
PHYSICAL = {
    "CNFW": ("cnfw", [dict(Rs=1.3, rho0=0.6, r_core=0.4), dict(Rs=0.7, rho0=1.7, r_core=0.9)]),
    "CoreBurkert": ("coreBurkert", [dict(Rs=1.3, rho0=0.6, r_core=0.4), dict(Rs=0.7, rho0=1.7, r_core=0.9)]),
    "CoredDensity": ("cored_density", [dict(sigma0=0.5, r_core=0.4), dict(sigma0=1.5, r_core=1.4)]),
    "CoredDensity2": ("cored_density_2", [dict(sigma0=0.5, r_core=0.4), dict(sigma0=1.5, r_core=1.4)]),
    "CoredDensityExp": ("cored_density_exp", [dict(kappa_0=0.2, theta_c=0.6), dict(kappa_0=1.2, theta_c=1.6)]),
    "Gaussian": ("gaussian", [dict(amp=1.2, sigma=0.7), dict(amp=0.4, sigma=1.9)]),
    "GaussianEllipsePotential": ("gaussian_ellipse_potential", [dict(amp=1.2, sigma=0.7, e1=0.0, e2=0.0), dict(amp=0.4, sigma=1.9, e1=0.0, e2=0.0)]),
    "GNFW": ("gnfw", [dict(Rs=1.3, rho0=0.6, gamma_in=1.3), dict(Rs=0.7, rho0=1.6, gamma_in=0.8)]),
    "Hernquist": ("hernquist", [dict(rho0=0.6, Rs=1.3), dict(rho0=2.6, Rs=0.6)]),
    "HernquistEllipsePotential": ("hernquist_ellipse_potential", [dict(rho0=0.6, Rs=1.3, e1=0.0, e2=0.0), dict(rho0=2.6, Rs=0.6, e1=0.0, e2=0.0)]),
    "MultiGaussian": ("multi_gaussian", [dict(amp=np.array([0.7, 0.5, 0.2]), sigma=np.array([0.4, 1.1, 0.6]), scale_factor=1.3)]),
    "MultiGaussianEllipsePotential": ("multi_gaussian", [dict(amp=np.array([0.7, 0.5, 0.2]), sigma=np.array([0.4, 1.1, 0.6]), e1=0.0, e2=0.0, scale_factor=1.3)]),
    "NFW": ("nfw", [dict(Rs=1.3, rho0=0.6), dict(Rs=0.6, rho0=2.6)]),
    "TNFWC": ("nfw_core_truncated", [dict(Rs=1.3, rho0=0.6, r_core=0.3, r_trunc=2.5), dict(Rs=0.6, rho0=1.6, r_core=0.8, r_trunc=1.5)]),
    "PseudoDoublePowerlaw": ("pseudo_double_powerlaw", [dict(Rs=1.3, rho0=0.6, gamma_inner=1.2, gamma_outer=3.1), dict(Rs=0.6, rho0=1.6, gamma_inner=0.7, gamma_outer=3.8)]),
    "PseudoJaffe": ("pseudo_jaffe", [dict(rho0=0.6, Ra=0.4, Rs=1.3), dict(rho0=1.6, Ra=1.4, Rs=0.3)]),
    "SIE": ("sie", [dict(rho0=0.6), dict(rho0=1.6)]),
    "SIS": ("sis", [dict(rho0=0.6), dict(rho0=1.6)]),
    "SPLCORE": ("splcore", [dict(rho0=0.6, r_core=0.4, gamma=2.3), dict(rho0=0.6, r_core=0.9, gamma=2.0), dict(rho0=1.6, r_core=0.4, gamma=3.0)]),
    "SPP": ("spp", [dict(rho0=0.6, gamma=2.2), dict(rho0=1.6, gamma=1.8)]),
    "TNFW": ("tnfw", [dict(Rs=1.3, rho0=0.6, r_trunc=2.5), dict(Rs=0.6, rho0=1.6, r_trunc=0.9)]),
    "Uldm": ("uldm", [dict(kappa_0=0.2, theta_c=0.6, slope=4.5), dict(kappa_0=1.2, theta_c=1.6, slope=8)]),
}


def physical_class(name):
    import importlib

    return getattr(importlib.import_module("lenstronomy.LensModel.Profiles." + PHYSICAL[name][0]), name)


def one(v):
    return float(np.ravel(v)[0])


def physical_case(name, rec):
    p = physical_class(name)()
    for s, kw in enumerate(PHYSICAL[name][1]):
        r = np.array([0.07, 0.3, 0.8, 1.3, 1.6, 2.8, 7.0])
        what = "%s set %d" % (name, s)
        has = lambda *fs: all(hasattr(type(p), f) for f in fs)
        if has("density", "mass_3d"):
            got = [one(p.mass_3d(x, **kw)) for x in r]
            exp = [quad(lambda x: 4 * np.pi * x ** 2 * one(p.density(x, **kw)), a, b)[0] for a, b in zip(r, r[1:])]
            rec.same("mass3d", np.diff(got), exp, 1e-5, what=what)
            if name != "TNFWC":
                rec.same("mass3d-array", p.mass_3d(r, **kw), got, 1e-9, what=what)
        if has("density_2d", "mass_2d"):
            got = [one(p.mass_2d(x, **kw)) for x in r]
            exp = [quad(lambda x: 2 * np.pi * x * one(p.density_2d(x, 0.0, **kw)), a, b)[0] for a, b in zip(r, r[1:])]
            rec.same("mass2d", np.diff(got), exp, 1e-5, what=what)
            rec.same("mass2d-array", p.mass_2d(r, **kw), got, 1e-9, what=what)
        if has("density_2d", "density"):
            got = [one(p.density_2d(0.0, x, **kw)) for x in r]
            exp = [quad(lambda q: 2 * one(p.density(np.sqrt(x * x + np.sinh(q) ** 2), **kw)) * np.cosh(q), 0, np.arcsinh(2e4), limit=400)[0] for x in r]
            rec.same("projection", got, exp, 2e-3, 1e-6, what=what)
            rec.same("density2d-array", p.density_2d(0.6 * r, -0.8 * r, **kw), got, 1e-9, what=what)
            rec.same("density-array", p.density(r, **kw), [one(p.density(x, **kw)) for x in r], 1e-9, what=what)
            if name != "SPLCORE":
                rec.same("density2d-centre", p.density_2d(r + 0.3, 0 * r - 0.4, center_x=0.3, center_y=-0.4, **kw), got, 1e-9, what=what)
        if name in ("Hernquist", "PseudoJaffe"):
            pot = (lambda x: one(p.grav_pot(x, **kw))) if name == "PseudoJaffe" else (lambda x: one(p.grav_pot(0.3 + 0.6 * x, 0.8 * x - 0.2, center_x=0.3, center_y=-0.2, **kw)))
            rec.same("grav-pot", [-(pot(x + 1e-4) - pot(x - 1e-4)) / 2e-4 * x ** 2 for x in r[1:]], [one(p.mass_3d(x, **kw)) for x in r[1:]], 1e-4, what=what)
            rec.same("mass-tot", one(p.mass_tot(**kw)), one(p.mass_3d(1e7, **kw)), 1e-4, what=what)
        physical_lens(name, p, kw, r, what, rec)
        rec.trans(len(r))
        rec.trace()
        rec.state(what)
        rec.outcome(one(p.density_2d(1.0, 0.3, **kw)))


def physical_lens(name, p, kw, r, what, rec):
    """the lens parametrisation of the same matter: conversion, deflection, convergence and enclosed mass"""
    k = dict(kw)
    if name in ("NFW", "TNFW", "TNFWC", "GNFW", "PseudoDoublePowerlaw"):
        extra = {n: v for n, v in k.items() if n not in ("rho0", "Rs")}
        if name == "TNFW":
            extra = {}
        a = p.rho02alpha(k["rho0"], k["Rs"], *extra.values())
        rec.same("convert", p.alpha2rho0(a, k["Rs"], *extra.values()), k["rho0"], 1e-8, what=what)
        lens = {n: v for n, v in k.items() if n != "rho0"}
        lens["alpha_Rs"] = a
    elif name in ("Hernquist", "HernquistEllipsePotential", "PseudoJaffe"):
        q = profile("HERNQUIST") if name.startswith("Hern") else p
        extra = [k[n] for n in ("Ra", "Rs") if n in k]
        a = q.rho2sigma(k["rho0"], *extra)
        rec.same("convert", q.sigma2rho(a, *extra), k["rho0"], 1e-8, what=what)
        lens = {n: v for n, v in k.items() if n != "rho0"}
        lens["sigma0"] = a
    elif name in ("SIS", "SPP", "SIE"):
        extra = [k["gamma"]] if "gamma" in k else []
        a = (profile("SIS") if name == "SIE" else p).rho2theta(k["rho0"], *extra)
        rec.same("convert", p.theta2rho(a, *extra), k["rho0"], 1e-8, what=what)
        lens = {n: v for n, v in k.items() if n != "rho0"}
        lens["theta_E"] = a
        if name == "SIE":
            lens.update(e1=0.0, e2=0.0)
    elif name in ("CoredDensity", "CoredDensity2", "CoredDensityExp", "Uldm"):
        lens = k
    else:
        return
    al = np.asarray(p.derivatives(0.6 * r, 0.8 * r, **lens))
    tol = 2e-5 if name == "SIE" else 1e-3 if name == "GNFW" else 1e-6
    rec.same("deflection", al[0] * 0.6 + al[1] * 0.8, [one(p.mass_2d(x, **kw)) / np.pi / x for x in r] if hasattr(p, "mass_2d") else [quad(lambda t: 2 * t * one(p.density_2d(t, 0.0, **kw)), 0, x)[0] / x for x in r], tol, what=what)
    H = p.hessian(0.6 * r, 0.8 * r, **lens)
    rec.same("convergence", (np.asarray(H[0]) + np.asarray(H[3])) / 2, [one(p.density_2d(x, 0.0, **kw)) for x in r], 1e-3 if name == "SIE" else 1e-5, what=what)
    for fl, f in (("density_lens", "density"), ("mass_3d_lens", "mass_3d"), ("mass_2d_lens", "mass_2d")):
        if hasattr(p, f) and supports(p, fl, lens):
            rec.same(fl, [one(getattr(p, fl)(x, **lens)) for x in r], [one(getattr(p, f)(x, **kw)) for x in r], 1e-6, what=what)


def convert_case(name, rec):
    """parameter conversions published next to the profiles, and construction options"""
    x, y = grid("quick", "")
    if name == "arcs":
        from lenstronomy.LensModel.Profiles.curved_arc_sis_mst import CurvedArcSISMST
        from lenstronomy.LensModel.Profiles.curved_arc_spp import CurvedArcSPP

        for t in (4.0, -6.0, 2.5):
            for rs in (1.3, 0.8, 1.0):
                for c in (0.4, 1.1):
                    for d in (0.6, -2.5, 3.0):
                        for C, f, g, m in ((CurvedArcSISMST, "stretch2sis_mst", "sis_mst2stretch", "CURVED_ARC_SIS_MST"), (CurvedArcSPP, "stretch2spp", "spp2stretch", "CURVED_ARC_SPP")):
                            p = getattr(C(), f)(t, rs, c, d, 0.2, -0.3)
                            if C is CurvedArcSPP and p[1] <= 1.05:
                                continue
                            rec.same("arc-inverse", getattr(C(), g)(*p, center_x=0.2, center_y=-0.3), (t, rs, c, d), 1e-8, what="%s %s %s %s %s" % (m, t, rs, c, d))
                            prof = profile(m)
                            H = prof.hessian(np.array([0.2]), np.array([-0.3]), t, rs, c, d, 0.2, -0.3)
                            A = np.eye(2) - np.array([[H[0][0], H[1][0]], [H[2][0], H[3][0]]])
                            er, et = np.array([np.cos(d), np.sin(d)]), np.array([-np.sin(d), np.cos(d)])
                            rec.same("arc-stretch", [er @ A @ er, et @ A @ et, er @ A @ et], [1 / rs, 1 / t, 0.0], 1e-6, 1e-7, what="%s %s %s %s %s" % (m, t, rs, c, d))
                            rec.trans()
    elif name == "const-mag":
        p = profile("CONST_MAG")
        for par in (1, -1):
            for mr, mt in ((1.3, 4.0), (0.7, 11.0), (2.0, -3.0)):
                for phi in (0.0, 0.7, 2.4):
                    kw = dict(mu_r=mr, mu_t=mt, parity=par, phi_G=phi)
                    for c in (dict(), dict(center_x=0.3, center_y=-0.2)):
                        H = [np.asarray(h) + 0 * x for h in p.hessian(x, y, **kw, **c)]
                        h = 1e-4
                        dx = (np.asarray(p.derivatives(x + h, y, **kw, **c)) - np.asarray(p.derivatives(x - h, y, **kw, **c))) / 2 / h
                        dy = (np.asarray(p.derivatives(x, y + h, **kw, **c)) - np.asarray(p.derivatives(x, y - h, **kw, **c))) / 2 / h
                        rec.same("const-hessian", H, [dx[0], dy[0], dx[1], dy[1]], 1e-6, 1e-8, what="%s %s" % (kw, c))
                        fx = (p.function(x + h, y, **kw, **c) - p.function(x - h, y, **kw, **c)) / 2 / h
                        fy = (p.function(x, y + h, **kw, **c) - p.function(x, y - h, **kw, **c)) / 2 / h
                        rec.same("const-gradient", p.derivatives(x, y, **kw, **c), [fx, fy], 1e-6, 1e-8, what="%s %s" % (kw, c))
                        det = (1 - H[0]) * (1 - H[3]) - H[1] * H[2]
                        rec.same("const-magnification", 1 / det, par * mr * mt + 0 * x, 1e-8, what="%s %s" % (kw, c))
                        rec.trans()
    elif name == "dipole":
        from lenstronomy.LensModel.Profiles.dipole import DipoleUtil

        for c1 in ((0.0, 0.0), (0.4, -0.7)):
            for c2 in ((1.1, 0.3), (-0.6, -0.9)):
                for t in (1.2, 0.3):
                    F = DipoleUtil.mass_ratio(t, 0.6)
                    rec.same("mass-ratio", F, profile("SIS").mass_2d_lens(t, t) / profile("SIS").mass_2d_lens(0.6, 0.6), 1e-10)
                    com = np.array(DipoleUtil.com(*c1, *c2, F))
                    rec.same("centre-of-mass", F * (com - c1) + (com - c2), [0, 0], 0, 1e-10)
                    a = DipoleUtil.angle(*c1, *c2)
                    rec.same("angle", np.hypot(c2[0] - c1[0], c2[1] - c1[1]) * np.array([np.cos(a), np.sin(a)]), np.array(c2) - c1, 1e-10)
                    rec.trans()
    elif name == "sie-options":
        from lenstronomy.LensModel.Profiles.sie import SIE

        for s in range(3):
            kw = lenslib.params("SIE", s)
            epl = evaluate(profile("EPL"), x, y, dict(kw, gamma=2.0))
            for nie, tol in ((False, 1e-9), (True, 1e-4)):
                got = evaluate(SIE(NIE=nie), x, y, kw)
                for i, w in enumerate(("alpha", "hessian", "potential")):
                    d = (got[i] - got[i].ravel()[0]) - (epl[i] - epl[i].ravel()[0]) if i == 2 else got[i] - epl[i]
                    rec.same("sie-%s-%s" % (nie, w), d, 0 * d, 0, tol * 10, what="set %d" % s)
            rec.trans()
    elif name == "gaussian-ellipticities":
        from lenstronomy.LensModel.Profiles.gaussian_ellipse_kappa import GaussianEllipseKappa

        amp, sig = np.array([0.7, 0.5, 0.3]), np.array([0.4, 1.1, 0.7])
        p, q = profile("MULTI_GAUSSIAN_ELLIPSE_KAPPA"), GaussianEllipseKappa()
        for e1, e2 in ((0.1, -0.2), ([0.1, -0.05, 0.2], [-0.2, 0.1, 0.05]), (np.array([0.1, -0.05, 0.2]), np.array([-0.2, 0.1, 0.05]))):
            ev = [np.ones(3) * e1, np.ones(3) * e2]
            for sc in (1, 1.7):
                for f, n in (("function", 1), ("derivatives", 2), ("hessian", 4), ("density_2d", 1)):
                    kc = {} if f == "density_2d" else {}
                    got = np.asarray(getattr(p, f)(x, y, amp, sig, e1, e2, center_x=0.2, center_y=-0.1, scale_factor=sc, **kc))
                    exp = sum(np.asarray(getattr(q, f)(x, y, amp[i] * sc, sig[i], ev[0][i], ev[1][i], center_x=0.2, center_y=-0.1)) for i in range(3))
                    rec.same("ellipticities-" + f, got, exp, 1e-9, 1e-12, what="%s %s" % (np.ndim(e1), sc))
                    rec.trans()
        for i in range(3):
            H = q.hessian(x, y, amp[i], sig[i], 0.1, -0.2, 0.2, -0.1)
            rec.same("density-kappa", q.density_2d(x, y, amp[i], sig[i], 0.1, -0.2, 0.2, -0.1), (H[0] + H[3]) / 2, 1e-9, what="gaussian %d" % i)
    elif name == "chameleon-point":
        from lenstronomy.LensModel.Profiles.chameleon import DoubleChameleonPointMass

        for s in range(2):
            kw = lenslib.params("DOUBLE_CHAMELEON", s)
            alpha_1 = kw.pop("alpha_1")
            ratio = kw.pop("ratio")
            for rp in (0.5, 3.0):
                cc = {k: kw[k] for k in ("center_x", "center_y")}
                P = DoubleChameleonPointMass()
                got = evaluate(P, x, y, dict(kw, alpha_1=alpha_1, ratio_pointmass=rp, ratio_chameleon=ratio))
                a = evaluate(profile("POINT_MASS"), x, y, dict(theta_E=alpha_1 / (1.0 + 1.0 / rp), **cc))
                b = evaluate(profile("DOUBLE_CHAMELEON"), x, y, dict(kw, alpha_1=alpha_1 / (1.0 + rp), ratio=ratio))
                for i, w in enumerate(("alpha", "hessian", "potential")):
                    rec.same("point-" + w, got[i], a[i] + b[i], 1e-8, 1e-10, what="%d %s" % (s, rp))
                rec.trans()
    rec.trace()
    rec.state(name)
    rec.outcome(name)


CONVERT = ("arcs", "const-mag", "dipole", "sie-options", "gaussian-ellipticities", "chameleon-point")


def radial_models():
    out = []
    for m in lenslib.plain():
        p = profile(m)
        base = ("density_lens", "mass_3d_lens", "mass_2d_lens")
        if any(getattr(type(p), n, None) is not None and getattr(type(p), n) is not getattr(lens_base(), n, None) for n in base):
            out.append(m)
    return out


def lens_base():
    from lenstronomy.LensModel.Profiles.base_profile import LensProfileBase

    return LensProfileBase


def cases(tier):
    out = ["diff|%s" % m for m in lenslib.plain()]
    out += ["covariance|%s" % m for m in lenslib.plain()]
    out += ["radial|%s" % m for m in radial_models()]
    out += ["sphere|%s" % m for m in SPH]
    out += ["corner|%s" % m for m in lenslib.plain()]
    out += ["equiv|%s" % n for n in sorted({e[0] for e in equiv_list()})]
    out += ["table|%s" % n for n in ("INTERPOL", "INTERPOL_SCALED", "RADIAL_INTERPOL", "TABULATED_DEFLECTIONS", "SYNTHESIS")]
    out += ["physical|%s" % n for n in PHYSICAL]
    out += ["convert|%s" % n for n in CONVERT]
    return sorted(out, key=lambda c: c.split("|")[1] not in SLOW)


def run_case(case, tier, rec):
    kind, m = case.split("|")
    if kind == "diff":
        diff_case(m, tier, rec)
    elif kind == "covariance":
        covariance_case(m, tier, rec)
    elif kind == "radial":
        radial_case(m, tier, rec)
    elif kind == "physical":
        physical_case(m, rec)
    elif kind == "convert":
        convert_case(m, rec)
    elif kind == "table":
        table_case(m, tier, rec)
    elif kind == "corner":
        corner_case(m, tier, rec)
    elif kind == "sphere":
        sphere_case(m, rec)
    else:
        equiv_case(m, rec)
