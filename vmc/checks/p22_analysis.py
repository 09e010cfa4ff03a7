"""P22: derived lens and light quantities agree with the maps of the model, at any centre and for every selection of components.

Every model of an alphabet x centre x selection of components is evaluated with the analysis routines and compared with direct
quadrature of the convergence, the Jacobian and the surface brightness (the oracle never calls the routine it judges).
"""
import copy
import itertools
import warnings

import numpy as np
from astropy.cosmology import FlatLambdaCDM

from lenstronomy.Analysis.lens_profile import LensProfileAnalysis
from lenstronomy.Analysis.light_profile import LightProfileAnalysis
from lenstronomy.Analysis.light2mass import light2mass_interpol
from lenstronomy.Analysis.td_cosmography import TDCosmography
from lenstronomy.Cosmo.lens_cosmo import LensCosmo
from lenstronomy.LensModel import convergence_integrals as ci
from lenstronomy.LensModel.lens_model import LensModel
from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions
from lenstronomy.LensModel.profile_integrals import ProfileIntegrals
from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
from lenstronomy.LightModel.light_model import LightModel
from lenstronomy.Util import analysis_util, constants as const, util
from vmc.core import snap

warnings.simplefilter("ignore")

CENTRES = {"c0": (0.0, 0.0), "c1": (0.3, -0.2), "c2": (-0.45, 0.35), "c3": (0.0, 0.25)}
LENSES = {
    "sis": (["SIS"], [dict(theta_E=1.1)]),
    "sie": (["SIE"], [dict(theta_E=1.0, e1=0.15, e2=-0.1)]),
    "epl18": (["EPL"], [dict(theta_E=1.2, gamma=1.8, e1=-0.1, e2=0.2)]),
    "epl22": (["EPL", "SHEAR"], [dict(theta_E=0.9, gamma=2.2, e1=0.1, e2=0.05), dict(gamma1=0.04, gamma2=-0.03)]),
    "nie": (["NIE"], [dict(theta_E=1.3, e1=0.1, e2=0.1, s_scale=0.15)]),
    "two": (["SIE", "SIS", "SHEAR"], [dict(theta_E=0.9, e1=0.1, e2=0.0), dict(theta_E=0.3), dict(gamma1=-0.03, gamma2=0.02)]),
    "nfw": (["NFW", "HERNQUIST_ELLIPSE_CSE"], [dict(Rs=4.0, alpha_Rs=1.5), dict(Rs=0.7, sigma0=1.5, e1=0.05, e2=0.1)]),
    "dpie": (["PJAFFE", "SIS"], [dict(Ra=0.05, Rs=3.0, sigma0=4.0), dict(theta_E=0.3)]),
}


def lens(name, cen):
    ml, kw = LENSES[name]
    kw = copy.deepcopy(kw)
    cx, cy = CENTRES[cen]
    for i, (m, k) in enumerate(zip(ml, kw)):
        if m == "SHEAR":
            k.update(ra_0=cx, dec_0=cy)
        elif name == "two" and i == 1:
            k.update(center_x=cx + 0.4, center_y=cy + 0.1)
        else:
            k.update(center_x=cx, center_y=cy)
    return LensModel(ml), kw, cx, cy


def selections(n):
    """no selection, every single component, every list of flags (at least one component)"""
    out = [None] + list(range(n))
    out += [[bool(b) for b in bits] for bits in itertools.product((1, 0), repeat=n) if any(bits)]
    return out


def members(sel, n):
    if sel is None:
        return list(range(n))
    if isinstance(sel, (int, np.integer)):
        return [sel]
    return [i for i in range(n) if sel[i]]


def kappa_of(lm, kw, idx):
    def f(x, y):
        return sum(lm.kappa(x, y, kw, k=i) for i in idx)
    return f


def ring(f, r, cx, cy, n=720):
    """azimuthal average"""
    p = (np.arange(n) + 0.5) / n * 2 * np.pi
    r = np.atleast_1d(np.asarray(r, dtype=float))
    X, Y = cx + np.outer(r, np.cos(p)), cy + np.outer(r, np.sin(p))
    return f(X.flatten(), Y.flatten()).reshape(X.shape).mean(axis=1)


def mean_kappa(lm, kw, idx, r, cx, cy, n=720):
    """mean convergence inside a circle by the divergence theorem"""
    p = (np.arange(n) + 0.5) / n * 2 * np.pi
    x, y = cx + r * np.cos(p), cy + r * np.sin(p)
    tot = 0
    for i in idx:
        ax, ay = lm.alpha(x, y, kw, k=i)
        tot = tot + np.mean(ax * np.cos(p) + ay * np.sin(p))
    return tot / r


def einstein(lm, kw, idx, cx, cy):
    lo, hi = 1e-3, 9.0
    if mean_kappa(lm, kw, idx, lo, cx, cy) < 1 or mean_kappa(lm, kw, idx, hi, cx, cy) > 1:
        return None
    for _ in range(60):
        m = np.sqrt(lo * hi)
        if mean_kappa(lm, kw, idx, m, cx, cy) > 1:
            lo = m
        else:
            hi = m
    return lo


# ---- profiles of the deflector
def einstein_case(name, cen, tier, rec):
    lm, kw, cx, cy = lens(name, cen)
    la = LensProfileAnalysis(lm)
    n = len(kw)
    k0 = snap(kw)
    r = np.array([0.1, 0.4, 1.0, 2.5])
    for sel in selections(n):
        idx = members(sel, n)
        only_shear = all(lm.lens_model_list[i] == "SHEAR" for i in idx)
        f = kappa_of(lm, kw, idx)
        what = "%s %s selection %s" % (name, cen, sel)
        # the default number of points on the circle carries the quadrupole only approximately
        exp = ring(f, r, cx, cy)
        for given in (False, True):
            c = dict(center_x=cx, center_y=cy) if given else {}
            if name != "two":
                rec.same("radial", np.asarray(la.radial_lens_profile(r, kw, model_bool_list=sel, **c)), exp, 0.01, 1e-9, what=what)
            rec.same("radial-fine", np.asarray(la.radial_lens_profile(r, kw, model_bool_list=sel, num_azimuthal_points=720, **c)), exp, 2e-3, 1e-9, what=what)
        # around another point
        rec.same("radial-elsewhere", np.asarray(la.radial_lens_profile(r, kw, model_bool_list=sel, num_azimuthal_points=500, center_x=cx + 1.3, center_y=cy - 1.7)), ring(f, r, cx + 1.3, cy - 1.7), 0.01, 1e-9, what=what)
        if not only_shear:
            e = einstein(lm, kw, idx, cx, cy)
            for spacing, num in ((0.05, 120), (0.04, 151 if name == "nie" else 150)):
                # (an odd grid samples the centre itself, where the other models are singular)
                got, prec = la.effective_einstein_radius_grid(kw, model_bool_list=sel, grid_num=num, grid_spacing=spacing, get_precision=True)
                if e is not None and 0.3 < e < spacing * num / 2 - 0.2:
                    rec.same("einstein-grid", got, e, 0, 2.0 * spacing, what="%s grid %g" % (what, spacing))
                    rec.true("einstein-precision", 0 < prec <= spacing, "%s precision %s" % (what, prec))
                    rec.same("einstein-grid-given", la.effective_einstein_radius_grid(kw, center_x=cx, center_y=cy, model_bool_list=sel, grid_num=num, grid_spacing=spacing), got, 1e-9, what=what)
                rec.trans()
        rec.trans(5)
        rec.state(what)
    e = einstein(lm, kw, list(range(n)), cx, cy)
    if name not in ("two",):
        rec.same("einstein", la.effective_einstein_radius(kw), e, 0.02, what="%s %s" % (name, cen))
        rec.same("einstein-points", la.effective_einstein_radius(kw, r_min=1e-4, r_max=5.0, num_points=60), e, 0.03, what="%s %s" % (name, cen))
    if name in ("sis",):
        rec.same("einstein-spherical", la.effective_einstein_radius(kw, spherical_model=True), e, 0.01, what=name)
    rr = np.geomspace(1e-3, 8, 60)
    rec.same("einstein-profile", la.effective_einstein_radius_from_radial_profile(rr, ring(kappa_of(lm, kw, range(n)), rr, cx, cy)), e, 0.01, what="%s %s" % (name, cen))
    # mass inside a circle, component by component
    for R in (0.5, 1.2):
        got = la.mass_fraction_within_radius(kw, cx, cy, R, num_pix=200)
        rec.same("mass-fraction", np.asarray(got), [mean_kappa(lm, kw, [i], R, cx, cy) for i in range(n)], 0.04, 1e-6, what="%s %s R=%g" % (name, cen, R))
        got = la.mass_fraction_within_radius(kw, cx + 0.6, cy + 0.9, R, num_pix=200)
        rec.same("mass-fraction-elsewhere", np.asarray(got), [mean_kappa(lm, kw, [i], R, cx + 0.6, cy + 0.9) for i in range(n)], 0.04, 1e-6, what="%s %s R=%g" % (name, cen, R))
        got = la.mass_fraction_within_radius(kw, cx + 0.6, cy + 0.9, R, num_pix=60)
        rec.same("mass-fraction-coarse", np.asarray(got), [mean_kappa(lm, kw, [i], R, cx + 0.6, cy + 0.9) for i in range(n)], 0.08, 1e-3, what="%s %s R=%g" % (name, cen, R))
        rec.trans(3)
    # a peak found at the centre
    px, py = la.convergence_peak(kw, model_bool_list=0, grid_num=101, grid_spacing=0.02, center_x_init=cx, center_y_init=cy)
    rec.true("peak", bool(np.all(np.abs(np.atleast_1d(px) - cx) < 0.021) and np.all(np.abs(np.atleast_1d(py) - cy) < 0.021)), "%s %s peak at %s %s" % (name, cen, px, py))
    # expansion into Gaussians
    if name not in ("two", "dpie"):
        amp, sig, gx, gy = la.multi_gaussian_lens(kw, n_comp=30)
        q = np.array([0.2, 0.6, 1.0, 2.0])
        rec.same("mge", sum(a / (2 * np.pi * s**2) * np.exp(-(q**2) / 2 / s**2) for a, s in zip(amp, sig)), ring(kappa_of(lm, kw, range(n)), q, cx, cy), 0.06, what="%s %s" % (name, cen))
        rec.same("mge-centre", [gx, gy], [cx, cy], 1e-12, 1e-12, what=name)
    rec.unchanged("args", k0, kw, name)
    rec.trace()


def slope_case(name, cen, tier, rec):
    lm, kw, cx, cy = lens(name, cen)
    la = LensProfileAnalysis(lm)
    n = len(kw)
    k0 = snap(kw)
    for sel in selections(n):
        idx = members(sel, n)
        if all(lm.lens_model_list[i] == "SHEAR" for i in idx) or name == "two":
            continue
        what = "%s %s selection %s" % (name, cen, sel)
        for R, num in itertools.product((0.7, 1.3), (10, 31)):
            p = np.arange(num) * 2 * np.pi / num

            def al(r):
                a = [lm.alpha(cx + r * np.cos(p), cy + r * np.sin(p), kw, k=i) for i in idx]
                return np.hypot(sum(q[0] for q in a), sum(q[1] for q in a))

            def ka(r):
                return sum(lm.kappa(cx + r * np.cos(p), cy + r * np.sin(p), kw, k=i) for i in idx)
            h = 1e-4
            sl = np.mean(np.log(al(R + h) / al(R - h)) / np.log((R + h) / (R - h)))
            rec.same("slope", la.profile_slope(kw, R, model_list_bool=sel, num_points=num), 2 - sl, 0, 0.02, what="%s R=%g points %d" % (what, R, num))
            rec.same("slope-given", la.profile_slope(kw, R, center_x=cx, center_y=cy, model_list_bool=sel, num_points=num), 2 - sl, 0, 0.02, what="%s R=%g points %d" % (what, R, num))
            if np.all(ka(R) > 0) and np.all(ka(R + 0.01) > 0):
                s2 = np.mean(np.log(ka(R + h) / ka(R - h)) / np.log((R + h) / (R - h)))
                rec.same("slope-kappa", la.profile_slope(kw, R, model_list_bool=sel, num_points=num, alpha_differentials=False), 1 - s2, 0, 0.03, what="%s R=%g points %d" % (what, R, num))
            rec.trans(3)
        rec.state(what)
    if name.startswith("epl"):
        for d in (True, False):
            rec.same("slope-power-law", la.profile_slope(kw, 1.1, model_list_bool=[True] + [False] * (n - 1), alpha_differentials=d), kw[0]["gamma"], 0, 0.01, what=name)
    # local lensing quantities, for every selection
    X, Y = np.array([0.7, -0.4, 1.5]), np.array([0.2, 0.9, -1.1])
    for sel in selections(n):
        idx = members(sel, n)
        a = np.sum([lm.alpha(X, Y, kw, k=i) for i in idx], axis=0)
        h = np.sum([lm.hessian(X, Y, kw, k=i) for i in idx], axis=0)
        got = la.local_lensing_effect(kw, X, Y, model_list_bool=sel)
        rec.same("local", np.asarray(got), [a[0], a[1], (h[0] + h[3]) / 2, (h[0] - h[3]) / 2, h[1]], 1e-9, 1e-12, what="%s selection %s" % (name, sel))
        rec.trans()
    # logarithmic derivative of the radial stretch on a circle
    for R in (0.8, 1.2):
        num = 10
        p = np.arange(num) * 2 * np.pi / num
        x, y = cx + R * np.cos(p), cy + R * np.sin(p)

        def rad(xx, yy):
            out = []
            for u, v in zip(xx, yy):
                h = lm.hessian(u, v, kw)
                A = np.array([[1 - h[0], -h[1]], [-h[2], 1 - h[3]]])
                w, V = np.linalg.eigh((A + A.T) / 2)
                d = np.array([u - cx, v - cy])
                pr = np.abs(V.T @ d)
                i = int(np.argmax(pr))
                s = np.sign(V[:, i] @ d)
                out.append((1 / w[i], V[0, i] * s, V[1, i] * s))
            return np.array(out).T
        l0, vx, vy = rad(x, y)
        ok = np.all(np.abs(l0) < 20)
        h = 1e-4
        l1 = rad(x + h * vx, y + h * vy)[0]
        l2 = rad(x - h * vx, y - h * vy)[0]
        if ok and name not in ("two",):
            exp = np.mean((l1 - l2) / (2 * h) / l0)
            rec.same("mst-invariant", la.mst_invariant_differential(kw, R, num_points=num), exp, 0.03, 0.01, what="%s %s R=%g" % (name, cen, R))
            rec.same("mst-invariant-given", la.mst_invariant_differential(kw, R, center_x=cx, center_y=cy, num_points=num), exp, 0.03, 0.01, what="%s %s R=%g" % (name, cen, R))
            rec.trans(2)
    rec.unchanged("args", k0, kw, name)
    rec.trace()


def mdelta_case(tier, rec):
    for zl, zs, H0 in itertools.product((0.2, 0.6), (1.5,), (70.0, 60.0)):
        cosmo = FlatLambdaCDM(H0=H0, Om0=0.3)
        lc = LensCosmo(zl, zs, cosmo)
        rho = cosmo.critical_density(zl).to("Msun/Mpc3").value
        for name in ("nfw0", "sis", "nfw"):
            if name == "nfw0":
                Rs, aRs = lc.nfw_physical2angle(M=1e13, c=5.0)
                lm, kw = LensModel(["NFW"]), [dict(Rs=Rs, alpha_Rs=aRs, center_x=0.0, center_y=0.0)]
            elif name == "sis":
                lm, kw, _, _ = lens(name, "c0")
            else:
                lm, kw = LensModel(["NFW", "HERNQUIST"]), [dict(Rs=6.0, alpha_Rs=1.5, center_x=0.1, center_y=0.0), dict(Rs=0.5, sigma0=2.0, center_x=0.1, center_y=0.0)]
            k0 = snap(kw)
            for delta in (200, 500, 2500):
                M, r = LensProfileAnalysis(lm).m_delta_crit(kw, zl, zs, cosmo, delta_crit=delta)
                what = "%s z=%g H0=%g delta %d" % (name, zl, H0, delta)
                if not np.isfinite(M):
                    continue
                rm = float(r) * const.arcsec * lc.dd
                rec.same("overdensity", M / (4 / 3 * np.pi * rm**3), delta * rho, 0.01, what=what)
                rec.same("mass-inside", M, lm.lens_model.mass_3d(float(r), kw) * const.arcsec**2 * lc.dd**2 * lc.sigma_crit, 0.02, what=what)
                if name == "nfw0" and delta == 200:
                    rec.same("nfw", M, 1e13, 0.02, what=what)
                rec.trans()
                rec.state(what)
            rec.unchanged("args", k0, kw, name)
    rec.trace()


# ---- surface brightness
LIGHTS = {
    "gauss": (["GAUSSIAN_ELLIPSE"], [dict(amp=3.0, sigma=0.5, e1=0.1, e2=-0.15)]),
    "sersic": (["SERSIC_ELLIPSE"], [dict(amp=2.0, R_sersic=0.6, n_sersic=1.0, e1=-0.12, e2=0.08)]),
    "round": (["SERSIC"], [dict(amp=2.0, R_sersic=0.5, n_sersic=2.0)]),
    "two": (["GAUSSIAN_ELLIPSE", "GAUSSIAN"], [dict(amp=3.0, sigma=0.4, e1=0.1, e2=0.1), dict(amp=1.0, sigma=0.9)]),
    "hern": (["HERNQUIST", "SERSIC"], [dict(amp=1.0, Rs=0.3), dict(amp=1.0, R_sersic=0.8, n_sersic=1.5)]),
}


def light_case(name, cen, tier, rec):
    ll, kw = LIGHTS[name]
    kw = copy.deepcopy(kw)
    cx, cy = CENTRES[cen]
    for k in kw:
        k.update(center_x=cx, center_y=cy)
    lm = LightModel(ll)
    la = LightProfileAnalysis(lm)
    k0 = snap(kw)
    n = len(ll)
    d, num = 0.05, 160
    g = (np.arange(num) - (num - 1) / 2) * d
    X, Y = (q.flatten() for q in np.meshgrid(g, g))
    for sel in [None] + [s for s in selections(n) if isinstance(s, list)]:
        idx = members(sel, n)
        what = "%s %s selection %s" % (name, cen, sel)

        def sb(x, y):
            return sum(lm.surface_brightness(x, y, kw, k=i) for i in idx)
        r = np.array([0.05, 0.3, 1.0, 2.0])
        for c in ({}, dict(center_x=cx, center_y=cy)):
            rec.same("radial", np.asarray(la.radial_light_profile(r, kw, model_bool_list=sel, **c)), ring(sb, r, cx, cy), 0.06, 1e-6, what=what)
        rec.same("radial-elsewhere", np.asarray(la.radial_light_profile([0.3], kw, model_bool_list=sel, center_x=cx + 1.0, center_y=cy)), ring(sb, [0.3], cx + 1.0, cy), 0.06, what=what)
        I = sb(X + cx, Y + cy)
        R = np.hypot(X, Y)
        o = np.argsort(R)
        rh = R[o][np.searchsorted(np.cumsum(I[o]), I.sum() / 2)]
        for c in ({}, dict(center_x=cx, center_y=cy)):
            rec.same("half-light", la.half_light_radius(kw, d, num, model_bool_list=sel, **c), rh, 0.01, 0.03, what=what)
        if name in ("gauss", "two", "sersic"):
            got = la.ellipticity(kw, d, num, model_bool_list=sel)
            # moments inside the documented circle
            m = np.hypot(X, Y) <= (X.max() - X.min()) / 3
            Q = [np.sum(I * m * q) for q in (X * X, X * Y, Y * Y)]
            nrm = Q[0] + Q[2] + 2 * np.sqrt(Q[0] * Q[2] - Q[1] ** 2)
            rec.same("ellipticity", got, [(Q[0] - Q[2]) / nrm, 2 * Q[1] / nrm], 0.02, 2e-3, what=what)
            if len(idx) == 1 and "e1" in kw[idx[0]]:
                rec.same("ellipticity-true", got, [kw[idx[0]]["e1"], kw[idx[0]]["e2"]], 0.06, 4e-3, what=what)
                rec.same("ellipticity-iterative", la.ellipticity(kw, d, num, model_bool_list=sel, iterative=True, num_iterative=20), [kw[idx[0]]["e1"], kw[idx[0]]["e2"]], 0.06, 5e-3, what=what)
        amp, sig, gx, gy = la.multi_gaussian_decomposition(kw, model_bool_list=sel, n_comp=25)
        q = np.array([0.1, 0.4, 0.9])
        rec.same("mge", sum(a / (2 * np.pi * s**2) * np.exp(-(q**2) / 2 / s**2) for a, s in zip(amp, sig)), ring(sb, q, cx, cy), 0.08, 0.04 * ring(sb, [0.1], cx, cy)[0], what=what)
        if name in ("gauss", "sersic"):
            km = la.multi_gaussian_decomposition_ellipse(kw, model_bool_list=sel, n_comp=25)
            xx, yy = cx + np.array([0.3, -0.2, 0.1]), cy + np.array([0.1, 0.3, -0.5])
            rec.same("mge-ellipse", LightModel(["MULTI_GAUSSIAN_ELLIPSE"]).surface_brightness(xx, yy, [km]), sb(xx, yy), 0.12, what=what)
        rec.trans(6)
        rec.state(what)
    fl, rh = la.flux_components(kw, grid_num=400, grid_spacing=0.03)
    for i in range(n):
        gg = (np.arange(400) - 199.5) * 0.03
        XX, YY = (q.flatten() for q in np.meshgrid(gg, gg))
        I = lm.surface_brightness(XX + cx, YY + cy, kw, k=i)
        rec.same("component-flux", fl[i], I.sum() * 0.03**2, 1e-6, what="%s %d" % (name, i))
        R = np.hypot(XX, YY)
        o = np.argsort(R)
        rec.same("component-radius", rh[i], R[o][np.searchsorted(np.cumsum(I[o]), I.sum() / 2)], 0.02, 0.05, what="%s %d" % (name, i))
    rec.unchanged("args", k0, kw, name)
    rec.trace()


def maps_case(tier, rec):
    """routines on pixel maps: values, and the given map is left as it was"""
    for ny, nx, (cx, cy), neg in itertools.product((60, 61), (60, 75), ((0.0, 0.0), (0.25, -0.3)), (False, True)):
        x = (np.arange(nx) - (nx - 1) / 2) * 0.1
        y = (np.arange(ny) - (ny - 1) / 2) * 0.1
        X, Y = np.meshgrid(x, y)
        I = np.exp(-((X - cx) ** 2 + (Y - cy) ** 2) / 2 / 0.6**2)
        if neg:
            I = I - 0.01 * (np.hypot(X - cx, Y - cy) > 2.5)
        X1, Y1, I1 = X.flatten(), Y.flatten(), I.flatten()
        i0 = I1.copy()
        what = "%dx%d centre %s negative %s" % (nx, ny, (cx, cy), neg)
        R = np.hypot(X1 - cx, Y1 - cy)
        o = np.argsort(R)
        J = np.maximum(i0, 0)
        rec.same("map-half-light", analysis_util.half_light_radius(I1, X1, Y1, cx, cy), R[o][np.searchsorted(np.cumsum(J[o]), J.sum() / 2)], 0.01, 0.05, what=what)
        rec.unchanged("map-input", i0, I1, what)
        I1 = i0.copy()
        Ir, rr = analysis_util.radial_profile(I1, X1, Y1, cx, cy, n=20)
        edges = np.concatenate([[-1.0], rr])
        rec.same("map-radial", Ir, [i0[(R > a + 1e-12) & (R <= b + 1e-12)].sum() for a, b in zip(edges[:-1], edges[1:])], 1e-6, 1e-6, what=what)
        rec.same("map-radial-total", Ir.sum(), i0.sum(), 1e-9, what=what)
        rec.unchanged("map-input", i0, I1, what)
        for cen in (None, ((nx - 1) / 2 + cx / 0.1, (ny - 1) / 2 + cy / 0.1)):
            im = I.copy()
            prof, rb = analysis_util.azimuthal_average(im, center=cen)
            c = ((nx - 1) / 2, (ny - 1) / 2) if cen is None else cen
            jy, jx = np.indices(I.shape)
            rr = np.hypot(jx - c[0], jy - c[1]).astype(int)
            exp = [I[rr == k].mean() for k in range(1, len(prof) + 1)]
            rec.same("map-azimuthal", prof, exp, 1e-9, 1e-12, what="%s given %s" % (what, cen))
            rec.unchanged("map-input", I, im, what)
        if not neg:
            q = analysis_util.moments(i0, X1, Y1)
            m = np.hypot(X1 - np.sum(i0 * X1) / i0.sum(), Y1 - np.sum(i0 * Y1) / i0.sum()) <= (X1.max() - X1.min()) / 3
            xc, yc = np.sum(i0 * X1) / i0.sum(), np.sum(i0 * Y1) / i0.sum()
            rec.same("map-moments", q[:3], [np.sum(i0 * m * (X1 - xc) ** 2), np.sum(i0 * m * (X1 - xc) * (Y1 - yc)), np.sum(i0 * m * (Y1 - yc) ** 2)], 1e-9, 1e-9, what=what)
        rec.trans(5)
        rec.state(what)
    rec.same("bic", analysis_util.bic_model(-12.5, 400, 7), 25 + 7 * np.log(400), 1e-12)
    rec.trace()


# ---- local lensing geometry
def jac(lm, kw, x, y):
    h = lm.hessian(x, y, kw)
    return np.array([[1 - h[0], -h[1]], [-h[2], 1 - h[3]]])


POINTS = [(r * np.cos(p), r * np.sin(p)) for r in (0.35, 0.8, 1.6) for p in np.arange(9) * 0.71 + 0.05] + [(1.7, 0.0), (0.0, 1.6), (-1.5, 0.0), (0.0, -1.8)]
POINTS_T = [(r * np.cos(p), r * np.sin(p)) for r in (0.35, 0.5, 0.65, 0.8, 1.05, 1.3, 1.6, 2.0, 2.6) for p in np.arange(17) * 0.37 + 0.05] + POINTS[-4:]


def points(tier):
    return POINTS if tier == "quick" else POINTS_T



def stretch_case(name, cen, tier, rec):
    lm, kw, cx, cy = lens(name, cen)
    ext = LensModelExtensions(lm)
    k0 = snap(kw)
    X = np.array([p[0] + cx for p in points(tier)])
    Y = np.array([p[1] + cy for p in points(tier)])
    arr = ext.hessian_eigenvectors(X, Y, kw)
    arrs = {f: ext.radial_tangential_stretch(X, Y, kw, ra_0=cx, dec_0=cy, coordinate_frame_definitions=f) for f in (True, False)}
    dif = ext.radial_tangential_differentials(X, Y, kw, center_x=cx, center_y=cy)
    for i, (x, y) in enumerate(zip(X, Y)):
        what = "%s %s at (%.3f, %.3f)" % (name, cen, x, y)
        A = jac(lm, kw, x, y)
        w, V = np.linalg.eigh((A + A.T) / 2)
        sc = ext.hessian_eigenvectors(float(x), float(y), kw)
        for got, q in ((sc, "scalar"), ([a[i] for a in arr], "array")):
            w1, w2, v11, v12, v21, v22 = got
            rec.same("eigenvalues", sorted([w1, w2]), list(w), 1e-7, 1e-9, what="%s %s" % (what, q))
            if abs(w[1] - w[0]) > 1e-3:
                for wi, v in ((w1, np.array([v11, v12])), (w2, np.array([v21, v22]))):
                    rec.same("eigenvectors", A @ v, wi * v, 1e-5, 1e-6, what="%s %s" % (what, q))
        d = np.array([x - cx, y - cy])
        for f in (True, False):
            sc = ext.radial_tangential_stretch(float(x), float(y), kw, ra_0=cx, dec_0=cy, coordinate_frame_definitions=f)
            for got, q in ((sc, "scalar"), ([a[i] for a in arrs[f]], "array")):
                lr, lt, r1, r2, t1, t2 = got
                ww = "%s %s coordinate frame %s" % (what, q, f)
                if abs(w[1] - w[0]) > 1e-3:
                    rec.same("stretch-product", lr * lt * np.linalg.det(A), 1.0, 1e-6, what=ww)
                    rec.same("stretch-radial", A @ [r1, r2], np.array([r1, r2]) / lr, 1e-5, 1e-6, what=ww)
                    rec.same("stretch-tangential", A @ [t1, t2], np.array([t1, t2]) / lt, 1e-5, 1e-6, what=ww)
                    rec.same("stretch-frame", [r1 * r1 + r2 * r2, t1 * t1 + t2 * t2, r1 * t2 - r2 * t1], [1, 1, 1], 1e-6, what=ww)
                    rec.true("stretch-outwards", r1 * d[0] + r2 * d[1] >= -1e-9, ww)
                    if f:
                        rec.true("stretch-definition", abs(r1 * d[0] + r2 * d[1]) >= abs(t1 * d[0] + t2 * d[1]) - 1e-9, ww)
                    else:
                        rec.true("stretch-definition", 1 / lr >= 1 / lt - 1e-9, ww)
        # derivatives along the local directions, with steps of our own
        if abs(w[1] - w[0]) > 0.02 and abs(np.linalg.det(A)) > 0.02:
            V0, l0 = frame(A, d)

            def at(direction, h):
                xx, yy = x + h * direction[0], y + h * direction[1]
                return frame(jac(lm, kw, xx, yy), np.array([xx - cx, yy - cy]))
            h = 1e-3
            (Vt, lt), (Vr, lr_) = at(V0[1], h), at(V0[0], h)
            names = ("lambda_rad", "lambda_tan", "angle", "dtan_dtan", "dtan_drad", "drad_drad", "drad_dtan")
            ang = np.arccos(np.clip(V0[1] @ d / np.hypot(*d), -1, 1)) - np.pi / 2
            exp = (l0[0], l0[1], ang, (lt[1] - l0[1]) / h, (lr_[1] - l0[1]) / h, (lr_[0] - l0[0]) / h, (lt[0] - l0[0]) / h)
            for j, nm in enumerate(names):
                sca = max(abs(l0[0]), abs(l0[1]), 1.0)
                rec.same("differentials-" + nm, dif[j][i], exp[j], 0.02, 2e-3 * sca**2, what=what)
            for j, (u0, u1) in zip((7, 8, 9, 10), ((V0[1], Vt[1]), (V0[1], Vr[1]), (V0[0], Vr[0]), (V0[0], Vt[0]))):
                a = np.arccos(np.clip(abs(u0 @ u1), -1, 1)) / h
                if np.isfinite(dif[j][i]):
                    rec.same("differentials-phi%d" % j, dif[j][i], a, 0.03, 0.05, what=what)
        rec.trans(4)
        rec.state(what)
    # integer coordinates are coordinates
    xi, yi = np.array([1, -1, 2]), np.array([1, 2, -1])
    for fn in (ext.hessian_eigenvectors, ext.radial_tangential_stretch):
        rec.same("integer", np.asarray(fn(xi, yi, kw), dtype=float), np.asarray(fn(xi.astype(float), yi.astype(float), kw), dtype=float), 1e-9, 1e-12, what=fn.__name__)
    rec.unchanged("args", k0, kw, name)
    rec.trace()


def frame(A, d):
    """radial and tangential eigen-directions of the Jacobian (radial: best aligned with d, outwards; right-handed)"""
    w, V = np.linalg.eigh((A + A.T) / 2)
    pr = np.abs(V.T @ d)
    i = int(np.argmax(pr))
    r = V[:, i] * (np.sign(V[:, i] @ d) or 1.0)
    t = V[:, 1 - i]
    if r[0] * t[1] - r[1] * t[0] < 0:
        t = -t
    return (r, t), (1 / w[i], 1 / w[1 - i])


def arc_case(name, tier, rec):
    """the local curved-arc description has the Jacobian of the lens it describes"""
    lm, kw, cx, cy = lens(name, "c0")
    ext = LensModelExtensions(lm)
    k0 = snap(kw)
    for x, y in points(tier):
        what = "%s at (%.3f, %.3f)" % (name, x, y)
        A = jac(lm, kw, x, y)
        w = np.linalg.eigvalsh((A + A.T) / 2)
        if abs(w[1] - w[0]) < 0.05 or abs(np.linalg.det(A)) < 0.02:
            continue
        arc = ext.curved_arc_estimate(float(x), float(y), kw)
        for prof, drop in (("CURVED_ARC_SIS_MST", ()), ("CURVED_ARC_SPT", None), ("CURVED_ARC_CONST_MST", ())):
            if drop is None:
                continue
            got = LensModel([prof]).hessian(x, y, [arc])
            B = np.array([[1 - got[0], -got[1]], [-got[2], 1 - got[3]]])
            rec.same("arc-jacobian-" + prof, B, A, 2e-3, 2e-3 * max(1, np.abs(A).max()), what=what)
        got = LensModel(["CURVED_ARC_SIS_MST"]).alpha(x, y, [arc])
        rec.same("arc-deflection", np.asarray(got), [0, 0], 0, 1e-6, what=what)
        rec.trans()
        rec.state(what)
    if name == "sis":
        for x, y in points(tier):
            arc = ext.curved_arc_estimate(float(x), float(y), kw)
            rec.same("arc-sis", [arc["curvature"], np.cos(arc["direction"]), np.sin(arc["direction"]), arc["radial_stretch"]], [1 / np.hypot(x, y), x / np.hypot(x, y), y / np.hypot(x, y), 1.0], 1e-3, 1e-3, what="(%g, %g)" % (x, y))
    if name in ("sis", "sie", "epl18"):
        for x, y in points(tier):
            r = np.hypot(x, y)
            if r < 0.7 or abs(r - 1.15) < 0.25:
                continue
            arc = ext.curved_arc_finite_area(float(x), float(y), kw, dr=0.05)
            est = ext.curved_arc_estimate(float(x), float(y), kw)
            what = "%s finite area at (%.3f, %.3f)" % (name, x, y)
            rec.same("finite-centre", [arc["center_x"], arc["center_y"]], [x, y], 1e-9, 1e-9, what=what)
            if name == "sis":
                rec.same("finite-sis", [arc["curvature"], np.cos(arc["direction"]), np.sin(arc["direction"])], [1 / r, x / r, y / r], 0.02, 0.02, what=what)
            if abs(est["tangential_stretch"]) < 15 and abs(est["radial_stretch"]) < 15:
                rec.same("finite-stretch", [abs(arc["radial_stretch"]), abs(arc["tangential_stretch"])], [abs(est["radial_stretch"]), abs(est["tangential_stretch"])], 0.25, what=what)
            dd = arc["direction"] - est["direction"]
            rec.same("finite-direction", np.cos(dd), 1.0, 0.06, what=what)
            rec.trans()
    # average over a radial segment
    for x, y in POINTS[9:18]:
        A = jac(lm, kw, x, y)
        _, lt, r1, r2, _, _ = ext.radial_tangential_stretch(float(x), float(y), kw)
        s = np.linspace(-0.05, 0.05, 9)
        v = []
        for q in s:
            w = np.linalg.eigvalsh(jac(lm, kw, x + q * r1, y + q * r2))
            v.append(1 / w.min())
        rec.same("tangential-average", ext.tangential_average(float(x), float(y), kw, dr=0.1), np.mean(v), 1e-5, what="%s (%g, %g)" % (name, x, y))
    rec.unchanged("args", k0, kw, name)
    rec.trace()


def critical_case(name, cen, tier, rec):
    lm, kw, cx, cy = lens(name, cen)
    ext = LensModelExtensions(lm)
    k0 = snap(kw)
    det = lambda x, y: (lambda h: (1 - h[0]) * (1 - h[3]) - h[1] * h[2])(lm.hessian(x, y, kw))
    for window, scale, shift in ((5.0, 0.05, (0.0, 0.0)), (4.5, 0.07, (0.1, -0.15))):
        ra, de, cra, cde = ext.critical_curve_caustics(kw, compute_window=window, grid_scale=scale, center_x=cx + shift[0], center_y=cy + shift[1])
        what = "%s %s window %g scale %g" % (name, cen, window, scale)
        rec.true("critical-found", len(ra) >= 1, what)
        long = [(a, b, c, d) for a, b, c, d in zip(ra, de, cra, cde) if len(a) > 40]
        rec.true("critical-closed", any(np.hypot(a[0] - a[-1], b[0] - b[-1]) < 1.5 * scale for a, b, _, _ in long), what)
        for a, b, c, d in long:
            m = np.hypot(a - cx, b - cy) > 6 * scale
            if name == "two":
                m &= np.hypot(a - cx - 0.4, b - cy - 0.1) > 6 * scale
            if name == "dpie":
                m &= np.hypot(a - cx, b - cy) > 10 * scale
            # the sign of the determinant changes across the curve within a pixel
            t = np.gradient(a), np.gradient(b)
            nn = np.hypot(*t)
            ok = m & (nn > 1e-12)
            px, py = -t[1][ok] / nn[ok] * scale, t[0][ok] / nn[ok] * scale
            s = np.sign(det(a[ok] + px, b[ok] + py)) * np.sign(det(a[ok] - px, b[ok] - py))
            if ok.sum() > 10:
                rec.true("critical-sign", np.mean(s < 0) > 0.97, "%s fraction %g" % (what, np.mean(s < 0)))
            xs, ys = lm.ray_shooting(a, b, kw)
            rec.same("caustic", np.asarray([c, d]), np.asarray([xs, ys]), 1e-9, 1e-9, what=what)
        if name in ("sis",):
            allr = np.concatenate([np.hypot(a - cx, b - cy) for a, b, _, _ in long])
            rec.same("critical-ring", allr, np.full_like(allr, kw[0]["theta_E"]), 0, 0.3 * scale, what=what)
        # area enclosed by the caustic of the tangential curve
        big = int(np.argmax([np.ptp(a) * np.ptp(b) for a, b in zip(ra, de)]))
        a, b = cra[big], cde[big]
        rec.same("caustic-area", ext.caustic_area(kw, dict(compute_window=window, grid_scale=scale, center_x=cx + shift[0], center_y=cy + shift[1]), index_vertices=big), abs(np.sum(a * np.roll(b, -1) - b * np.roll(a, -1)) / 2), 0.01, 1e-3, what=what)
        rec.trans(2)
        rec.state(what)
    tx, ty = ext.critical_curve_tiling(kw, compute_window=4.0, start_scale=0.4, max_order=8, center_x=cx + 0.013, center_y=cy - 0.017)
    m = np.hypot(tx - cx, ty - cy) > 0.3
    if name == "two":
        m &= np.hypot(tx - cx - 0.4, ty - cy - 0.1) > 0.3
    # within the size of the last triangle the determinant changes sign
    e = 0.4 / 2**3
    near = [np.ptp(np.sign(det(x + e * np.cos(np.arange(24) * np.pi / 12), y + e * np.sin(np.arange(24) * np.pi / 12)))) > 0 for x, y in zip(tx[m], ty[m])]
    rec.true("tiling", len(near) > 10 and bool(np.all(near)), "%s %s %d points, %d away from the curve" % (name, cen, len(near), len(near) - sum(near)))
    # all directions are covered
    ph = np.sort(np.arctan2(ty[m] - cy, tx[m] - cx))
    if name != "dpie":
        rec.true("tiling-complete", np.max(np.diff(np.concatenate([ph, [ph[0] + 2 * np.pi]]))) < 0.5, "%s %s" % (name, cen))
    rec.unchanged("args", k0, kw, name)
    rec.trace()


def finite_case(name, tier, rec):
    """flux of a small source seen through the lens"""
    lm, kw, cx, cy = lens(name, "c1")
    ext = LensModelExtensions(lm)
    sol = LensEquationSolver(lm)
    k0 = snap(kw)
    for sx, sy in ((0.08, 0.05), (-0.15, 0.1)):
        bx, by = cx + sx, cy + sy
        x, y = sol.image_position_from_source(bx, by, kw, min_distance=0.05, search_window=6, x_center=cx, y_center=cy)
        mu = np.abs(lm.magnification(x, y, kw))
        keep = (mu > 0.3) & (mu < 15)
        x, y, mu = x[keep], y[keep], mu[keep]
        s = 0.003
        exp = []
        for a, b in zip(x, y):
            g = (np.arange(800) - 399.5) * 0.2 / 800
            X, Y = (q.flatten() for q in np.meshgrid(g, g))
            u, v = lm.ray_shooting(X + a, Y + b, kw)
            c = lm.ray_shooting(a, b, kw)
            exp.append(np.sum(np.exp(-((u - c[0]) ** 2 + (v - c[1]) ** 2) / 2 / s**2)) / (2 * np.pi * s**2) * (0.2 / 800) ** 2)
        what = "%s source (%g, %g)" % (name, sx, sy)
        for num in (200, 301):
            rec.same("finite", ext.magnification_finite(x, y, kw, source_sigma=s, window_size=0.2, grid_number=num), exp, 0.01, what=what)
            for ar in (1.0, 0.7):
                rec.same("finite-polar", ext.magnification_finite(x - 0.0, y, kw, source_sigma=s, window_size=0.25, grid_number=num, polar_grid=True, aspect_ratio=ar), exp, 0.02 if ar == 1.0 else 0.1, what="%s aspect %g" % (what, ar))
        sm, ks = LightModel(["GAUSSIAN"]), [dict(amp=1.0, sigma=s, center_x=bx, center_y=by)]
        for ar, tol, fix, big in itertools.product((1, 0.5, 0), (1e-4,), (True, False), (True, False)):
            got = ext.magnification_finite_adaptive(x, y, kw, sm, ks, grid_resolution=0.0005, grid_radius_arcsec=0.1, axis_ratio=ar, tol=tol, fixed_aperture_size=fix, use_largest_eigenvalue=big)
            if ar == 1 or (big and not fix):
                rec.same("finite-adaptive", got, exp, 0.05 if ar == 1 else 0.15, what="%s axis ratio %g fixed %s" % (what, ar, fix))
            rec.trans()
        for i in range(len(x)):
            im = ext.zoom_source(x[i], y[i], kw, source_sigma=s, window_size=0.2, grid_number=200)
            rec.same("zoom", im.sum() * (0.2 / 200) ** 2, exp[i], 0.01, what=what)
        rec.trans(4)
        rec.state(what)
    # positions that are not images of the same source: each is magnified about its own source position
    xs, ys = cx + np.array([1.6, -0.3, 0.5, -1.9]), cy + np.array([0.2, 1.7, -2.1, 0.4])
    for pol in (False, True):
        one = [ext.magnification_finite(xs[i : i + 1], ys[i : i + 1], kw, source_sigma=0.01, window_size=0.2, grid_number=100, polar_grid=pol)[0] for i in range(4)]
        rec.same("finite-several", ext.magnification_finite(xs, ys, kw, source_sigma=0.01, window_size=0.2, grid_number=100, polar_grid=pol), one, 1e-9, what=name)
        if not pol:
            rec.same("finite-point", one, np.abs(lm.magnification(xs, ys, kw)), 0.05, what=name)
    xi, yi = [1, -1], [1, 2]
    rec.same("finite-integer", ext.magnification_finite(xi, yi, kw, source_sigma=0.01, window_size=0.2, grid_number=100), ext.magnification_finite([1.0, -1.0], [1.0, 2.0], kw, source_sigma=0.01, window_size=0.2, grid_number=100), 1e-9, what=name)
    rec.unchanged("args", k0, kw, name)
    rec.trace()


# ---- convergence maps
def integrals_case(tier, rec):
    prof = [("GAUSSIAN", dict(amp=1.3, sigma_x=0.4, sigma_y=0.4)), ("GAUSSIAN_ELLIPSE_KAPPA", dict(amp=1.3, sigma=0.4, e1=0.1, e2=-0.2))]
    for num, (cx, cy), d in itertools.product((100, 101), ((0.0, 0.0), (0.5, -0.3)), (0.05,)):
        g = (np.arange(num) - (num - 1) / 2) * d
        X, Y = np.meshgrid(g, g)
        s = 0.35
        for q in (1.0, 0.6):
            # elliptical Gaussian sheet by summing point deflections on a grid twice as fine
            kap = np.exp(-((X - cx) ** 2 / q + (Y - cy) ** 2 * q) / 2 / s**2)
            m0 = kap.copy()
            what = "%d pixels centre %s q=%g" % (num, (cx, cy), q)
            fx, fy = ci.deflection_from_kappa_grid(kap, d)
            f = ci.potential_from_kappa_grid(kap, d)
            rec.unchanged("kappa", m0, kap, what)
            gg = (np.arange(3 * num) - (3 * num - 1) / 2) * d / 1.5
            U, V = np.meshgrid(gg, gg)
            K = np.exp(-((U - cx) ** 2 / q + (V - cy) ** 2 * q) / 2 / s**2)
            keep = K > 1e-9
            u, v, k = U[keep], V[keep], K[keep] * (d / 1.5) ** 2 / np.pi
            idx = [(i, j) for i in range(8, num, 17) for j in range(5, num, 19)]
            for i, j in idx:
                dx, dy = X[i, j] - u, Y[i, j] - v
                r2 = np.maximum(dx**2 + dy**2, (d / 3) ** 2)
                rec.same("deflection", [fx[i, j], fy[i, j]], [np.sum(k * dx / r2), np.sum(k * dy / r2)], 0.02, 4e-3, what="%s at (%d, %d)" % (what, i, j))
            pot = np.array([np.sum(k * np.log(np.maximum((X[i, j] - u) ** 2 + (Y[i, j] - v) ** 2, (d / 3) ** 2)) / 2) for i, j in idx])
            got = np.array([f[i, j] for i, j in idx])
            rec.same("potential", got - got[0], pot - pot[0], 0.01, 4e-3, what=what)
            if num % 2 == 0:
                for low, size in ((5, 9), (2, 9), (4, 5)):
                    if num % low:
                        continue
                    ax, ay = ci.deflection_from_kappa_grid_adaptive(kap, d, low, size)
                    ap = ci.potential_from_kappa_grid_adaptive(kap, d, low, size)
                    sh = (num // low, low, num // low, low)
                    rec.same("adaptive-deflection", np.asarray([ax, ay]), np.asarray([fx.reshape(sh).mean(axis=(1, 3)), fy.reshape(sh).mean(axis=(1, 3))]), 0.05, 0.02, what="%s factor %d kernel %d" % (what, low, size))
                    e = f.reshape(sh).mean(axis=(1, 3))
                    rec.same("adaptive-potential", ap - ap[0, 0], e - e[0, 0], 0.05, 0.02, what="%s factor %d kernel %d" % (what, low, size))
                    # mirror image of the sheet: mirrored deflections
                    bx, by = ci.deflection_from_kappa_grid_adaptive(kap.T.copy(), d, low, size)
                    rec.same("adaptive-mirror", np.asarray([bx, by]), np.asarray([ay.T, ax.T]), 1e-6, 1e-8, what="%s factor %d kernel %d" % (what, low, size))
            rec.unchanged("kappa", m0, kap, what)
            rec.trans(len(idx) * 2)
            rec.state(what)
    rec.trace()


def profile_integrals_case(tier, rec):
    from lenstronomy.LensModel.Profiles.nfw import NFW
    from lenstronomy.LensModel.Profiles.hernquist import Hernquist
    from lenstronomy.LensModel.Profiles.pseudo_jaffe import PseudoJaffe as PJaffe
    from lenstronomy.LensModel.Profiles.gaussian import Gaussian as GK
    for cls, kd, kl in ((NFW, dict(Rs=1.2, rho0=0.8), dict(Rs=1.2, alpha_Rs=1.1)), (Hernquist, dict(Rs=0.7, rho0=1.2), dict(Rs=0.7, sigma0=1.4)), (PJaffe, dict(Ra=0.3, Rs=1.1, rho0=0.9), dict(Ra=0.3, Rs=1.1, sigma0=1.7))):
        p = cls()
        pi = ProfileIntegrals(p)
        for lp, kw in ((False, kd), (True, kl)):
            kw = dict(kw, center_x=0.4, center_y=-0.1)
            k0 = snap(kw)
            pure = {a: b for a, b in kw.items() if not a.startswith("center")}
            dens = p.density_lens if lp else p.density
            for r in (0.2, 0.8, 2.5):
                what = "%s lens parameters %s r=%g" % (cls.__name__, lp, r)
                t = np.geomspace(1e-7, r, 20001)
                m3 = np.trapezoid(dens(t, **pure) * 4 * np.pi * t**3, np.log(t))
                rec.same("mass-3d", pi.mass_enclosed_3d(r, kw, lens_param=lp), m3, 2e-3, what=what)
                z = np.geomspace(1e-6, 1e4, 20001)
                s2 = 2 * np.trapezoid(dens(np.sqrt(z**2 + r**2), **pure) * z, np.log(z))
                rec.same("density-2d", pi.density_2d(r, kw, lens_param=lp, r_max=1e3), s2, 0.01, what=what)
                if lp:
                    k = [p.hessian(r, 0.0, **pure)]
                    m2 = np.pi * r * p.derivatives(r, 0.0, **pure)[0]
                    rec.same("density-2d-kappa", pi.density_2d(r, kw, lens_param=True, r_max=1e3), (k[0][0] + k[0][3]) / 2, 0.01, what=what)
                    rec.same("mass-2d", pi.mass_enclosed_2d(r, kw, lens_param=True), m2, 0.03, what=what)
                rec.trans(3)
                rec.state(what)
            rec.unchanged("args", k0, kw, cls.__name__)
    rec.trace()


def light2mass_case(tier, rec):
    """the interpolated deflector has convergence proportional to the light, normalised inside one arcsecond"""
    for (cx, cy), sub in itertools.product(((0.0, 0.0), (0.2, -0.1)), (1, 2) if tier == "quick" else (1, 2, 3)):
        ll, kw = ["GAUSSIAN_ELLIPSE", "GAUSSIAN"], [dict(amp=2.0, sigma=0.5, e1=0.1, e2=0.05, center_x=cx, center_y=cy), dict(amp=1.0, sigma=0.3, center_x=cx, center_y=cy)]
        k0 = snap(kw)
        ki = light2mass_interpol(ll, kw, num_pix=40, delta_pix=0.1, subgrid_res=sub, center_x=cx, center_y=cy)
        rec.unchanged("args", k0, kw, "light2mass")
        g = np.linspace(-1.2, 1.2, 7) + 0.03
        X, Y = (q.flatten() for q in np.meshgrid(g, g))
        lm = LightModel(ll)
        sb = lm.surface_brightness(X, Y, kw)
        gg = np.arange(-1.2, 1.2, 0.02) + 0.01
        U, V = (q.flatten() for q in np.meshgrid(gg, gg))
        m = np.hypot(U, V) <= 1
        norm = lm.surface_brightness(U[m] + cx, V[m] + cy, kw).mean()
        for f in (["INTERPOL"],):
            kap = LensModel(f).kappa(X, Y, [ki])
            rec.same("light2mass", kap, sb / norm, 0.06, 0.06, what="centre %s subgrid %d" % ((cx, cy), sub))
            ax, ay = LensModel(f).alpha(X, Y, [ki])
            # deflection outside follows the enclosed mass
            r = 1.5
            p = np.arange(60) * np.pi / 30
            ax, ay = LensModel(f).alpha(cx + r * np.cos(p), cy + r * np.sin(p), [ki])
            mass = np.mean(ax * np.cos(p) + ay * np.sin(p)) * r
            U2, V2 = (q.flatten() for q in np.meshgrid(np.arange(-1.5, 1.5, 0.02) + 0.01, np.arange(-1.5, 1.5, 0.02) + 0.01))
            mm = np.hypot(U2, V2) <= r
            rec.same("light2mass-mass", mass, lm.surface_brightness(U2[mm] + cx, V2[mm] + cy, kw).sum() / norm * 0.02**2 / np.pi, 0.03, what="centre %s subgrid %d" % ((cx, cy), sub))
        rec.trans(2)
        rec.state("%s %d" % ((cx, cy), sub))
    rec.trace()


def cosmography_case(tier, rec):
    """distances put in come out again, whatever the lens, redshifts and external convergence"""
    for (zl, zs), H0, (ml, kl) in itertools.product(((0.3, 1.2), (0.7, 2.5)), (60.0, 75.0), ((["SIE"], [dict(theta_E=1.2, e1=0.1, e2=-0.1, center_x=0.0, center_y=0.0)]), (["EPL", "SHEAR"], [dict(theta_E=1.0, gamma=1.9, e1=0.1, e2=0.1, center_x=0.05, center_y=0.0), dict(gamma1=0.05, gamma2=0.02)]))):
        cosmo = FlatLambdaCDM(H0=H0, Om0=0.3)
        lc = LensCosmo(zl, zs, cosmo)
        lm = LensModel(ml, z_lens=zl, z_source=zs, cosmo=cosmo)
        bx, by = 0.07, 0.03
        x, y = LensEquationSolver(LensModel(ml)).image_position_from_source(bx, by, kl, min_distance=0.05, search_window=5)
        model = dict(lens_model_list=ml, lens_light_model_list=["HERNQUIST"], point_source_model_list=["LENSED_POSITION"])
        kps = [dict(ra_image=x, dec_image=y, point_amp=np.ones(len(x)))]
        kll = [dict(amp=1.0, Rs=0.5, center_x=kl[0]["center_x"], center_y=kl[0]["center_y"])]
        g = np.array([-0.5, 0.0, 0.5])
        X, Y = np.meshgrid(g, g)
        td = TDCosmography(zl, zs, model, cosmo_fiducial=cosmo, lens_model_kinematics_bool=[True] + [False] * (len(ml) - 1), kwargs_seeing=dict(psf_type="GAUSSIAN", fwhm=0.6), kwargs_aperture=dict(aperture_type="IFU_grid", x_grid=X + 0.01, y_grid=Y),
                           anisotropy_model="OM", kinematics_backend="galkin", kwargs_numerics_galkin=dict(interpol_grid_num=120, log_integration=True, max_integrate=100, min_integrate=0.001))
        what = "z %g %g H0 %g %s" % (zl, zs, H0, ml)
        a0 = snap((kl, kps, kll))
        arr = lm.arrival_time(x, y, kl)
        fer = td.fermat_potential(kl, kps)
        ref = lm.fermat_potential(x, y, kl)
        rec.same("fermat", fer - fer[0], ref - ref[0], 1e-5, 1e-6, what=what)
        for kext in (0.0, 0.08, -0.05):
            dt = td.time_delays(kl, kps, kappa_ext=kext)
            rec.same("time-delay", dt - dt[0], (arr - arr[0]) * (1 - kext), 1e-4, 1e-4, what="%s kappa_ext %g" % (what, kext))
            rec.trans()
        ka = dict(r_ani=1.0)
        J = td.velocity_dispersion_map_dimension_less(kl, kll, ka, r_eff=0.9, theta_E=1.1, supersampling_factor=2)
        sv = td.velocity_dispersion_map(kl, kll, ka, r_eff=0.9, theta_E=1.1, supersampling_factor=2)
        rec.same("dimensionless", np.asarray(J), (np.asarray(sv) * 1e3 / const.c) ** 2 * lc.dds / lc.ds, 1e-8, what=what)
        d_f, d_t = fer[1] - fer[0], (arr[1] - arr[0])
        for ks, kds, kd in itertools.product((0.0, 0.05), (0.0, -0.03), (0.0, 0.02)):
            f1, f2 = (1 - kds) / (1 - ks) / (1 - kd), (1 - kds) / (1 - ks)
            w2 = "%s kappas %g %g %g" % (what, ks, kds, kd)
            rec.same("ddt", td.ddt_from_time_delay(d_f, d_t, kappa_s=ks, kappa_ds=kds, kappa_d=kd), lc.ddt * f1, 1e-3, what=w2)
            rec.same("ds-dds", td.ds_dds_from_kinematics(np.asarray(sv), np.asarray(J), kappa_s=ks, kappa_ds=kds), lc.ds / lc.dds * f2 + 0 * np.asarray(sv), 1e-6, what=w2)
            ddt, dd = td.ddt_dd_from_time_delay_and_kinematics(d_f, d_t, np.asarray(sv), np.asarray(J), kappa_s=ks, kappa_ds=kds, kappa_d=kd)
            rec.same("dd", np.asarray(dd), lc.dd / (1 - kd) + 0 * np.asarray(sv), 1e-3, what=w2)
            rec.same("ddt-joint", ddt, lc.ddt * f1, 1e-3, what=w2)
            rec.trans(3)
        rec.unchanged("args", a0, (kl, kps, kll), what)
        rec.state(what)
        rec.trace()


def cases(tier):
    centres = ("c0", "c1") if tier == "quick" else sorted(CENTRES)
    out = ["maps", "mdelta", "integrals", "profileintegrals", "light2mass", "cosmography"]
    for n in LENSES:
        for c in centres:
            out += ["%s|%s|%s" % (q, n, c) for q in ("einstein", "slope", "stretch", "critical")]
        out += ["arc|" + n]
    out += ["finite|" + n for n in ("sis", "sie", "epl18", "epl22")]
    out += ["light|%s|%s" % (n, c) for n in LIGHTS for c in centres]
    return out


def run_case(cid, tier, rec):
    p = cid.split("|")
    if p[0] in ("einstein", "slope", "stretch", "critical", "light"):
        dict(einstein=einstein_case, slope=slope_case, stretch=stretch_case, critical=critical_case, light=light_case)[p[0]](p[1], p[2], tier, rec)
    elif p[0] in ("arc", "finite"):
        dict(arc=arc_case, finite=finite_case)[p[0]](p[1], tier, rec)
    else:
        dict(maps=maps_case, mdelta=mdelta_case, integrals=integrals_case, profileintegrals=profile_integrals_case, light2mass=light2mass_case, cosmography=cosmography_case)[p[0]](tier, rec)
