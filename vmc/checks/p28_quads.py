"""P28: fitting four images with deflectors along the line of sight is full ray tracing of the returned model.

Enumeration of plane layouts, parameter classes, histories of parameter vectors and fits on the real optimizer; compared with
the multi-plane lens model built by hand and with newly built objects.
"""
import itertools

import numpy as np
from astropy.cosmology import FlatLambdaCDM

from lenstronomy.LensModel.lens_model import LensModel
from lenstronomy.LensModel.QuadOptimizer.multi_plane_fast import MultiplaneFast
from lenstronomy.LensModel.QuadOptimizer.optimizer import Optimizer
from lenstronomy.LensModel.QuadOptimizer.param_manager import PowerLawFixedShear, PowerLawFixedShearMultipole, PowerLawFreeShear, PowerLawFreeShearMultipole
from vmc.core import snap

XI = np.array([1.12, -0.92, 0.45, -0.38])
YI = np.array([0.35, -0.28, -0.85, 0.93])
ZL, ZS = 0.5, 1.5
COSMO = FlatLambdaCDM(H0=60, Om0=0.6)
HALO = {"front": ("SIS", 0.25, dict(theta_E=0.03, center_x=0.5, center_y=0.2)), "plane": ("SIS", ZL, dict(theta_E=0.02, center_x=-0.6, center_y=0.3)), "back": ("SIS", 0.9, dict(theta_E=0.04, center_x=0.1, center_y=-0.5))}
LAYOUT = [(), ("front",), ("plane",), ("back",), ("front", "back"), ("back", "plane", "front"), ("front", "plane"), ("plane", "back")]
CLASSES = {"free": (PowerLawFreeShear, False, False), "fixed": (PowerLawFixedShear, True, False), "free-m": (PowerLawFreeShearMultipole, False, True), "fixed-m": (PowerLawFixedShearMultipole, True, True)}
STRENGTH = 0.08
ARGS = [(1.0, 0.02, -0.01, 0.1, -0.05, 0.03, 0.04), (1.08, -0.03, 0.04, -0.08, 0.12, -0.05, 0.02), (0.95, 0.0, 0.0, 0.05, 0.06, 0.01, -0.06)]


def scene(cls, layout):
    mult = CLASSES[cls][2]
    names, zs = ["EPL", "SHEAR"], [ZL, ZL]
    kw = [dict(theta_E=1.0, gamma=2.1, e1=0.1, e2=-0.05, center_x=0.01, center_y=-0.02), dict(gamma1=0.04, gamma2=-0.03)]
    if mult:
        names.append("MULTIPOLE")
        zs.append(ZL)
        kw.append(dict(m=4, a_m=-0.02, phi_m=0.9, center_x=0.3, center_y=0.4, r_E=1.0))
    for h in layout:
        n, z, k = HALO[h]
        names.append(n)
        zs.append(z)
        kw.append(dict(k))
    return names, zs, kw


def manager(cls, kw):
    c, fixed, _ = CLASSES[cls]
    return c(kw, STRENGTH) if fixed else c(kw)


def expected(cls, kw, a):
    out = [dict(k) for k in kw]
    out[0] = dict(theta_E=a[0], center_x=a[1], center_y=a[2], e1=a[3], e2=a[4], gamma=kw[0]["gamma"])
    g = np.array([a[5], a[6]])
    if CLASSES[cls][1]:
        g = g / np.hypot(*g) * STRENGTH
    out[1] = dict(gamma1=g[0], gamma2=g[1])
    if CLASSES[cls][2]:
        out[2].update(center_x=a[1], center_y=a[2], phi_m=np.arctan2(a[4], a[3]) / 2)
    return out


def same_kw(rec, key, got, want, what=""):
    ok = len(got) == len(want) and all(sorted(g) == sorted(w) and all(np.isclose(g[n], w[n], rtol=1e-10, atol=1e-12) for n in w) for g, w in zip(got, want))
    rec.true(key, ok, "%s: %s instead of %s" % (what, got, want) if not ok else "")


def params_case(cls, rec):
    for layout in LAYOUT:
        _, _, kw = scene(cls, layout)
        m = manager(cls, kw)
        rec.true("index", m.to_vary_index == (3 if CLASSES[cls][2] else 2), m.to_vary_index)
        s0 = snap(kw)
        results = []
        for seq in itertools.product(range(len(ARGS)), repeat=2):
            for i in seq:
                r = m.args_to_kwargs(np.array(ARGS[i]))
                same_kw(rec, "encode", r, expected(cls, kw, ARGS[i]), str((layout, seq)))
                results.append((r, ARGS[i]))
                back = m.kwargs_to_args(r)
                e = expected(cls, kw, ARGS[i])
                rec.same("decode", back, list(ARGS[i][:5]) + [e[1]["gamma1"], e[1]["gamma2"]], 1e-10, 1e-12, what=str(layout))
                rec.same("penalty", m.param_chi_square_penalty(ARGS[i]), 0.0, 0, 0)
                rec.trans(2)
        for r, a in results:
            same_kw(rec, "earlier-result", r, expected(cls, kw, a), str(layout))
        start_kept(rec, cls, s0, kw)
        # bounds around the start
        for re, sc in itertools.product((False, True), (1.0, 0.5, 3.0)):
            m2 = manager(cls, scene(cls, layout)[2])
            lo, hi = m2.bounds(re, sc)
            a = np.array(m2.kwargs_to_args(kw))
            w = np.array([0.005, 0.025, 0.025, 0.05, 0.05, 0.01, 0.01] if re else [0.1, 0.05, 0.05, 0.1, 0.1, 0.025, 0.025]) * sc
            rec.same("bounds", [lo, hi], [a - w, a + w], 1e-10, 1e-12, what="%s %s" % (re, sc))
        rec.state((cls, layout))


def rays_case(cls, rec):
    for layout, cosmo in itertools.product(LAYOUT, (None, COSMO)):
        names, zs, kw = scene(cls, layout)
        full = LensModel(names, lens_redshift_list=zs, z_source=ZS, multi_plane=True, cosmo=cosmo)
        for given in (False, True):
            for seq in itertools.product(range(len(ARGS)), repeat=2):
                m = manager(cls, [dict(k) for k in kw])
                rays = None
                if given:
                    idx = m.to_vary_index
                    fix = LensModel(names[idx:], lens_redshift_list=zs[idx:], z_source=ZS, multi_plane=True, cosmo=cosmo)
                    rays = fix.lens_model.ray_shooting_partial_comoving(0 * XI, 0 * YI, XI, YI, 0.0, ZL, kw[idx:])
                f = MultiplaneFast(XI, YI, ZL, ZS, list(names), list(zs), cosmo, m, rays)
                o = Optimizer(XI, YI, f, m, tol_source=1e-3)
                for i in seq:
                    want = full.ray_shooting(XI, YI, expected(cls, kw, ARGS[i]))
                    got = f.ray_shooting_fast(XI, YI, m.args_to_kwargs(ARGS[i]))
                    rec.same("rays", got, want, 1e-9, 1e-10, what="%s %s %s" % (layout, given, seq))
                    pen = sum((want[0][a] - want[0][b]) ** 2 + (want[1][a] - want[1][b]) ** 2 for a, b in itertools.combinations(range(4), 2)) / 2 / 1e-6
                    rec.same("spread", o.source_plane_penalty(ARGS[i]), pen, 1e-6, 1e-8, what=str(layout))
                    rec.same("objective", [o._penalty_function(ARGS[i]), o._logL(ARGS[i])], [pen, -pen / 2], 1e-6, 1e-8, what=str(layout))
                    rec.trans(3)
        rec.state((cls, layout, cosmo is None))
        rec.trace()


def start_kept(rec, cls, before, kw):
    """the parameters the caller passed; those of the multipole are reported on their own"""
    own = [i for i in range(len(kw)) if not (cls.endswith("-m") and i == 2)]
    rec.unchanged("start", [before[i] for i in own], [kw[i] for i in own], "parameters the caller passed")
    if cls.endswith("-m"):
        rec.unchanged("start-multipole", before[2], kw[2], "multipole parameters the caller passed")


def fit_case(cls, kind, rec, tier):
    layouts = LAYOUT if tier == "thorough" else [(), ("front", "back"), ("back", "plane", "front")]
    for layout in layouts:
        names, zs, kw = scene(cls, layout)
        cosmo = COSMO if layout == ("front", "back") else None
        full = LensModel(names, lens_redshift_list=zs, z_source=ZS, multi_plane=True, cosmo=cosmo)
        for pso in (False, True):
            runs = []
            for rep in range(2):
                k_in = [dict(k) for k in kw]
                s0 = snap(k_in)
                m = manager(cls, k_in)
                opt = dict(particle_swarm=pso, simplex_n_iterations=250 if not pso else 120, tol_source=1e-5)
                idx = m.to_vary_index
                if kind == "full":
                    o = Optimizer.full_raytracing(XI, YI, list(names), list(zs), ZL, ZS, m, astropy_instance=cosmo, **opt)
                    ray = full.ray_shooting
                    fixed = kw
                else:
                    lm = LensModel(list(names), lens_redshift_list=list(zs), z_source=ZS, multi_plane=True, cosmo=cosmo)
                    o = Optimizer.decoupled_multiplane(XI, YI, lm, k_in, list(range(idx)), m, **opt)
                    free = [dict(k) for k in kw[:idx]]
                    dec = LensModel(names[:idx], lens_redshift_list=zs[:idx], z_source=ZS, multi_plane=True, cosmo=cosmo, decouple_multi_plane=True, kwargs_multiplane_model=o.kwargs_multiplane_model)
                    ray = dec.ray_shooting
                    rec.same("decoupled-start", ray(XI, YI, free), full.ray_shooting(XI, YI, kw), 1e-7, 1e-8, what=str(layout))
                    fixed = free
                start = o._penalty_function(m.kwargs_to_args(kw))
                k1, src = o.optimize(n_particles=8, n_iterations=20, seed=3)
                key = "%s|%s|%s" % (kind, pso, rep)
                what = "%s %s %s" % (cls, layout, key)
                a = m.kwargs_to_args(k1)
                same_kw(rec, "result-form", k1, expected(cls, fixed, a), what)
                b = ray(XI, YI, k1)
                rec.same("source", src, [np.mean(b[0]), np.mean(b[1])], 1e-9, 1e-9, what=what)
                rec.true("improves", o._penalty_function(a) <= start * (1 + 1e-9), what)
                if not CLASSES[cls][1]:
                    rec.true("fits", max(np.ptp(b[0]), np.ptp(b[1])) < 2e-3, "%s %s" % (what, b))
                start_kept(rec, cls, s0, k_in)
                s1 = snap(k1)
                o.optimize(n_particles=6, n_iterations=5, seed=4)
                rec.unchanged("earlier-result", s1, k1, "result of the first fit after a second one")
                if rep == 0:
                    k3, src3 = o.optimize(n_particles=8, n_iterations=20, seed=3)
                    same_kw(rec, "same-seed", k3, k1, what)
                    rec.same("same-seed-source", src3, src, 1e-12, 1e-12, what=what)
                runs.append(snap((s1, src)))
                rec.trans(4)
            rec.true("deterministic", snap(runs[0]) == snap(runs[1]) or repr(runs[0]) == repr(runs[1]), "%s %s" % (cls, layout))
            rec.trace()
        rec.state((cls, kind, layout))


def cases(tier):
    for c in CLASSES:
        yield "params|%s" % c
        yield "rays|%s" % c
        for k in ("full", "decoupled"):
            yield "fit|%s|%s" % (c, k)


def run_case(cid, tier, rec):
    p = cid.split("|")
    if p[0] == "params":
        params_case(p[1], rec)
    elif p[0] == "rays":
        rays_case(p[1], rec)
    else:
        fit_case(p[1], p[2], rec, tier)
