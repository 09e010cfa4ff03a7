"""P20: image positions solve the lens equation and none of the resolved images is missed.

All lens models of an alphabet x all source positions of a lattice (generic positions and positions on the symmetry axes of lens and
search grid) x all solver settings are compared with an independent image finder: the image plane is tiled in triangles, every
triangle whose map contains the source holds an image, which is then refined by Newton iteration on the real lens map.  The 2- and
4-image constraint solvers are started from every start point of a lattice around lenses whose images are known.
"""
import copy
import itertools

import numpy as np

from lenstronomy.LensModel.lens_model import LensModel
from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver, analytical_lens_model_support
from lenstronomy.LensModel.Solver.solver import Solver
from vmc.core import snap

E0 = dict(center_x=0.0, center_y=0.0)
C1 = dict(center_x=0.07, center_y=-0.04)
SH = dict(gamma1=0.05, gamma2=-0.03)
SH0 = dict(gamma1=0.06, gamma2=0.0)
SHR = dict(gamma1=0.05, gamma2=-0.03, ra_0=0.2, dec_0=-0.1)
# name: (list, kwargs, model settings)
LENSES = {
    "sie-x": (["SIE"], [dict(theta_E=1.0, e1=0.2, e2=0.0, **E0)], {}),
    "sie-d": (["SIE"], [dict(theta_E=1.0, e1=0.0, e2=0.2, **E0)], {}),
    "sie-g": (["SIE"], [dict(theta_E=1.1, e1=0.13, e2=-0.08, **C1)], {}),
    "sis": (["SIS"], [dict(theta_E=1.0, **E0)], {}),
    "sis-shear": (["SIS", "SHEAR"], [dict(theta_E=1.0, **C1), SH], {}),
    "sie-shear": (["SIE", "SHEAR"], [dict(theta_E=1.1, e1=0.13, e2=-0.08, **C1), SHR], {}),
    "sie-shear-x": (["SIE", "SHEAR"], [dict(theta_E=1.0, e1=0.2, e2=0.0, **E0), SH0], {}),
    "epl19-x": (["EPL"], [dict(theta_E=1.0, gamma=1.9, e1=0.2, e2=0.0, **E0)], {}),
    "epl22-x": (["EPL"], [dict(theta_E=1.0, gamma=2.2, e1=-0.2, e2=0.0, **E0)], {}),
    "epl18": (["EPL"], [dict(theta_E=1.05, gamma=1.8, e1=-0.1, e2=0.12, **C1)], {}),
    "epl22-shear": (["EPL", "SHEAR"], [dict(theta_E=1.05, gamma=2.2, e1=-0.1, e2=0.12, **C1), SHR], {}),
    "epln-shear": (["EPL_NUMBA", "SHEAR"], [dict(theta_E=1.05, gamma=1.9, e1=0.08, e2=0.05, **C1), SH], {}),
    "epl-kappa": (["EPL", "CONVERGENCE"], [dict(theta_E=1.0, gamma=2.1, e1=0.1, e2=0.1, **C1), dict(kappa=0.1, ra_0=0.0, dec_0=0.0)], {}),
    "epl-shear-kappa": (["EPL", "SHEAR", "CONVERGENCE"], [dict(theta_E=1.0, gamma=1.9, e1=0.1, e2=0.1, **C1), SH, dict(kappa=0.1, ra_0=0.3, dec_0=-0.2)], {}),
    "epl-kappa-shear": (["EPL", "CONVERGENCE", "SHEAR"], [dict(theta_E=1.0, gamma=1.9, e1=0.1, e2=0.1, **C1), dict(kappa=-0.1, ra_0=0.3, dec_0=-0.2), SH], {}),
    "kappa-sie-shear": (["CONVERGENCE", "SIE", "SHEAR"], [dict(kappa=0.1, ra_0=0.3, dec_0=-0.2), dict(theta_E=1.0, e1=0.1, e2=0.1, **C1), SH], {}),
    "sie-default-centre": (["SIE"], [dict(theta_E=1.1, e1=0.13, e2=-0.08)], {}),
    "epl-z": (["EPL", "SHEAR"], [dict(theta_E=1.2, gamma=1.9, e1=-0.1, e2=0.12, **C1), SH], dict(z_lens=0.5, z_source=1.2, z_source_convention=2.0)),
    "nie": (["NIE"], [dict(theta_E=1.2, e1=0.1, e2=0.05, s_scale=0.1, **C1)], {}),
    "spep-sub": (["SPEP", "SHEAR", "SIS"], [dict(theta_E=1.1, gamma=1.95, e1=0.1, e2=0.05, **C1), SH, dict(theta_E=0.15, center_x=0.7, center_y=0.6)], {}),
    "nfw-hern": (["NFW", "HERNQUIST", "SHEAR"], [dict(Rs=3.0, alpha_Rs=1.1, **C1), dict(sigma0=0.7, Rs=0.5, **C1), SH], {}),
    "multi": (["SIE", "SHEAR", "SIS"], [dict(theta_E=1.0, e1=0.1, e2=0.05, **C1), SH, dict(theta_E=0.2, center_x=0.5, center_y=0.4)],
              dict(multi_plane=True, lens_redshift_list=[0.5, 0.5, 0.3], z_source=1.5)),
    "multi-obs": (["SIE", "SHEAR", "SIS"], [dict(theta_E=1.0, e1=0.1, e2=0.05, **C1), SH, dict(theta_E=0.2, center_x=0.5, center_y=0.4)],
                  dict(multi_plane=True, lens_redshift_list=[0.3, 0.3, 0.7], z_source=1.5, observed_convention_index=[2])),
    "multi-halo": (["SIE", "SHEAR", "NFW"], [dict(theta_E=1.0, e1=0.1, e2=0.05, **C1), SH, dict(Rs=2.0, alpha_Rs=0.2, center_x=0.5, center_y=0.4)],
                   dict(multi_plane=True, lens_redshift_list=[0.3, 0.3, 0.7], z_source=1.5)),
}
# the singular perturber behind the main lens is a pole of the lens map which the solver is not claimed to resolve
POLES = ("multi-obs",)
# lenses with symmetry axes through the lattice of sources: coordinate axes, diagonals, centre only
AXES = {"sie-x": "x", "sie-d": "d", "sie-shear-x": "x", "epl19-x": "x", "epl22-x": "x", "sie-default-centre": "c"}
ROUND = ("sis",)
WINDOW = 4.0
SETTINGS = {
    "default": dict(min_distance=0.1),
    "fine": dict(min_distance=0.04),
    "odd": dict(min_distance=WINDOW / 61),
    "off": dict(min_distance=0.05, x_center=0.21, y_center=-0.13, search_window=4.6),
    "nocut": dict(min_distance=0.1, initial_guess_cut=False),
    "nonlin": dict(min_distance=0.1, non_linear=True),
    "random": dict(min_distance=0.1, num_random=4),
}


def model(name):
    l, k, s = LENSES[name]
    return LensModel(list(l), **s), copy.deepcopy(k)


def tiling(lm, kw, n=321, half=2.6):
    """image plane triangles and their vertices in the source plane"""
    # irrational offsets so that no vertex or edge lies on a symmetry axis
    g = np.linspace(-half, half, n)
    x, y = np.meshgrid(g + 0.00137, g - 0.00171)
    bx, by = lm.ray_shooting(x.ravel(), y.ravel(), kw)
    return x, y, np.asarray(bx).reshape(x.shape), np.asarray(by).reshape(x.shape)


def reference(tile, src, lm, kw):
    x, y, bx, by = tile
    out = []
    for a, b, c in (((0, 0), (0, 1), (1, 0)), ((1, 1), (0, 1), (1, 0))):
        def q(m, o):
            return m[o[0]:m.shape[0] - 1 + o[0], o[1]:m.shape[1] - 1 + o[1]]
        P = [(q(bx, o) - src[0], q(by, o) - src[1]) for o in (a, b, c)]
        d = [P[i][0] * P[(i + 1) % 3][1] - P[(i + 1) % 3][0] * P[i][1] for i in range(3)]
        inside = ((d[0] >= 0) & (d[1] >= 0) & (d[2] >= 0)) | ((d[0] <= 0) & (d[1] <= 0) & (d[2] <= 0))
        for i, j in zip(*np.nonzero(inside)):
            out.append((np.mean([q(x, o)[i, j] for o in (a, b, c)]), np.mean([q(y, o)[i, j] for o in (a, b, c)])))
    sol = []
    for p in out:
        p = np.array(p)
        for _ in range(60):
            b = np.array([float(v) for v in lm.ray_shooting(p[0], p[1], kw)])
            fxx, fxy, fyx, fyy = [float(v) for v in lm.hessian(p[0], p[1], kw)]
            A = np.array([[1 - fxx, -fxy], [-fyx, 1 - fyy]])
            det = np.linalg.det(A)
            if not np.isfinite(det) or abs(det) < 1e-12:
                break
            step = np.linalg.solve(A, np.array(src) - b)
            s = np.hypot(*step)
            if s > 0.02:
                step *= 0.02 / s
            p = p + step
            if s < 1e-13:
                break
        b = np.array([float(v) for v in lm.ray_shooting(p[0], p[1], kw)])
        if np.all(np.isfinite(b)) and np.hypot(*(b - src)) < 1e-9:
            if not any(np.hypot(*(p - r[0])) < 1e-6 for r in sol):
                fxx, fxy, fyx, fyy = [float(v) for v in lm.hessian(p[0], p[1], kw)]
                sol.append((p, 1 / ((1 - fxx) * (1 - fyy) - fxy * fyx)))
    return sol


def sources(tier):
    """lattice of source positions: the symmetry axes and diagonals are part of it"""
    v = (0.0, 0.05, 0.1, -0.1, 0.37) if tier == "quick" else (0.0, 0.02, 0.05, -0.05, 0.1, -0.1, 0.23, 0.37, -0.6)
    out = list(itertools.product(v, repeat=2))
    out += [(0.013, -0.027), (0.21, 0.17)]
    return out


def robust(ref, dmin):
    """is the full set of images expected to be resolved by a grid of spacing dmin?"""
    if any(abs(m) > 25 for _, m in ref):
        return False
    pos = [p for p, m in ref if abs(m) > 0.02]
    for (a, m), (b, n) in itertools.combinations([r for r in ref if abs(r[1]) > 0.02], 2):
        if np.hypot(*(a - b)) < (4 if min(abs(m), abs(n)) > 1 else 6) * dmin:
            return False
    return all(np.max(np.abs(p)) < WINDOW / 2 - 3 * dmin for p in pos)


def images_case(name, setting, tier, rec):
    lm, kw = model(name)
    ref_lm, _ = model(name)
    tile = tiling(ref_lm, kw)
    solver = LensEquationSolver(lm)
    opt = dict(search_window=WINDOW, precision_limit=1e-10, num_iter_max=100)
    if setting == "analytical":
        opt = dict(solver="analytical")
        dmin = 0.02
    elif setting == "stochastic":
        opt = dict(solver="stochastic", search_window=3.0, x_center=0.21, y_center=-0.13, precision_limit=1e-10, num_random=8)
        dmin = 0.1
    else:
        opt.update(SETTINGS[setting])
        dmin = opt["min_distance"]
    probe = (np.array([0.9, -0.3]), np.array([0.2, 0.8]))
    for src in sources(tier)[:: 3 if setting == "stochastic" and tier == "quick" else 1]:
        if name in ROUND and src == (0.0, 0.0) or setting == "analytical" and name in ROUND:
            continue
        what = "%s %s source %s" % (name, setting, src)
        kw0 = snap(kw)
        ref = reference(tile, src, ref_lm, kw)
        full = robust(ref, dmin) and name not in POLES and setting != "stochastic"
        least = 0.02 if setting == "analytical" else 0.5  # demagnified images are below the resolution of the search grid
        x, y = solver.image_position_from_source(src[0], src[1], kw, **opt)
        x, y = np.atleast_1d(x), np.atleast_1d(y)
        rec.unchanged("args", kw0, kw, what)
        kf = [dict(k) for k in kw]
        if len(x):
            bx, by = ref_lm.ray_shooting(x, y, kf)
            # the pole of the lens map is listed as a central image of magnification zero
            img = np.abs(ref_lm.magnification(x, y, kf)) > 1e-3
            rec.true("solves", np.all(np.hypot(bx - src[0], by - src[1])[img] < 1e-8), "%s residual %s" % (what, np.hypot(bx - src[0], by - src[1])))
            sep = [np.hypot(x[i] - x[j], y[i] - y[j]) for i, j in itertools.combinations(range(len(x)), 2)]
            rec.true("distinct", not sep or min(sep) > 1e-6, "%s images %s %s" % (what, x, y))
            if name.startswith("multi"):
                t = ref_lm.arrival_time(x, y, kf)
            else:
                t = ref_lm.fermat_potential(x, y, kf)
            rec.true("sorted", np.all(np.diff(t) >= -1e-9 * np.max(np.abs(t))), "%s times %s" % (what, t))
        if setting == "stochastic" and robust(ref, dmin) and name not in POLES:
            if len(ref):
                rec.true("some", len(x) > 0, "%s: none of 8 starts found one of %d images" % (what, len(ref)))
        if full:
            key = "complete" if 0.0 not in src and abs(src[0]) != abs(src[1]) else "complete-axis"
            if setting == "analytical" and name in AXES and (src == (0.0, 0.0) or AXES[name] == "x" and 0.0 in src or AXES[name] == "d" and abs(src[0]) == abs(src[1])):
                key = "complete-symmetry-axis"
            miss = [tuple(np.round(p, 4)) for p, m in ref if abs(m) > least and not np.any(np.hypot(x - p[0], y - p[1]) < 1e-5)]
            rec.true(key, not miss, "%s missing %s found %s %s" % (what, miss, x, y))
        # an unfrozen lens model stays unfrozen
        k2 = copy.deepcopy(kw)
        for q in k2:
            for p in ("theta_E", "kappa", "gamma1", "sigma0", "alpha_Rs"):
                if p in q:
                    q[p] = q[p] * 1.1
        rec.same("released", lm.ray_shooting(*probe, k2), ref_lm.ray_shooting(*probe, k2), 1e-10, 1e-10, what=what)
        rec.trans(2)
        rec.state(what)
        rec.outcome([len(x), np.round(np.sort(x), 4).tolist()])
    rec.trace()


def options_case(name, tier, rec):
    """magnification cut, order, brightest images and window are plain selections of the same set"""
    lm, kw = model(name)
    ref_lm, _ = model(name)
    tile = tiling(ref_lm, kw)
    solver = LensEquationSolver(lm)
    other = [{k: (v * 1.07 if k in ("theta_E", "gamma1", "gamma2", "kappa", "alpha_Rs") else v) for k, v in q.items()} for q in kw]
    oth = ref_lm.ray_shooting(0.7, 0.4, other)

    def left(what):
        """the lens model given to the solver is the user's: other parameters are evaluated as before"""
        rec.same("lens-left", lm.ray_shooting(0.7, 0.4, other), oth, 1e-10, what=what)
    for src in ((0.03, 0.05), (0.1, -0.02), (0.35, 0.2)):
        ref = reference(tile, src, ref_lm, kw)
        if not robust(ref, 0.05):
            continue
        sols = ["lenstronomy"] + (["analytical"] if analytical_lens_model_support(LENSES[name][0]) else [])
        for sol in sols:
            base = dict(solver=sol)
            if sol == "lenstronomy":
                base.update(min_distance=0.05, search_window=WINDOW)
            x, y = solver.image_position_from_source(src[0], src[1], kw, **base)
            mag = np.abs(ref_lm.magnification(x, y, kw))
            what = "%s %s %s" % (name, sol, src)
            for srt, lim in itertools.product((True, False), (None, 0.0, 0.3, 1.5, 3.0, 1e3)):
                xx, yy = solver.image_position_from_source(src[0], src[1], kw, arrival_time_sort=srt, magnification_limit=lim, **base)
                left(what + " limit %s sort %s" % (lim, srt))
                keep = mag >= lim if lim is not None else np.ones(len(x), dtype=bool)
                o, e = (np.arange(len(xx)), np.arange(int(keep.sum()))) if srt else (np.argsort(xx), np.argsort(x[keep]))
                if rec.same("number", len(xx), int(keep.sum()), what=what + " limit %s sort %s" % (lim, srt)):
                    rec.same("selection", [np.asarray(xx)[o], np.asarray(yy)[o]], [x[keep][e], y[keep][e]], 1e-6, 1e-6, what=what + " limit %s sort %s" % (lim, srt))
                rec.trans()
            if sol == "lenstronomy":
                for num in (1, 2, 3, 4, 5):
                    xb, yb = solver.find_bright_image(src[0], src[1], kw, numImages=num, min_distance=0.05, search_window=WINDOW, num_iter_max=100)
                    best = np.sort(np.argsort(mag)[::-1][:num])
                    if rec.same("bright-number", len(xb), len(best), what=what):
                        rec.same("bright", [xb, yb], [x[best], y[best]], 1e-6, 1e-6, what=what + " brightest %d" % num)
                    xb, yb = solver.find_bright_image(src[0], src[1], kw, numImages=num, min_distance=0.05, search_window=WINDOW, num_iter_max=100, arrival_time_sort=False)
                    m = np.abs(ref_lm.magnification(xb, yb, kw))
                    left(what + " brightest %d" % num)
                    rec.same("bright-unsorted", np.sort(m)[::-1], np.sort(mag)[::-1][:num], 1e-4, 1e-4, what=what)
                    rec.trans(2)
            rec.state(what)
    rec.trace()


def history_case(tier, rec):
    """frozen lens models, other redshifts, windows without any image: the next answer does not depend on the last one"""
    lm, kw = model("epl-z")
    k2 = copy.deepcopy(kw)
    k2[0]["theta_E"] = 0.8
    ops = {
        "find1": lambda s: s.image_position_from_source(0.1, 0.03, kw, min_distance=0.1, search_window=4),
        "find2": lambda s: s.image_position_from_source(0.05, -0.03, k2, min_distance=0.1, search_window=4),
        "ana2": lambda s: s.image_position_from_source(0.05, -0.03, k2, solver="analytical"),
        "far": lambda s: s.image_position_from_source(30.0, 20.0, kw, min_distance=0.1, search_window=1),
        "tiny": lambda s: s.image_position_from_source(0.1, 0.03, kw, min_distance=0.1, search_window=0.2),
        "limit": lambda s: s.image_position_from_source(0.1, 0.03, kw, min_distance=0.1, search_window=4, magnification_limit=3.0),
        "z1": lambda s: s.change_source_redshift(0.9),
        "z2": lambda s: s.change_source_redshift(2.0),
        "znone": lambda s: s.change_source_redshift(None),
        "bright": lambda s: s.find_bright_image(0.05, -0.03, k2, numImages=2, min_distance=0.1, search_window=4),
    }
    zmap = dict(z1=0.9, z2=2.0)
    depth = 2 if tier == "quick" else 3
    for seq in itertools.chain(*[itertools.product(sorted(ops), repeat=d) for d in range(1, depth + 1)]):
        s = LensEquationSolver(model("epl-z")[0])
        z = 1.2
        for o in seq:
            before = snap([kw, k2])
            np.random.seed(3)
            got = ops[o](s)
            rec.unchanged("args", before, [kw, k2], str(seq))
            z = zmap.get(o, z)
        f = model("epl-z")[0]
        f.change_source_redshift(z)
        fs = LensEquationSolver(f)
        if seq[-1] not in ("z1", "z2", "znone"):
            np.random.seed(3)
            exp = ops[seq[-1]](fs)
            rec.same("answer", [np.asarray(v) for v in got], [np.asarray(v) for v in exp], 1e-7, 1e-7, what=str(seq))
        for k in (kw, k2):
            g, e = s.lensModel.ray_shooting(0.7, 0.4, k), f.ray_shooting(0.7, 0.4, k)
            rec.same("lens-state", g, e, 1e-10, what=str(seq))
        rec.trans(len(seq))
        rec.trace()
        rec.state(str(seq))


def unsupported_case(tier, rec):
    lists = [["SIS"], ["SIE"], ["EPL"], ["NFW"], ["SIE", "SIS"], ["SHEAR", "SIE"], ["EPL", "SHEAR"], ["SIS", "SHEAR"], ["EPL", "SHEAR", "SHEAR"], ["CONVERGENCE"], ["SHEAR"], []]
    kws = {"SIS": dict(theta_E=1.0, **E0), "SIE": dict(theta_E=1.0, e1=0.1, e2=0.05, **E0), "EPL": dict(theta_E=1.0, gamma=2.1, e1=0.1, e2=0.05, **E0), "NFW": dict(Rs=1.0, alpha_Rs=1.0, **E0),
           "SHEAR": SH, "CONVERGENCE": dict(kappa=0.1)}
    for l in lists:
        for pos in [None] + list(range(len(l) + 1)):
            ll = list(l) if pos is None else l[:pos] + ["CONVERGENCE"] + l[pos:]
            if ll.count("CONVERGENCE") > 1:
                continue
            l0 = list(ll)
            sup = analytical_lens_model_support(ll)
            rec.unchanged("list", l0, ll)
            rest = [m for m in ll if m != "CONVERGENCE"]
            exp = rest in (["SIS", "SHEAR"], ["SIE", "SHEAR"], ["SIE"], ["EPL", "SHEAR"], ["EPL"])
            rec.same("support", sup, exp, what=str(ll))
            s = LensEquationSolver(LensModel(ll))
            kw = [dict(kws[m]) for m in ll]
            if not exp:
                rec.raises("refused", lambda: s.image_position_analytical(0.1, 0.05, kw), ValueError, str(ll))
            else:
                x, y = s.image_position_analytical(0.1, 0.05, kw)
                bx, by = LensModel(ll).ray_shooting(x, y, kw)
                rec.true("found", len(x) >= 2 and np.allclose(bx, 0.1, atol=1e-7) and np.allclose(by, 0.05, atol=1e-7), "%s %s %s" % (ll, x, y))
            rec.trans()
            rec.state(str(ll))
    s = LensEquationSolver(LensModel(["SIE"]))
    rec.raises("unknown-solver", lambda: s.image_position_from_source(0.1, 0.0, [kws["SIE"]], solver="nosuch"), ValueError, "unknown solver")
    m, kw = model("multi")
    rec.raises("multi-plane-analytical", lambda: LensEquationSolver(m).image_position_analytical(0.1, 0.05, kw), ValueError, "multi plane")
    rec.trace()


# ---- constraint solvers
QUAD = {
    "SIE": dict(theta_E=1.0, e1=0.1, e2=0.08, **C1), "SPEP": dict(theta_E=1.0, gamma=1.9, e1=0.08, e2=0.06, **C1), "EPL": dict(theta_E=1.0, gamma=2.1, e1=0.1, e2=0.08, **C1),
    "NIE": dict(theta_E=1.1, e1=0.1, e2=0.08, s_scale=0.05, **C1), "EPL_BOXYDISKY": dict(theta_E=1.0, gamma=2.0, e1=0.1, e2=0.08, a4_a=0.02, **C1),
    "EPL_MULTIPOLE_M3M4": dict(theta_E=1.0, gamma=2.0, e1=0.1, e2=0.08, a3_a=0.01, delta_phi_m3=0.1, a4_a=0.02, delta_phi_m4=0.0, **C1),
    "NFW_ELLIPSE_POTENTIAL": dict(Rs=5.0, alpha_Rs=2.2, e1=0.05, e2=0.03, **C1), "NFW_ELLIPSE_CSE": dict(Rs=5.0, alpha_Rs=2.2, e1=0.1, e2=0.05, **C1),
    "BPL": dict(b=1.2, a=1.8, a_c=0.7, r_c=0.1, e1=0.1, e2=0.08, **C1),
}
EXTRA = {"none": [], "sub": [("SIS", dict(theta_E=0.1, center_x=0.6, center_y=0.5))], "two": [("SIS", dict(theta_E=0.1, center_x=0.6, center_y=0.5)), ("CONVERGENCE", dict(kappa=0.05, ra_0=0, dec_0=0))]}


def quad_setup(first, shear, extra, multi):
    l = [first, shear] + [m for m, _ in EXTRA[extra]]
    sh = dict(gamma1=0.05, gamma2=-0.04, ra_0=0, dec_0=0) if shear == "SHEAR" else dict(gamma_ext=0.064, psi_ext=-0.33, ra_0=0, dec_0=0)
    kw = [dict(QUAD[first]), sh] + [dict(k) for _, k in EXTRA[extra]]
    s = dict(multi_plane=True, lens_redshift_list=[0.5, 0.5] + [0.3] * len(EXTRA[extra]), z_source=1.5) if multi else {}
    return l, kw, s


def quad_case(first, shear, extra, multi, tier, rec):
    l, kw, s = quad_setup(first, shear, extra, multi)
    lm = LensModel(l, **s)
    ref = reference(tiling(lm, kw, n=221), (0.08, -0.03), lm, kw)
    ref = sorted([r for r in ref if abs(r[1]) > 0.1], key=lambda r: -abs(r[1]))
    if not rec.true("quad", len(ref) >= 4, "%s images %s" % (l, ref)):
        return
    x, y = np.array([r[0][0] for r in ref[:4]]), np.array([r[0][1] for r in ref[:4]])
    amp = "theta_E" if "theta_E" in kw[0] else "alpha_Rs" if "alpha_Rs" in kw[0] else "b"
    solved = [amp, "e1", "e2", "center_x", "center_y"]
    sol = Solver("PROFILE_SHEAR", LensModel(l, **s), 4)
    d = (-1, 1) if tier == "quick" else (-1, 0, 1)
    for st in [(0, 0, 0, 0)] * (0 not in d) + list(itertools.product(d, repeat=4)):
        init = copy.deepcopy(kw)
        init[0][amp] *= 1 + 0.02 * st[0]
        init[0]["e1"] += 0.01 * st[1]
        init[0]["center_x"] += 0.01 * st[2]
        if shear == "SHEAR":
            c, q = np.cos(2 * 0.05 * st[3]), np.sin(2 * 0.05 * st[3])
            init[1].update(gamma1=0.05 * c + 0.04 * q, gamma2=-0.04 * c + 0.05 * q)
        else:
            init[1]["psi_ext"] += 0.05 * st[3]
        i0 = snap(init)
        what = "%s start %s" % (l, st)
        out, acc = sol.constraint_lensmodel(x, y, init)
        rec.unchanged("quad-args", i0, init, what)
        bx, by = LensModel(l, **s).ray_shooting(x, y, out)
        dist = np.hypot(bx - bx[0], by - by[0])
        res = np.sum((bx[1:] - bx[0]) ** 2 + (by[1:] - by[0]) ** 2)
        rec.same("quad-accuracy", acc, res, 1e-3, 1e-15, what=what)
        rec.true("quad-solved", np.max(dist) < 1e-7, "%s distances %s" % (what, dist))
        rec.same("quad-check", sol.check_solver(x, y, out), dist, 1e-6, 1e-13, what=what)
        rec.same("quad-update", [[q[p] for p in sorted(q)] for q in sol.update_solver(init, x, y)], [[q[p] for p in sorted(q)] for q in out], 1e-12, 1e-14, what=what)
        for i, q in enumerate(out):
            for p in q:
                if i == 0 and p in solved or i == 1 and p in ("gamma1", "gamma2", "psi_ext"):
                    continue
                rec.same("quad-untouched", q[p], init[i][p], what="%s %d %s" % (what, i, p))
        if shear == "SHEAR":
            rec.same("quad-shear-size", np.hypot(out[1]["gamma1"], out[1]["gamma2"]), np.hypot(0.05, 0.04), 1e-10, what=what)
        if not any(st):
            rec.same("quad-truth", [out[0][p] for p in solved], [kw[0][p] for p in solved], 1e-4, 1e-5, what=what)
        fx = sol.add_fixed_lens([dict() for _ in l], init)
        rec.same("quad-fixed", sorted(fx[0]), sorted(solved), what=what)
        rec.same("quad-fixed-values", [fx[0][p] for p in solved], [init[0][p] for p in solved], what=what)
        rec.trans(4)
        rec.state(what)
    rec.raises("quad-number", lambda: sol.update_solver(kw, x[:3], y[:3]), ValueError, "three images")
    rec.trace()


DOUBLE = {"CENTER": ["center_x", "center_y"], "ELLIPSE": ["e1", "e2"], "THETA_E_PHI": ["theta_E"], "THETA_E_ELLIPSE": ["theta_E", "e1", "e2"]}


def double_case(kind, first, extra, multi, tier, rec):
    l, kw, s = quad_setup(first, "SHEAR", extra, multi)
    lm = LensModel(l, **s)
    ref = reference(tiling(lm, kw, n=221), (0.35, 0.12), lm, kw)
    ref = sorted(ref, key=lambda r: -abs(r[1]))[:2]
    if not rec.true("double", len(ref) == 2, "%s images %s" % (l, ref)):
        return
    x, y = np.array([r[0][0] for r in ref]), np.array([r[0][1] for r in ref])
    sol = Solver(kind, LensModel(l, **s), 2)
    d = (-1, 0, 1) if tier == "quick" else (-2, -1, 0, 1, 2)
    for a, b in itertools.product(d, repeat=2):
        init = copy.deepcopy(kw)
        if kind == "CENTER":
            init[0]["center_x"] += 0.02 * a
            init[0]["center_y"] += 0.02 * b
        elif kind == "ELLIPSE":
            init[0]["e1"] += 0.02 * a
            init[0]["e2"] += 0.02 * b
        else:
            init[0]["theta_E"] *= 1 + 0.02 * a
            q, p = (init[1], ("gamma1", "gamma2")) if kind == "THETA_E_PHI" else (init[0], ("e1", "e2"))
            c, n = np.cos(2 * 0.05 * b), np.sin(2 * 0.05 * b)
            q[p[0]], q[p[1]] = q[p[0]] * c - q[p[1]] * n, q[p[0]] * n + q[p[1]] * c
        what = "%s %s start %s" % (kind, l, (a, b))
        i0 = snap(init)
        out, acc = sol.constraint_lensmodel(x, y, init)
        rec.unchanged("double-args", i0, init, what)
        bx, by = LensModel(l, **s).ray_shooting(x, y, out)
        rec.same("double-accuracy", acc, (bx[1] - bx[0]) ** 2 + (by[1] - by[0]) ** 2, 1e-3, 1e-15, what=what)
        rec.true("double-solved", np.hypot(bx[1] - bx[0], by[1] - by[0]) < 1e-7, "%s %s %s" % (what, bx, by))
        for i, q in enumerate(out):
            for p in q:
                if i == 0 and p in DOUBLE[kind] or i == 1 and kind == "THETA_E_PHI" and p in ("gamma1", "gamma2"):
                    continue
                rec.same("double-untouched", q[p], init[i][p], what="%s %d %s" % (what, i, p))
        if kind == "THETA_E_PHI":
            rec.same("double-shear-size", np.hypot(out[1]["gamma1"], out[1]["gamma2"]), np.hypot(0.05, 0.04), 1e-10, what=what)
        if kind == "THETA_E_ELLIPSE":
            rec.same("double-axis-ratio", np.hypot(out[0]["e1"], out[0]["e2"]), np.hypot(kw[0]["e1"], kw[0]["e2"]), 1e-10, what=what)
        rec.trans(2)
        rec.state(what)
    rec.raises("double-number", lambda: sol.update_solver(kw, x[:1], y[:1]), ValueError, "one image")
    rec.trace()


def cases(tier):
    out = []
    for n in LENSES:
        sets = list(SETTINGS) if tier == "thorough" else [s for s in SETTINGS if s not in ("odd", "nonlin", "random") or n in ("sie-x", "sie-g", "spep-sub", "multi-obs")]
        out += ["images|%s|%s" % (n, s) for s in sets]
        if analytical_lens_model_support(LENSES[n][0]):
            out.append("images|%s|analytical" % n)
        if n in ("sie-g", "nie", "epl-z", "multi-halo") or tier == "thorough" and n not in ROUND + POLES:
            out.append("images|%s|stochastic" % n)
        if n not in ROUND:
            out.append("options|%s" % n)
    out += ["history", "unsupported"]
    for f in QUAD:
        for sh, e, m in (("SHEAR", "none", 0), ("SHEAR", "two", 0), ("SHEAR_GAMMA_PSI", "sub", 0), ("SHEAR", "sub", 1)):
            if tier == "quick" and f not in ("SIE", "EPL", "NFW_ELLIPSE_CSE") and e != "sub":
                continue
            if m and f not in ("SIE", "EPL"):
                continue
            out.append("quad|%s|%s|%s|%d" % (f, sh, e, m))
    for k in DOUBLE:
        for f in ("SIE", "EPL", "SPEP"):
            for e, m in (("none", 0), ("two", 0), ("sub", 1)):
                out.append("double|%s|%s|%s|%d" % (k, f, e, m))
    return out


def run_case(cid, tier, rec):
    p = cid.split("|")
    if p[0] == "images":
        images_case(p[1], p[2], tier, rec)
    elif p[0] == "options":
        options_case(p[1], tier, rec)
    elif p[0] == "history":
        history_case(tier, rec)
    elif p[0] == "unsupported":
        unsupported_case(tier, rec)
    elif p[0] == "quad":
        quad_case(p[1], p[2], p[3], int(p[4]), tier, rec)
    else:
        double_case(p[1], p[2], p[3], int(p[4]), tier, rec)
