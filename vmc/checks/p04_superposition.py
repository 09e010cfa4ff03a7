"""P04: a lens model is the sum of the selected components, however they are listed, selected or evaluated."""
import itertools

import numpy as np
from astropy.cosmology import FlatLambdaCDM

from lenstronomy.LensModel.lens_model import LensModel
from lenstronomy.LensModel.single_plane import SinglePlane
from lenstronomy.LensModel.profile_list_base import lens_class
from vmc import lenslib
from vmc.core import snap

X = np.array([0.9, -0.6, 0.35])
Y = np.array([0.2, 0.8, -1.1])
COSMO = FlatLambdaCDM(H0=70, Om0=0.3)
SLOW = {"GNFW", "GNFW_ELLIPSE_GAUSS_DEC", "GreenBoschNFW", "NFW_ELLIPSE_GAUSS_DEC", "SERSIC_ELLIPSE_GAUSS_DEC"}
SCALED = dict(z_lens=0.5, z_source=1.2, z_source_convention=2.0, cosmo=COSMO)
FOUR = ["EPL", "SHEAR", "NFW", "SIS"]


def redshifts(names):
    return [0.5] * len(names)


def single(model, kw, x=X, y=Y):
    """alpha, hessian, potential of one component, evaluated on its own profile object."""
    prof = lens_class(model, {"z_lens": 0.5, "z_source": 2.0} if model.startswith("NFW_MC") else {})
    a = prof.derivatives(x, y, **snap(kw))
    h = prof.hessian(x, y, **snap(kw))
    try:
        p = prof.function(x, y, **snap(kw))
    except Exception:
        p = None
    return a, h, p


def add(parts, sel, scale, n):
    z = np.zeros(n)
    a = [z.copy(), z.copy()]
    h = [z.copy() for _ in range(4)]
    p = z.copy()
    for i in sel:
        for j in range(2):
            a[j] = a[j] + scale * parts[i][0][j]
        for j in range(4):
            h[j] = h[j] + scale * parts[i][1][j]
        p = None if (p is None or parts[i][2] is None) else p + scale * np.asarray(parts[i][2])
    return a, h, p


def check(rec, lm, kw, expect, k, what, tol=1e-9):
    a, h, p = expect
    kk = {} if k == "all" else {"k": k}
    k0 = snap(k)
    kw0 = snap(kw)
    rec.same("deflection", lm.alpha(X, Y, kw, **kk), a, tol, 1e-11, what=what)
    rec.same("ray", lm.ray_shooting(X, Y, kw, **kk), [X - a[0], Y - a[1]], tol, 1e-11, what=what)
    rec.same("hessian", lm.hessian(X, Y, kw, **kk), h, tol, 1e-11, what=what)
    rec.same("kappa", lm.kappa(X, Y, kw, **kk), (h[0] + h[3]) / 2, tol, 1e-11, what=what)
    rec.same("gamma", lm.gamma(X, Y, kw, **kk), [(h[0] - h[3]) / 2, h[1]], tol, 1e-11, what=what)
    rec.same("curl", lm.curl(X, Y, kw, **kk), h[1] - h[2], tol, 1e-9, what=what)
    det = (1 - h[0]) * (1 - h[3]) - h[1] * h[2]
    rec.same("magnification", 1.0 / np.asarray(lm.magnification(X, Y, kw, **kk)), det, tol * 10, 1e-10, what=what)
    if p is not None:
        rec.same("potential", lm.potential(X, Y, kw, **kk), p, tol, 1e-10, what=what)
        if k == "all" and hasattr(lm.lens_model, "fermat_potential"):
            fer = (a[0] ** 2 + a[1] ** 2) / 2 - p
            rec.same("fermat", lm.fermat_potential(X, Y, kw), fer, tol, 1e-10, what=what)
            if "FLEXION" in what:
                return rec.trace()  # defined for the on-shell source position only
            src = (0.1, -0.2)
            fer = ((X - 0.1) ** 2 + (Y + 0.2) ** 2) / 2 - p
            rec.same("fermat-source", lm.fermat_potential(X, Y, kw, *src), fer, tol, 1e-10, what=what)
        elif k != "all" and type(lm.lens_model).__name__ == "SinglePlane":
            sp = lm.lens_model
            rec.same("fermat-selected", sp.fermat_potential(X, Y, kw, k=k), (a[0] ** 2 + a[1] ** 2) / 2 - p, tol, 1e-10, what=what)
            rec.same("fermat-selected-source", sp.fermat_potential(X, Y, kw, 0.1, -0.2, k=k), ((X - 0.1) ** 2 + (Y + 0.2) ** 2) / 2 - p, tol, 1e-10, what=what)
    rec.unchanged("kwargs", kw0, kw)
    rec.unchanged("k", k0, k)
    rec.trans(8)
    rec.trace()


def forms(sel, n):
    """All public ways to name a subset of n components."""
    out = [tuple(sel), list(sel), [i in sel for i in range(n)], tuple(np.int64(i) for i in sel)]
    if len(sel) == 1:
        out += [sel[0], np.int64(sel[0])]
    if len(sel) == 2:
        out += [tuple(reversed(sel))]
    return out


def profile_case(model, tier, rec):
    x, y = X, Y
    others = ["SIS"] if tier == "quick" or model in SLOW else ["SIS", "EPL", "SHEAR", "NFW"]
    lists = [[model], [model, model]]
    for o in others:
        lists += [[model, o], [o, model]]
    if tier == "thorough" and model not in SLOW:
        lists += [[model, "SIS", model], [model] * 3]
    for names in lists:
        kws = [lenslib.params(m, 2 * i) for i, m in enumerate(names)]
        parts = [single(m, k) for m, k in zip(names, kws)]
        for scaled in (False, True):
            args = dict(SCALED) if scaled else dict(z_lens=0.5, z_source=2.0, cosmo=COSMO)
            settings = [{}] * len(names)  # one settings object for all components, as a user may write it
            zl = redshifts(names)
            nm = list(names)
            lm = LensModel(nm, lens_redshift_list=zl, profile_kwargs_list=settings, **args)
            rec.unchanged("settings", [[{}] * len(names), redshifts(names), names], [settings, zl, nm], "model configuration")
            scale = beta() if scaled else 1.0
            n = len(names)
            check(rec, lm, kws, add(parts, range(n), scale, len(X)), "all", "%s scaled=%s" % (names, scaled))
            for i in range(n):
                check(rec, lm, kws, add(parts, [i], scale, len(X)), i, "%s k=%d scaled=%s" % (names, i, scaled))
            rec.state("%s|%s" % (names, scaled))
        rec.outcome(parts)


def beta():
    ds = COSMO.angular_diameter_distance_z1z2
    d = COSMO.angular_diameter_distance
    return float(ds(0.5, 1.2) / d(1.2) / (ds(0.5, 2.0) / d(2.0)))


def numerical(rec, lm, names, kws, parts, sel, scale, what):
    """the numerical derivatives of a selection are those of its components"""
    a, h, p = add(parts, sel, scale, len(X))
    d = 1e-4
    sh = [[single(m, k, X + i * d / 2, Y + j * d / 2) for m, k in zip(names, kws)] for i, j in ((1, 0), (-1, 0), (0, 1), (0, -1))]
    hx, hx_, hy, hy_ = [np.array(add(q, sel, scale, len(X))[1]) for q in sh]
    dx, dy = (hx - hx_) / d, (hy - hy_) / d
    for k in [tuple(sel), list(sel)] + ([sel[0]] if len(sel) == 1 else []) + ([None] if len(sel) == len(names) else []):
        w = what + " form %r" % (k,)
        for kw in (dict(), dict(hessian_diff=True)):
            rec.same("flexion", lm.flexion(X, Y, kws, k=k, diff=d, **kw), [dx[0], dy[0], dy[1], dy[3]], 1e-4, 1e-4, what=w)
        rec.same("numerical-deflection", lm.alpha(X, Y, kws, k=k, diff=1e-4), a, 1e-5, 1e-6, what=w)
        for method in ("square", "cross"):
            o = dict(k=k, diff=1e-4, diff_method=method)
            rec.same("numerical-hessian", lm.hessian(X, Y, kws, **o), h, 1e-5, 1e-6, what=w)
            rec.same("numerical-kappa", lm.kappa(X, Y, kws, **o), (h[0] + h[3]) / 2, 1e-5, 1e-6, what=w)
            rec.same("numerical-gamma", lm.gamma(X, Y, kws, **o), [(h[0] - h[3]) / 2, h[1]], 1e-5, 1e-6, what=w)
            rec.same("numerical-curl", lm.curl(X, Y, kws, **o), h[1] - h[2], 1e-5, 1e-6, what=w)
            rec.same("numerical-magnification", 1 / lm.magnification(X, Y, kws, **o), (1 - h[0]) * (1 - h[3]) - h[1] * h[2], 1e-4, 1e-5, what=w)
        rec.trans(8)
    rec.raises("numerical-method", lambda: lm.hessian(X, Y, kws, diff=1e-4, diff_method="none"), ValueError, "unknown method accepted")


def subset_case(scaled, rec):
    names = FOUR
    kws = [lenslib.params(m, i) for i, m in enumerate(names)]
    parts = [single(m, k) for m, k in zip(names, kws)]
    args = dict(SCALED) if scaled else {}
    scale = beta() if scaled else 1.0
    lm = LensModel(list(names), **args)
    for r in range(5):
        for sel in itertools.combinations(range(4), r):
            for k in forms(list(sel), 4):
                check(rec, lm, kws, add(parts, sel, scale, len(X)), k, "%s k=%r scaled=%s" % (names, k, scaled))
            numerical(rec, lm, names, kws, parts, sel, scale, "%s k=%r scaled=%s" % (names, sel, scaled))
            rec.state("%s|%s" % (sel, scaled))
            rec.outcome(add(parts, sel, scale, len(X)))
    rec.raises("k-out-of-range", lambda: lm.alpha(X, Y, kws, k=(0, 4)), Exception, "selection beyond the list accepted")
    rec.raises("k-bool-length", lambda: lm.alpha(X, Y, kws, k=[True, False]), Exception, "bool selection of wrong length accepted")
    # permutations of the list do not matter
    for perm in itertools.permutations(range(4)):
        lmp = LensModel([names[i] for i in perm], **args)
        check(rec, lmp, [kws[i] for i in perm], add(parts, range(4), scale, len(X)), "all", "order %s" % (perm,))
    # radial quantities
    sp = SinglePlane(["NFW", "SIS", "HERNQUIST"])
    kk = [lenslib.params(m, i) for i, m in enumerate(["NFW", "SIS", "HERNQUIST"])]
    r = np.array([0.3, 1.0, 2.2])
    for fn, meth in (("mass_3d", "mass_3d_lens"), ("mass_2d", "mass_2d_lens"), ("density", "density_lens")):
        ind = [np.asarray(getattr(lens_class(m), meth)(r, **{a: b for a, b in k.items() if not a.startswith("center")}))
               for m, k in zip(["NFW", "SIS", "HERNQUIST"], kk)]
        for rr in range(1, 4):
            for sel in itertools.combinations(range(3), rr):
                for b in forms(list(sel), 3):
                    rec.same(fn, getattr(sp, fn)(r, kk, bool_list=b), sum(ind[i] for i in sel), 1e-9, what="%s %r" % (fn, b))
        rec.same(fn, getattr(sp, fn)(r, kk), sum(ind), 1e-9, what=fn)


def shape_case(model, rec):
    """Evaluating an array equals evaluating its points one by one, for every layout of the array."""
    kw = [lenslib.params(model)]
    lm = LensModel([model], z_lens=0.5, z_source=2.0, lens_redshift_list=[0.5])
    xs, ys = np.array([0.9, -0.6, 0.35, -1.2]), np.array([0.2, 0.8, -1.1, -0.5])

    def obs(x, y):
        out = [lm.alpha(x, y, kw), lm.hessian(x, y, kw)]
        try:
            out.append(lm.potential(x, y, kw))
        except Exception:
            out.append(None)
        return out

    pts = [obs(float(a), float(b)) for a, b in zip(xs, ys)]
    tol = (1e-8, 1e-9) if model not in NUMDIFF else (1e-4, 1e-4)

    def expected(idx):
        return [[np.array([float(pts[i][0][j]) for i in idx]) for j in range(2)],
                [np.array([float(pts[i][1][j]) for i in idx]) for j in range(4)],
                None if pts[0][2] is None else np.array([float(pts[i][2]) for i in idx])]

    for r in range(1, 5):
        for idx in itertools.permutations(range(4), r):
            if r == 4 and idx[0] > 1:
                continue
            x, y = xs[list(idx)], ys[list(idx)]
            x0, y0 = x.copy(), y.copy()
            o = obs(x, y)
            rec.unchanged("positions-x", x0, x)
            rec.unchanged("positions-y", y0, y)
            e = expected(idx)
            rec.same("array-alpha", o[0], e[0], *tol, what="%s points %s" % (model, idx))
            rec.same("array-hessian", o[1], e[1], max(tol[0], 1e-7), max(tol[1], 1e-7), what="%s points %s" % (model, idx))
            if e[2] is not None:
                rec.same("array-potential", o[2], e[2], *tol, what="%s points %s" % (model, idx))
            rec.trans()
            rec.trace()
    rec.state(model)
    rec.outcome(pts)


NUMDIFF = {"CNFW_ELLIPSE_POTENTIAL", "NFW_ELLIPSE_POTENTIAL", "NFW_MC_ELLIPSE_POTENTIAL", "TNFW_ELLIPSE_POTENTIAL",
           "PJAFFE_ELLIPSE_POTENTIAL", "HERNQUIST_ELLIPSE_POTENTIAL", "GAUSSIAN_ELLIPSE_POTENTIAL", "NIE", "NIE_SIMPLE",
           "CHAMELEON", "DOUBLE_CHAMELEON", "TRIPLE_CHAMELEON", "SERSIC_ELLIPSE_POTENTIAL", "SERSIC_ELLIPSE_KAPPA", "SERSIC"}


def los_case(los, pos, rec):
    """A line-of-sight model with vanishing corrections equals the plain model; potential is that of the main lens wherever it is listed."""
    names = ["SIE", "SIS"]
    kws = [lenslib.params(m, i) for i, m in enumerate(names)]
    zero = {n: 0.0 for n in lens_class(los).param_names}
    full = names[:pos] + [los] + names[pos:]
    kwf = kws[:pos] + [zero] + kws[pos:]
    lm = LensModel(full)
    parts = [single(m, k) for m, k in zip(names, kws)]
    check(rec, lm, kwf, add(parts, [0, 1], 1.0, len(X)), "all", "%s at %d" % (los, pos), tol=1e-8)
    # order of the list does not matter for non-zero corrections either
    val = lenslib.params(los)
    ref = None
    for p in range(3):
        lmp = LensModel(names[:p] + [los] + names[p:])
        kwp = kws[:p] + [val] + kws[p:]
        o = [lmp.alpha(X, Y, kwp), lmp.hessian(X, Y, kwp), lmp.potential(X, Y, kwp), lmp.fermat_potential(X, Y, kwp)]
        ref = ref or o
        rec.same("los-order", o, ref, 1e-9, 1e-11, what="%s at %d" % (los, p))
        rec.trans()
        rec.state("%s%d" % (los, p))
    rec.outcome(ref)


def los_formula(los, val, main, x, y):
    """deflection with line-of-sight corrections from the main deflection main(x, y), complex notation"""
    v = {n: 0.0 for n in ("omega_od", "omega_ds", "omega_os")}
    v.update(val)
    if los.endswith("MINIMAL"):
        for n in list(v):
            if n.endswith("_1los"):
                v[n.replace("_1los", "_1ds")] = v[n]
            elif n.endswith("_los"):
                v[n.replace("_los", "_os")] = v[n]
        for n in list(v):
            if n.endswith("_od"):
                v[n.replace("_od", "_2ds" if n[0] in "FG" else "_ds")] = v[n]
    c = lambda a, p: v.get(a + "1_" + p, 0.0) + 1j * v.get(a + "2_" + p, 0.0)
    lin = lambda t, p: (v["kappa_" + p] + 1j * v.get("omega_" + p, 0.0)) * t + c("gamma", p) * np.conj(t)
    quad = lambda t, p: 0.5 * (np.conj(c("F", p)) * t**2 + 2 * c("F", p) * abs(t) ** 2 + c("G", p) * np.conj(t) ** 2)
    t = x + 1j * y
    td = t - lin(t, "od") - quad(t, "od")
    a = main(td.real, td.imag)
    a = a[0] + 1j * a[1]
    if "FLEXION" not in los:
        return a - lin(a, "ds") + lin(t, "os")
    a0 = main(x, y)
    a0 = a0[0] + 1j * a0[1]
    F, G = c("F", "2ds"), c("G", "2ds")
    mixed = 2 * (np.conj(F) * t).real * a0 + (F * t + G * np.conj(t)) * np.conj(a0)
    return a + lin(t, "os") + quad(t, "os") - lin(a0, "ds") - mixed + quad(a0, "1ds")


def los_value_case(los, pos, rec):
    """non-zero corrections follow their definition, one at a time and together; Jacobian and Fermat potential belong to the deflection"""
    names = ["SIE", "NFW_MC"]
    kws = [lenslib.params(m, i) for i, m in enumerate(names)]
    zl = [0.5, 0.3]
    main = LensModel(names, lens_redshift_list=zl, z_lens=0.5, z_source=2.0, z_source_convention=2.0, cosmo=COSMO)
    full = names[:pos] + [los] + names[pos:]
    zf = zl[:pos] + [0.5] + zl[pos:]
    lm = LensModel(full, lens_redshift_list=zf, z_lens=0.5, z_source=2.0, z_source_convention=2.0, cosmo=COSMO)
    pn = lens_class(los).param_names
    f = lambda a, b: main.alpha(a, b, kws)
    sets = [{n: 0.0 for n in pn}] + [{n: (0.003 if n == m else 0.0) for n in pn} for m in pn]
    e = 0.25 if "FLEXION" in los else 1.0
    sets += [{n: 0.002 * e * (1 + j % 3) * (-1) ** j for j, n in enumerate(pn)}, {n: 0.0015 * e * (-1) ** (j // 2) * (not n.startswith("omega")) for j, n in enumerate(pn)}]
    h = 1e-4
    for i, val in enumerate(sets):
        kw = kws[:pos] + [val] + kws[pos:]
        what = "%s at %d, %s" % (los, pos, [n for n in pn if val[n]][:3])
        kw0 = snap(kw)
        got = lm.alpha(X, Y, kw)
        want = los_formula(los, val, f, X, Y)
        rec.same("los-deflection", got, [want.real, want.imag], 1e-7, 1e-9, what=what)
        # the flexion Jacobian is of first order in the corrections
        tol = 2e-4 if "FLEXION" in los else 3e-5
        px, mx = lm.alpha(X + h, Y, kw), lm.alpha(X - h, Y, kw)
        py, my = lm.alpha(X, Y + h, kw), lm.alpha(X, Y - h, kw)
        num = [(px[0] - mx[0]) / 2 / h, (py[0] - my[0]) / 2 / h, (px[1] - mx[1]) / 2 / h, (py[1] - my[1]) / 2 / h]
        rec.same("los-jacobian", lm.hessian(X, Y, kw), num, tol, tol, what=what)
        if "FLEXION" not in los and not any(val[n] for n in pn if n.startswith("omega")):
            # images are stationary points of the Fermat potential
            bx, by = lm.ray_shooting(X, Y, kw)
            gx = (lm.fermat_potential(X + h, Y, kw, bx, by) - lm.fermat_potential(X - h, Y, kw, bx, by)) / 2 / h
            gy = (lm.fermat_potential(X, Y + h, kw, bx, by) - lm.fermat_potential(X, Y - h, kw, bx, by)) / 2 / h
            rec.same("los-fermat", [gx, gy], [0 * X, 0 * X], 0, 1e-4, what=what)
            rec.same("los-fermat-source", lm.fermat_potential(X, Y, kw), lm.fermat_potential(X, Y, kw, bx, by), 1e-9, 1e-10, what=what)
        rec.unchanged("los-kwargs", kw0, kw)
        rec.trans(3)
        rec.state("%s%d%d" % (los, pos, i))


def cases(tier):
    out = ["profile|%s" % m for m in lenslib.plain()]
    out += ["subset|False", "subset|True"]
    out += ["shape|%s" % m for m in lenslib.plain() if m not in {"GNFW_ELLIPSE_GAUSS_DEC"}]
    out += ["los|%s|%d" % (m, p) for m in sorted(lenslib.LOS) for p in range(3)]
    out += ["losvalue|%s|%d" % (m, p) for m in sorted(lenslib.LOS) for p in range(3)]
    return sorted(out, key=lambda c: c.split("|")[1] not in SLOW)


def run_case(case, tier, rec):
    p = case.split("|")
    if p[0] == "profile":
        profile_case(p[1], tier, rec)
    elif p[0] == "subset":
        subset_case(p[1] == "True", rec)
    elif p[0] == "shape":
        shape_case(p[1], rec)
    elif p[0] == "losvalue":
        los_value_case(p[1], int(p[2]), rec)
    else:
        los_case(p[1], int(p[2]), rec)
