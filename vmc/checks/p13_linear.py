"""P13: amplitudes are solved for linearly, and the solution is the image it claims to be.

For every model set-up the response matrix is compared, row by row, with the image of the single unit amplitude; the solution is
compared with the normal equations and with the image rendered from the updated amplitudes; all small systems are solved.
"""
import itertools

import numpy as np

from lenstronomy.Data.imaging_data import ImageData
from lenstronomy.ImSim import de_lens
from lenstronomy.ImSim.differential_extinction import DifferentialExtinction
from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
from lenstronomy.ImSim.image_model import ImageModel
from lenstronomy.LensModel.lens_model import LensModel
from lenstronomy.LightModel.light_model import LightModel
from lenstronomy.PointSource.point_source import PointSource
from vmc.checks import p12_image as p12
from vmc.core import snap

N = p12.N
RNG = dict(GAUSSIAN=dict(sigma=0.25), GAUSSIAN_ELLIPSE=dict(sigma=0.3, e1=0.1, e2=-0.1), SERSIC=dict(R_sersic=0.4, n_sersic=1.5), UNIFORM={},
           SERSIC_ELLIPSE=dict(R_sersic=0.35, n_sersic=1.1, e1=-0.1, e2=0.15), SHAPELETS=dict(n_max=2, beta=0.3), SHAPELETS_POLAR=dict(n_max=2, beta=0.35),
           SHAPELETS_POLAR_EXP=dict(n_max=1, beta=0.3), MULTI_GAUSSIAN=dict(sigma=np.array([0.2, 0.5])), MULTI_GAUSSIAN_ELLIPSE=dict(sigma=np.array([0.15, 0.4]), e1=0.1, e2=0.05),
           CHAMELEON=dict(w_c=0.2, w_t=0.5, e1=0.1, e2=0.0), DOUBLE_CHAMELEON=dict(ratio=1.5, w_c1=0.2, w_t1=0.5, e11=0.1, e21=0.0, w_c2=0.1, w_t2=0.7, e12=0.0, e22=0.1),
           CORE_SERSIC=dict(R_sersic=0.4, Rb=0.1, n_sersic=1.5, gamma=0.5, e1=0.1, e2=0), HERNQUIST=dict(Rs=0.4), HERNQUIST_ELLIPSE=dict(Rs=0.4, e1=0.1, e2=0.1),
           PJAFFE=dict(Ra=0.3, Rs=0.6), POWER_LAW=dict(gamma=2.1, e1=0.1, e2=0.05), NIE=dict(e1=0.1, e2=0.05, s_scale=0.2), ELLIPSOID=dict(radius=0.6, e1=0.1, e2=0.0),
           SHAPELETS_ELLIPSE=dict(n_max=1, beta=0.3, e1=0.1, e2=0.0), TRIPLE_CHAMELEON=None,
           INTERPOL=dict(image=np.array([[1.0, 2, 1, 0], [0, 3, 2, 1], [2, 1, 4, 0], [1, 1, 2, 2]]), phi_G=0.2, scale=0.4))
NUM_AMP = dict(SHAPELETS=6, SHAPELETS_POLAR=6, SHAPELETS_POLAR_EXP=4, MULTI_GAUSSIAN=2, MULTI_GAUSSIAN_ELLIPSE=2, SHAPELETS_ELLIPSE=3)


LONG = dict(SHAPELETS_LONG=("SHAPELETS", dict(n_max=4, beta=0.3), 15), MULTI_LONG=("MULTI_GAUSSIAN", dict(sigma=np.linspace(0.1, 0.9, 14)), 14))


def base(m):
    return LONG[m][0] if m in LONG else m


def light_kw(m, i, j=0):
    if m in LONG:
        return dict(LONG[m][1], amp=1.5 + 0.4 * np.cos(1.9 * np.arange(LONG[m][2]) + i), center_x=0.08 * (i - 1) + 0.02 * j, center_y=-0.05 * i + 0.03)
    kw = dict(RNG[m])
    n = NUM_AMP.get(m, 1)
    a = 1.5 + 0.4 * np.cos(1.9 * np.arange(n) + i + 0.3 * j)
    kw["amp"] = a if n > 1 else float(a[0])
    if m != "UNIFORM":
        kw.update(center_x=0.08 * (i - 1) + 0.02 * j, center_y=-0.05 * i + 0.03)
    return kw


KL = [dict(theta_E=0.8, e1=0.1, e2=0.05, center_x=0.02, center_y=-0.03), dict(gamma1=0.03, gamma2=-0.02, ra_0=0, dec_0=0)]


def ps_setup(kind):
    """(types, options, kwargs)"""
    lp = dict(ra_image=np.array([0.61, -0.4]), dec_image=np.array([0.2, 0.53]), point_amp=np.array([3.0, 2.0]))
    ul = dict(ra_image=np.array([-0.33, 0.1]), dec_image=np.array([-0.45, -0.6]), point_amp=np.array([4.0, 1.0]))
    sp = dict(ra_source=0.03, dec_source=0.05, point_amp=np.array([1.0, 2.0]))
    spf = dict(ra_source=0.03, dec_source=0.05, source_amp=1.3)
    lpf = dict(ra_image=np.array([0.61, -0.4]), dec_image=np.array([0.2, 0.53]), source_amp=1.7)
    return {"none": ([], {}, []), "lensed": (["LENSED_POSITION"], {}, [lp]), "two": (["LENSED_POSITION", "UNLENSED"], {}, [lp, ul]),
            "swap": (["UNLENSED", "LENSED_POSITION"], {}, [ul, lp]),
            "fixmag": (["UNLENSED", "LENSED_POSITION"], dict(fixed_magnification_list=[False, True]), [ul, lpf]),
            "source": (["SOURCE_POSITION", "UNLENSED"], dict(fixed_magnification_list=[True, False]), [spf, ul]),
            "source-free": (["UNLENSED", "SOURCE_POSITION"], {}, [ul, sp]),
            "noflux": (["LENSED_POSITION", "UNLENSED"], dict(flux_from_point_source_list=[False, True]), [lp, ul])}[kind]


PLANES = {
    "one": dict(),
    "scaled": dict(deflection=[1.0, 0.6, 0.8]),
    "multi-same": dict(multi=True),
    "multi": dict(multi=True, z=[1.5, 0.9, 1.2]),
    "multi-desc": dict(multi=True, z=[1.5, 1.2, 0.4]),
    "multi-equal": dict(multi=True, z=[1.2, 1.5, 1.2]),
}
SRC_LISTS = [["GAUSSIAN", "SHAPELETS", "SERSIC_ELLIPSE"], ["MULTI_GAUSSIAN", "GAUSSIAN", "SHAPELETS_POLAR"]]


def build(cfg, cls=ImageLinearFit, dat=None):
    types, opt, kp = ps_setup(cfg["ps"])
    pl = PLANES[cfg["planes"]]
    src = [base(m) for m in cfg["src"]]
    if pl.get("multi"):
        lm = LensModel(["SIE", "SHEAR"], multi_plane=True, z_source=1.5, lens_redshift_list=[0.5, 0.7])
        sm = LightModel(list(src), source_redshift_list=pl["z"][: len(src)] if "z" in pl else None)
    else:
        lm = LensModel(["SIE", "SHEAR"])
        sm = LightModel(list(src), deflection_scaling_list=pl["deflection"][: len(src)] if "deflection" in pl else None)
    d = dat if dat is not None else p12.data(cfg.get("pb", False), cfg.get("scale", 1), method=cfg.get("method", "diagonal"))
    return cls(d, p12.PSFS[cfg["psf"]](), lm, sm, LightModel([base(m) for m in cfg["ll"]]), PointSource(list(types), **opt),
               DifferentialExtinction(["GAUSSIAN"]) if cfg.get("ext") else None, dict(p12.NUM[cfg.get("num", "plain")]), p12.mask(cfg.get("mask", 0)))


def kwargs(cfg):
    _, _, kp = ps_setup(cfg["ps"])
    return dict(kwargs_lens=snap(KL), kwargs_source=[light_kw(m, i) for i, m in enumerate(cfg["src"])], kwargs_lens_light=[light_kw(m, i, 1) for i, m in enumerate(cfg["ll"])],
                kwargs_ps=snap(kp), kwargs_extinction=p12.kw_set(0)["kwargs_extinction"] if cfg.get("ext") else None)


def unit_kwargs(cfg, kw):
    """for every amplitude, in the documented order, the keyword arguments with this amplitude one and all others zero"""
    slots = []
    for grp in ("kwargs_source", "kwargs_lens_light"):
        for i, k in enumerate(kw[grp]):
            n = len(k["amp"]) if np.ndim(k["amp"]) else 1
            slots += [(grp, i, "amp", q if np.ndim(k["amp"]) else None) for q in range(n)]
    flux = ps_setup(cfg["ps"])[1].get("flux_from_point_source_list", [True] * 9)
    for i, k in enumerate(kw["kwargs_ps"]):
        if not flux[i]:
            continue
        if "source_amp" in k:
            slots.append(("kwargs_ps", i, "source_amp", None))
        else:
            slots += [("kwargs_ps", i, "point_amp", q) for q in range(len(k["point_amp"]))]
    zero = snap(kw)
    for grp, names in (("kwargs_source", ("amp",)), ("kwargs_lens_light", ("amp",)), ("kwargs_ps", ("source_amp", "point_amp"))):
        for k in zero[grp]:
            for nme in names:
                if nme in k:
                    k[nme] = k[nme] * 0.0
    vals = []
    out = []
    for grp, i, nme, q in slots:
        k = snap(zero)
        if q is None:
            k[grp][i][nme] = 1.0
            vals.append(kw[grp][i][nme])
        else:
            k[grp][i][nme] = np.array(k[grp][i][nme], dtype=float)
            k[grp][i][nme][q] = 1.0
            vals.append(kw[grp][i][nme][q])
        out.append(k)
    return slots, out, np.array(vals, dtype=float)


def arg(kw, sp):
    return (kw["kwargs_lens"], kw["kwargs_source"], kw["kwargs_lens_light"], kw["kwargs_ps"], kw["kwargs_extinction"], sp)


def configs():
    out = {}
    for s, ps, pl in itertools.product((0, 1), ("none", "lensed", "two", "swap", "fixmag", "source", "source-free", "noflux"), PLANES):
        if ps.startswith("source") and pl not in ("one", "multi"):
            continue
        out["a%d-%s-%s" % (s, ps, pl)] = dict(src=SRC_LISTS[s], ll=["SERSIC", "UNIFORM"], ps=ps, planes=pl, psf="pix")
    for psf, num, pb, ext, m in itertools.product(p12.PSFS, p12.NUM, (0, 1), (0, 1), (0, 1)):
        if psf == "gauss" and num == "adapt" or pb and num in ("ss2", "ss3c", "adapt"):
            continue
        out["b%s-%s-%d%d%d" % (psf, num, pb, ext, m)] = dict(src=SRC_LISTS[0][:2], ll=["GAUSSIAN"], ps="two", planes="one", psf=psf, num=num, pb=bool(pb), ext=bool(ext), mask=m, scale=1 + m)
    out["dmany"] = dict(src=["SHAPELETS_LONG"], ll=["MULTI_LONG", "SHAPELETS"], ps="two", planes="one", psf="gauss")
    out["dmany2"] = dict(src=["MULTI_LONG", "GAUSSIAN"], ll=["UNIFORM", "SHAPELETS_LONG"], ps="lensed", planes="one", psf="none")
    for m in RNG:
        if RNG[m] is not None:
            out["c" + m] = dict(src=["GAUSSIAN", m], ll=[m, "UNIFORM"] if m != "UNIFORM" else [m], ps="none", planes="one", psf="gauss")
    return out


SP = [None, dict(kwargs_offsets=[dict(ra_shift=0.05, dec_shift=-0.03, phi_rot=0.1)]),
      dict(delta_x_image=np.array([0.03, -0.05, 0.11]), delta_y_image=np.array([-0.02, 0.04, 0.06]))]


def response_case(name, tier, rec):
    cfg = configs()[name]
    for s, sp in enumerate(SP):
        if s == 2 and (cfg["ps"] in ("none", "lensed", "source", "source-free", "noflux", "fixmag")):
            continue
        if s and name[0] != "b":
            continue
        kw = kwargs(cfg)
        kw0 = snap(kw)
        slots, units, vals = unit_kwargs(cfg, kw)
        im = build(cfg)
        m = p12.mask(cfg.get("mask", 0)).ravel() > 0
        for unconv in (False, True):
            what = "%s special %d unconvolved %s" % (name, s, unconv)
            if not rec.same("count", im.num_param_linear(*arg(kw, sp)[:4]), len(slots), what=what):
                continue
            A = im.linear_response_matrix(*arg(kw, sp), unconvolved=unconv)
            rec.same("shape", A.shape, (len(slots), int(m.sum())), what=what)
            fresh = build(cfg, ImageModel)
            full = np.array([fresh.image(*arg(u, sp), unconvolved=unconv).ravel()[m] for u in units])
            if unconv:  # documented: "will not work for point sources"
                ext = [i for i, q in enumerate(slots) if q[0] != "kwargs_ps"]
                if not cfg.get("pb"):  # with a primary beam an existing test fixes it to the response of the sky
                    rec.same("rows", A[ext], full[ext], 1e-8, 1e-10, what=what)
                continue
            Ac = A
            rec.same("rows", A, full, 1e-8, 1e-10, what=what)
            total = fresh.image(*arg(kw, sp), unconvolved=unconv).ravel()[m]
            rec.same("sum", A.T.dot(vals), total, 1e-8, 1e-9, what=what)
            rec.trans(len(slots) + 2)
        rec.unchanged("args", kw0, kw)
        par = im.linear_param_from_kwargs(kw["kwargs_source"], kw["kwargs_lens_light"], kw["kwargs_ps"])
        rec.same("param-from-kwargs", np.array(par, dtype=float), vals, 1e-12, what=name)
        new = np.arange(len(vals)) + 0.5
        k2 = snap(kw)
        im.update_linear_kwargs(new, *arg(k2, sp)[:4])
        rec.same("update-roundtrip", np.array(im.linear_param_from_kwargs(k2["kwargs_source"], k2["kwargs_lens_light"], k2["kwargs_ps"]), dtype=float), new, 1e-12, what=name)
        rec.same("update-image", build(cfg, ImageModel).image(*arg(k2, sp)).ravel()[m], Ac.T.dot(new), 1e-8, 1e-9, what=name)
        rec.trace()
        rec.state("%s%d" % (name, s))
        rec.outcome(Ac)


def solve_case(name, tier, rec):
    cfg = configs()[name]
    sps = [SP[0]] if name[0] != "b" else SP
    for s, (sp, truth) in enumerate(itertools.product(sps, (False, True))):
        kw = kwargs(cfg)
        m = p12.mask(cfg.get("mask", 0)).ravel() > 0
        slots, units, vals = unit_kwargs(cfg, kw)
        dat = p12.data(cfg.get("pb", False), cfg.get("scale", 1))
        if truth:
            dat.update_data(build(cfg, ImageModel).image(*arg(kw, sp)))
        im = build(cfg, dat=dat)
        fresh = build(cfg, ImageModel)
        A = np.array([fresh.image(*arg(u, sp)).ravel()[m] for u in units])
        pix = dat.data
        em = build(cfg, ImageModel, dat=snap(dat))
        em.update_pixel_grid_coordinates(kwargs_special=sp)
        err = em.error_response(kw["kwargs_lens"], kw["kwargs_ps"], kwargs_special=sp)[1]
        var = ((0.2 ** 2 + np.maximum(pix, 0) / 50.0) + err).ravel()[m]
        Mx = (A / var).dot(A.T)
        b = (A / var).dot(pix.ravel()[m])
        what = "%s special %s noiseless data %s" % (name, s // 2, truth)
        cond = np.linalg.cond(Mx)
        res = []
        for inv in (False, True):
            k2 = snap(kw)
            mod, e, cov, par = im.image_linear_solve(*arg(k2, sp), inv_bool=inv)
            if cond > 1e7:
                rec.true("degenerate", np.all(np.isfinite(par)), what)
                continue
            scale = np.abs(b).max()
            rec.same("normal-equations", Mx.dot(par) / scale, b / scale, 1e-6, 1e-7, what=what)
            if truth:
                rec.same("recovery", par, vals, 1e-5 + 1e-14 * cond, 1e-6 + 1e-14 * cond, what=what)
            img = np.zeros(N * N)
            img[m] = A.T.dot(par)
            rec.same("model", mod, img.reshape(N, N), 1e-7, 1e-8, what=what)
            rec.same("model-error", e, err, 1e-8, 1e-12, what=what)
            again = build(cfg, ImageModel).image(*arg(k2, sp)).ravel()
            again[~m] = 0
            rec.same("updated-kwargs", again.reshape(N, N), mod, 1e-7, 1e-8, what=what)
            if inv:
                rec.same("covariance", cov.dot(Mx), np.eye(len(vals)), 1e-5, 1e-5, what=what)
            for marg, pos, prior in itertools.product((False, True), (False, True), (None, 3.0)):
                if prior and not marg:
                    continue
                k3 = snap(kw)
                L, p3 = im.likelihood_data_given_model(*arg(k3, sp), source_marg=marg, check_positive_flux=pos, linear_prior=prior)
                vm = 0.2 ** 2 + np.maximum(mod, 0) / 50.0
                exp = -0.5 * np.sum(((mod - pix) ** 2 / (vm + np.abs(err))).ravel()[m])
                if marg:
                    ev = np.linalg.eigvalsh(np.linalg.inv(Mx))
                    if prior is None:
                        exp += 0.5 * np.sum(np.log(ev))
                    else:
                        exp += 0.5 * np.sum(np.log(np.minimum(ev, prior ** 2))) + len(ev) / 2.0 * np.log(np.pi / 2) - len(ev) * np.log(prior)
                if pos:
                    if not im.check_positive_flux(k3["kwargs_source"], k3["kwargs_lens_light"], k3["kwargs_ps"]):
                        exp -= 1e8
                rec.same("likelihood", L, exp, 1e-6, 1e-5, what=what + " marginalised %s positive %s prior %s" % (marg, pos, prior))
                rec.same("likelihood-param", p3, par, 1e-6, 1e-7, what=what)
                rec.trans()
            rec.trans()
        rec.trace()
        rec.state(what)
        rec.outcome(par)


def interferometry_case(psf, ps, pb, tier, rec):
    """natural weighting: the model is a pair (clean, dirty) and the amplitudes minimise (x A x - 2 x d)"""
    cfg = dict(src=["GAUSSIAN", "SHAPELETS"], ll=["GAUSSIAN"], ps=ps, planes="one", psf=psf, pb=pb, scale=2.0, method="interferometry_natwt")
    for sp in SP:
        if sp is not None and "delta_x_image" in sp and ps == "none":
            continue
        kw = kwargs(cfg)
        slots, units, vals = unit_kwargs(cfg, kw)
        im = build(cfg)
        clean = build(cfg, ImageModel)
        # positions of the point sources are put on the nearest pixel in the unconvolved image
        A = im.linear_response_matrix_interferometry_unconvolved(*arg(kw, sp))
        n_ext = sum(1 for q in slots if q[0] != "kwargs_ps")
        ref = np.array([clean.image(*arg(u, sp), unconvolved=True).ravel() for u in units])
        rec.same("clean-rows", A[:n_ext], ref[:n_ext], 1e-8, 1e-10, what="%s %s %s" % (psf, ps, sp))
        for i in range(n_ext, len(slots)):
            f = clean.image(*arg(units[i], sp), unconvolved=True)
            rec.same("clean-point-flux", A[i].sum(), f.sum(), 1e-8, 1e-10, what="%s %s %s" % (psf, ps, sp))
        ker = p12.PSFS[psf]().kernel_point_source
        from scipy.signal import convolve2d

        dirty = np.array([convolve2d(a.reshape(N, N), ker, mode="same").ravel() for a in A])
        Mx, b = A.dot(dirty.T) / 0.04, A.dot(im.Data.data.ravel()) / 0.04
        Mx = np.triu(Mx) + np.triu(Mx, 1).T
        for inv in (False, True):
            k2 = snap(kw)
            mod, e, cov, par = im.image_linear_solve(*arg(k2, sp), inv_bool=inv)
            rec.same("normal-equations", Mx.dot(par) / np.abs(b).max(), b / np.abs(b).max(), 1e-6, 1e-7, what="%s %s" % (psf, ps))
            rec.same("clean", mod[0], A.T.dot(par).reshape(N, N), 1e-8, 1e-9, what="%s %s" % (psf, ps))
            rec.same("dirty", mod[1], dirty.T.dot(par).reshape(N, N), 1e-7, 1e-8, what="%s %s" % (psf, ps))
            if inv:
                rec.same("covariance", cov.dot(Mx), np.eye(len(vals)), 1e-5, 1e-5, what="%s %s" % (psf, ps))
            got = im.linear_param_from_kwargs(k2["kwargs_source"], k2["kwargs_lens_light"], k2["kwargs_ps"])
            rec.same("updated", np.array(got, dtype=float), par, 1e-10, what="%s %s" % (psf, ps))
            L, _ = im.likelihood_data_given_model(*arg(snap(kw), sp))
            rec.same("likelihood", L, -(np.sum(mod[0] * mod[1]) - 2 * np.sum(mod[0] * im.Data.data)) / 0.08, 1e-7, 1e-6, what="%s %s" % (psf, ps))
            rec.trans(3)
        rec.trace()
        rec.state("%s%s%s" % (psf, ps, sorted(sp or {})))
        rec.outcome(par)


def algebra_case(n, tier, rec):
    """every small system with entries from a small alphabet"""
    vals = (0.0, 1.0, -2.0)
    d = np.array([1.0, -0.5, 2.0])
    w = np.array([1.0, 4.0, 0.25])
    for ent in itertools.product(vals, repeat=3 * n):
        A = np.array(ent).reshape(3, n)
        Mx = A.T.dot(w[:, None] * A)
        ok = np.linalg.matrix_rank(A) == n
        sols = []
        for inv in (False, True):
            A0 = A.copy()
            B, Mi, img = de_lens.get_param_WLS(A, w, d, inv_bool=inv)
            rec.unchanged("args", A0, A)
            rec.same("image", img, A.dot(B), 1e-9, 1e-10, what=str(ent))
            if ok:
                rec.same("solution", B, np.linalg.lstsq(A * np.sqrt(w)[:, None], d * np.sqrt(w), rcond=None)[0], 1e-6, 1e-8, what=str(ent))
                if inv:
                    rec.same("inverse", Mi.dot(Mx), np.eye(n), 1e-7, 1e-8, what=str(ent))
                    rec.same("marginalisation", de_lens.marginalisation_const(Mi), -0.5 * np.log(np.linalg.det(Mx)), 1e-7, 1e-8, what=str(ent))
                    ev = np.linalg.eigvalsh(Mi)
                    for pr in (0.5, 10.0):
                        rec.same("prior", de_lens.marginalization_new(Mi, pr), 0.5 * np.sum(np.log(np.minimum(ev, pr ** 2))) + n / 2 * np.log(np.pi / 2) - n * np.log(pr), 1e-6, 1e-7, what=str(ent))
                    rec.same("no-prior", de_lens.marginalization_new(Mi, None), de_lens.marginalisation_const(Mi), 1e-12, what=str(ent))
            else:
                rec.true("singular", np.all(np.isfinite(B)), str(ent))
            p2, M2 = de_lens.get_param_WLS_interferometry(Mx, A.T.dot(w * d), inv_bool=inv)
            rec.same("interferometry", p2, B, 1e-7, 1e-9, what=str(ent))
            rec.trans(2)
        rec.trace()
        rec.state(str(ent))
        rec.outcome(B)


def scale_case(tier, rec):
    """amplitudes of very different units, and nearly equal components: still the solution of the normal equations"""
    rng = np.random.RandomState(3)
    x = np.linspace(-1, 1, 12)
    base_ = np.array([np.ones(12), x, x ** 2, np.sin(3 * x)]).T
    w = 1.0 / (0.5 + 0.1 * np.arange(12))
    for n, e in itertools.product((2, 3, 4), itertools.product((-4, 0, 4), repeat=4)):
        sc = 10.0 ** np.array(e[:n])
        A = base_[:, :n] * sc
        truth = (1.0 + 0.3 * np.arange(n)) / sc
        cond = np.linalg.cond(A.T.dot(w[:, None] * A))
        if cond > 1e14 or any(e[n:]):
            continue
        for inv in (False, True):
            B, Mi, img = de_lens.get_param_WLS(A, w, A.dot(truth), inv_bool=inv)
            rec.same("scaled-image", img, A.dot(truth), 1e-4, 1e-6, what="scales %s" % (e[:n],))
            rec.same("scaled-solution", B * sc, truth * sc, 1e-3, what="scales %s" % (e[:n],))
            p2, M2 = de_lens.get_param_WLS_interferometry(A.T.dot(w[:, None] * A), A.T.dot(w * A.dot(truth)), inv_bool=inv)
            rec.same("scaled-interferometry", p2 * sc, truth * sc, 1e-3, what="scales %s" % (e[:n],))
            rec.trans(2)
        rec.state("scales %d %s" % (n, e[:n]))
    for eps in (1e-2, 1e-3, 1e-4, 1e-5):
        A = np.array([np.ones(12), np.ones(12) + eps * x]).T
        truth = np.array([1.0, 2.0])
        for inv in (False, True):
            B, Mi, img = de_lens.get_param_WLS(A, w, A.dot(truth), inv_bool=inv)
            rec.same("similar-image", img, A.dot(truth), 1e-4, 1e-6, what="difference %g" % eps)
            rec.same("similar-solution", B.sum(), 3.0, 1e-3, what="difference %g" % eps)
            rec.trans()
        rec.state("similar %g" % eps)
    rec.trace()


def cases(tier):
    c = configs()
    out = ["response|" + n for n in c] + ["solve|" + n for n in c]
    out += ["interferometry|%s|%s|%d" % (p, s, b) for p in ("pix", "none") for s in ("none", "two", "fixmag") for b in (0, 1)]
    out += ["scale"]
    out += ["algebra|%d" % n for n in ((1, 2) if tier == "quick" else (1, 2, 3))]
    return out


def run_case(case, tier, rec):
    t = case.split("|")
    if t[0] == "scale":
        scale_case(tier, rec)
    elif t[0] == "response":
        response_case(t[1], tier, rec)
    elif t[0] == "solve":
        solve_case(t[1], tier, rec)
    elif t[0] == "interferometry":
        interferometry_case(t[1], t[2], bool(int(t[3])), tier, rec)
    else:
        algebra_case(int(t[1]), tier, rec)
