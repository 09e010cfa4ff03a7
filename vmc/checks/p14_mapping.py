"""P14: every source component is seen through the deflectors in front of its own redshift.

All assignments of up to three light components to source redshifts (and of the deflectors to lens planes), all deflection-scaling
lists, all selections and all histories of cosmology / distance-ratio parameters are compared with one ray-shooting per component
with a lens model built for exactly that redshift.
"""
import itertools

import numpy as np
from astropy.cosmology import FlatLambdaCDM, FlatwCDM

from lenstronomy.Data.imaging_data import ImageData
from lenstronomy.Data.psf import PSF
from lenstronomy.ImSim.image2source_mapping import Image2SourceMapping
from lenstronomy.ImSim.image_model import ImageModel
from lenstronomy.ImSim.tracer_model import TracerModelSource
from lenstronomy.LensModel.lens_model import LensModel
from lenstronomy.LightModel.light_model import LightModel
from vmc.core import snap

X = np.array([0.9, -0.3, 0.45, -1.1, 0.05, 1.4])
Y = np.array([0.2, 0.8, -0.7, -0.4, 1.2, 1.0])
LENS = ["SIE", "SHEAR", "SIS"]
KL = [dict(theta_E=0.7, e1=0.1, e2=-0.05, center_x=0.03, center_y=-0.02), dict(gamma1=0.04, gamma2=-0.03, ra_0=0, dec_0=0), dict(theta_E=0.2, center_x=0.4, center_y=0.3)]
SRC = ["GAUSSIAN", "SHAPELETS", "SERSIC_ELLIPSE"]
KS = [dict(amp=2.0, sigma=0.3, center_x=0.05, center_y=-0.1), dict(amp=np.array([1.0, -0.5, 0.7]), n_max=1, beta=0.4, center_x=-0.1, center_y=0.0),
      dict(amp=1.5, R_sersic=0.4, n_sersic=1.3, e1=0.1, e2=-0.1, center_x=0.1, center_y=0.1)]
ZL = {"a": [0.5, 0.5, 0.7], "b": [0.8, 0.3, 0.6], "c": [0.6, 1.1, 0.6], "d": [0.5, 0.5, 0.5]}
ZSRC = (0.4, 0.6, 1.0, 1.5)
NSPLIT = [1, 3, 1]
COSMOS = [dict(H0=70.0, Om0=0.3), dict(H0=60.0, Om0=0.25), dict(H0=75.0, Om0=0.4)]


def single(i, xs, ys):
    return LightModel([SRC[i]]).surface_brightness(xs, ys, [KS[i]])


def single_split(i, xs, ys):
    out = []
    for q in range(NSPLIT[i]):
        kw = dict(KS[i])
        if NSPLIT[i] == 1:
            kw["amp"] = 1.0
        else:
            kw["amp"] = np.eye(NSPLIT[i])[q]
        out.append(LightModel([SRC[i]]).surface_brightness(xs, ys, [kw]))
    return out


def selections(n):
    """(value of k, selected components) in every accepted form"""
    out = [(None, list(range(n)))] + [(i, [i]) for i in range(n)]
    for r in range(1, n + 1):
        for c in itertools.combinations(range(n), r):
            out.append((list(c), list(c)))
            out.append((tuple(c), list(c)))
    return out


def compare(rec, im, pos, what, special=None, sel=True):
    """pos[i]: expected source-plane position of component i"""
    n = len(pos)
    ks = snap(KS[:n])
    kl = snap(KL)
    for i in range(n):
        rec.same("image2source", np.array(im.image2source(X, Y, kl, i, special)), np.array(pos[i]), 1e-8, 1e-10, what="%s component %d" % (what, i))
    for k, chosen in selections(n) if sel else [(None, list(range(n)))]:
        exp = np.sum([single(i, *pos[i]) for i in chosen], axis=0)
        rec.same("flux", im.image_flux_joint(X, Y, kl, ks, special, k=k), exp, 1e-8, 1e-11, what="%s k=%s" % (what, k))
        rec.trans()
    resp, num = im.image_flux_split(X, Y, kl, ks, special)
    exp = np.array([r for i in range(n) for r in single_split(i, *pos[i])])
    if rec.same("split-number", (int(num), len(resp)), (sum(NSPLIT[:n]),) * 2, what=what):
        rec.same("split", np.array(resp), exp, 1e-8, 1e-11, what=what)
    rec.unchanged("args", (snap(KL), snap(KS[:n])), (kl, ks))
    rec.trans(n + 1)


def lens(zl, z, conv, cosmo=None, **kw):
    return LensModel(list(LENS), multi_plane=True, z_source=z, z_source_convention=conv, lens_redshift_list=list(zl), cosmo=cosmo, **kw)


def multi_case(zname, n, tier, rec):
    zl = ZL[zname]
    ref = {z: lens(zl, z, 1.5).ray_shooting(X, Y, snap(KL)) for z in ZSRC + (1.2,)}
    for zs in itertools.product(ZSRC, repeat=n):
        for zmax in (1.5, 1.0, 1.2):
            if max(zs) > zmax:
                continue
            im = Image2SourceMapping(lens(zl, zmax, 1.5), LightModel(SRC[:n], source_redshift_list=list(zs)))
            compare(rec, im, [ref[z] for z in zs], "deflectors at %s, sources at %s, lens model to %s" % (zl, zs, zmax), sel=(n < 3 or zmax == 1.5))
            rec.trace()
            rec.state("%s%s%s" % (zname, zs, zmax))
    im = Image2SourceMapping(lens(zl, 1.2, 1.5), LightModel(SRC[:n]))
    compare(rec, im, [ref[1.2]] * n, "deflectors at %s, no source redshifts" % zl)
    rec.outcome(ref)


def close_case(zname, tier, rec):
    """sources (and deflectors) at nearly equal redshifts"""
    zl = ZL[zname]
    Z = (0.98, 1.0, 1.02, 1.004) + ((min(zl) + 0.004, min(zl) - 0.004) if min(zl) > 0.01 else ())
    ref = {z: lens(zl, z, 1.5).ray_shooting(X, Y, snap(KL)) for z in Z}
    for zs in itertools.product(Z, repeat=3):
        im = Image2SourceMapping(lens(zl, 1.5, 1.5), LightModel(SRC[:3], source_redshift_list=list(zs)))
        compare(rec, im, [ref[z] for z in zs], "deflectors at %s, sources at %s" % (zl, zs), sel=len(set(zs)) == 3 and tier != "quick")
        rec.trace()
        rec.state("%s%s" % (zname, zs))


def single_case(n, tier, rec):
    a = np.array(LensModel(list(LENS)).alpha(X, Y, snap(KL)))
    xy = np.array([X, Y])
    for sc in itertools.product((None, 1.0, 0.5, 1.3, 0.0), repeat=n):
        if None in sc and any(s is not None for s in sc):
            continue
        none = None in sc
        im = Image2SourceMapping(LensModel(list(LENS)), LightModel(SRC[:n], deflection_scaling_list=None if none else list(sc)))
        compare(rec, im, [tuple(xy - (1.0 if none else s) * a) for s in sc], "scaling %s" % (sc,))
        rec.trace()
        rec.state(str(sc))
    rec.outcome(a)


def cosmology_case(zname, zs, model, tier, rec):
    """all sequences of three cosmologies through one mapping"""
    zl = ZL[zname]
    n = len(zs)
    kws = [dict(c, **({"w0": w} if model == "FlatwCDM" else {})) for c, w in zip(COSMOS, (-1.0, -0.8, -1.2))]
    cls = FlatwCDM if model == "FlatwCDM" else FlatLambdaCDM
    refs = []
    for kw in kws:
        refs.append([lens(zl, z, 1.5, cls(**kw)).ray_shooting(X, Y, snap(KL)) for z in zs])
    for seq in itertools.product(range(3), repeat=3 if tier == "quick" else 4):
        lm = lens(zl, 1.5, 1.5, cosmology_sampling=True, cosmology_model=model)
        im = Image2SourceMapping(lm, LightModel(SRC[:n], source_redshift_list=list(zs)))
        for step, c in enumerate(seq):
            sp = snap(kws[c])
            compare(rec, im, refs[c], "%s, cosmologies %s, step %d" % (zs, seq, step), special=sp, sel=False)
            rec.unchanged("special", kws[c], sp)
        rec.trace()
        rec.state("%s%s" % (zs, seq))
    rec.outcome(refs)


def ratio_reference(zl, zs, fac):
    """angular-diameter distances of the planes with the scaled ratios; rays stopped at every source plane in turn"""
    from astropy.cosmology import default_cosmology

    from lenstronomy.Cosmo.background import Background

    bg = Background(default_cosmology.get())
    planes = [0] + sorted(set(list(zl) + list(zs)))
    last = planes[-1]

    def d(a, b):
        if a == b:
            return 0.0
        v = bg.d_xy(a, b)
        if a == 0 or b == last:
            return v
        return v * fac["factor_beta_%d_%d" % (planes.index(a), planes.index(b))]

    order = sorted(range(len(zs)), key=lambda i: zs[i])
    x, y = np.zeros_like(X), np.zeros_like(Y)
    ax, ay = X.copy(), Y.copy()
    out = [None] * len(zs)
    z_now = 0
    for i in order:
        for zp in sorted(set(z for z in zl if z_now < z <= zs[i])):
            t = d(z_now, zp) * (1 + zp)
            x, y = x + ax * t, y + ay * t
            T = d(0, zp) * (1 + zp)
            mods = [j for j, z in enumerate(zl) if z == zp]
            dx, dy = LensModel([LENS[j] for j in mods]).alpha(x / T, y / T, [KL[j] for j in mods])
            f = bg.d_xy(0, 1.5) / bg.d_xy(zp, 1.5)
            ax, ay = ax - f * dx, ay - f * dy
            z_now = zp
        if zs[i] > z_now:
            t = d(z_now, zs[i]) * (1 + zs[i])
            x, y = x + ax * t, y + ay * t
            z_now = zs[i]
        T = d(0, zs[i]) * (1 + zs[i])
        out[i] = (x / T, y / T)
    return out


def ratio_case(zname, zs, tier, rec):
    """distance ratios between the planes as free parameters: all sequences of three parameter sets"""
    zl = ZL[zname]
    n = len(zs)
    num = len(set(list(zl) + list(zs))) - 1
    names = ["factor_beta_%d_%d" % (i, j) for j in range(1, num + 1) for i in range(1, j)]
    sets = [{k: 1.0 for k in names}, {k: 1.0 + 0.03 * (i + 1) for i, k in enumerate(names)}, {k: 0.95 + 0.02 * i for i, k in enumerate(names)}]
    refs = [ratio_reference(zl, zs, s) for s in sets]
    fid = [lens(zl, z, 1.5).ray_shooting(X, Y, snap(KL)) for z in zs]
    for i in range(n):
        rec.same("reference", np.array(refs[0][i]), np.array(fid[i]), 1e-8, 1e-9, what="reference recursion with unit factors")
    for seq in itertools.product(range(3), repeat=3):
        im = Image2SourceMapping(lens(zl, 1.5, 1.5, distance_ratio_sampling=True), LightModel(SRC[:n], source_redshift_list=list(zs)))
        for step, c in enumerate(seq):
            what = "deflectors %s sources %s parameter sets %s step %d" % (zl, zs, seq, step)
            ks, kl = snap(KS[:n]), snap(KL)
            exp = [single(i, *refs[c][i]) for i in range(n)]
            for k in [None] + list(range(n)):
                rec.same("ratio-flux", im.image_flux_joint(X, Y, kl, ks, snap(sets[c]), k=k), np.sum(exp, axis=0) if k is None else exp[k], 1e-8, 1e-10, what=what + " k=%s" % k)
                rec.trans()
            resp, num_r = im.image_flux_split(X, Y, kl, ks, snap(sets[c]))
            rec.same("ratio-split", np.array(resp), np.array([r for i in range(n) for r in single_split(i, *refs[c][i])]), 1e-8, 1e-10, what=what)
            first = [i for i in range(n) if zs[i] == min(zs)]
            for i in first:
                rec.same("ratio-position", np.array(im.image2source(X, Y, kl, i, snap(sets[c]))), np.array(refs[c][i]), 1e-8, 1e-10, what=what)
            rec.trans(2)
        rec.trace()
        rec.state("%s%s%s" % (zname, zs, seq))
    rec.outcome(refs)


N = 6


def tracer_case(ttype, part, de_lensed, tier, rec):
    """the tracer image is the light-weighted mean of the tracer, each partition with its own light"""
    dat = dict(image_data=np.ones((N, N)), ra_at_xy_0=-0.6, dec_at_xy_0=-0.7, transform_pix2angle=np.array([[0.25, 0.02], [-0.03, 0.28]]), background_rms=0.3, exposure_time=100)
    ker = np.array([[1.0, 2, 1], [3, 6, 2], [1, 2, 2]])
    parts = {"all": None, "split": [[0, 0], [1, 1]], "cross": [[0, 1], [1, 0]], "mixed": [[None, 0]], "list": [[[0, 1], 1]]}[part]
    for zs, seqs in itertools.product(("single", "multi", "scaled"), (0, 1)):
        if zs == "multi":
            lm = lens(ZL["a"], 1.5, 1.5)
            sm = lambda l: LightModel(list(l), source_redshift_list=[1.0, 1.5])
            pos = lambda x, y: [lens(ZL["a"], z, 1.5).ray_shooting(x, y, snap(KL)) for z in (1.0, 1.5)]
        else:
            lm = LensModel(list(LENS))
            sc = [1.0, 0.6] if zs == "scaled" else None
            sm = lambda l: LightModel(list(l), deflection_scaling_list=sc)

            def pos(x, y):
                a = np.array(lm.alpha(x, y, snap(KL)))
                return [tuple(np.array([x, y]) - (sc[i] if sc else 1.0) * a) for i in range(2)]
        lights = ["GAUSSIAN", "SERSIC_ELLIPSE"]
        kl_s = [KS[0], KS[2]]
        trac = ["GAUSSIAN", "UNIFORM"]
        kt = [[dict(amp=0.8, sigma=0.6, center_x=0.1, center_y=0.2), dict(amp=0.4)], [dict(amp=1.6, sigma=0.4, center_x=-0.1, center_y=0.0), dict(amp=0.9)]]
        mod = TracerModelSource(ImageData(**snap(dat)), PSF("PIXEL", kernel_point_source=ker.copy()), lm, sm(lights), tracer_source_class=sm(trac), tracer_partition=parts, tracer_type=ttype)
        grid = ImageData(**snap(dat))
        gx, gy = (g.ravel() for g in grid.pixel_coordinates)
        p = [(gx, gy)] * 2 if de_lensed else pos(gx, gy)
        from scipy.signal import convolve2d

        conv = lambda v: convolve2d(v.reshape(N, N), ker / ker.sum(), mode="same")
        area = grid.pixel_width ** 2
        sel = lambda k: [0, 1] if k is None else ([k] if np.isscalar(k) else list(k))
        for j in ((0, 1, 0) if seqs == 0 else (1, 0, 1)):
            num, den = np.zeros((N, N)), np.zeros((N, N))
            for kl_, kt_ in parts or [[None, None]]:
                lig = np.sum([LightModel([lights[i]]).surface_brightness(*p[i], [kl_s[i]]) for i in sel(kl_)], axis=0)
                tr = np.sum([LightModel([trac[i]]).surface_brightness(*p[i], [kt[j][i]]) for i in sel(kt_)], axis=0)
                num += conv(lig * (tr if ttype == "LINEAR" else 10 ** tr))
                den += conv(lig)
            exp = num / den if ttype == "LINEAR" else np.log10(num / den)
            what = "%s %s %s parameter set %d" % (ttype, part, zs, j)
            ks, kk, k3 = snap(KL), snap(kl_s), snap(kt[j])
            rec.same("tracer", mod.tracer_model(k3, ks, kk, de_lensed=de_lensed), exp, 1e-7, 1e-9, what=what)
            rec.unchanged("args", (KL, kl_s, kt[j]), (ks, kk, k3))
            if not de_lensed:
                L = mod.likelihood_data_given_model(k3, ks, kk)
                rec.same("tracer-likelihood", L, -0.5 * np.sum((exp - 1) ** 2 / (0.09 + np.maximum(exp, 0) / 100.0)), 1e-7, 1e-8, what=what)
            rec.trans(2)
        rec.trace()
        rec.state("%s%s%s%s%d" % (ttype, part, zs, de_lensed, seqs))
        rec.outcome(exp)


def cases(tier):
    out = ["multi|%s|%d" % (z, n) for z in ZL for n in (1, 2, 3)] + ["single|%d" % n for n in (1, 2, 3)] + ["close|" + z for z in ZL]
    zs = [(1.5,), (1.0, 1.5), (1.5, 0.6), (1.0, 1.0), (0.4, 1.5, 1.0), (1.5, 1.5)]
    out += ["cosmology|%s|%d|%s" % (z, i, m) for z in ("a", "b") for i in range(len(zs)) for m in ("FlatLambdaCDM", "FlatwCDM")]
    zr = RATIO
    out += ["ratio|%s|%d" % (z, i) for z in ("a", "b", "d") for i in range(len(zr))]
    out += ["tracer|%s|%s|%d" % (t, p, d) for t in ("LINEAR", "LOG") for p in ("all", "split", "cross", "mixed", "list") for d in (0, 1)]
    return out


COS = [(1.5,), (1.0, 1.5), (1.5, 0.6), (1.0, 1.0), (0.4, 1.5, 1.0), (1.5, 1.5)]
RATIO = [(1.5,), (1.0, 1.5), (1.5, 1.0), (0.6, 1.5), (1.5, 0.6, 1.0), (1.0, 1.5, 1.0), (1.5, 0.4)]


def run_case(case, tier, rec):
    t = case.split("|")
    if t[0] == "multi":
        multi_case(t[1], int(t[2]), tier, rec)
    elif t[0] == "close":
        close_case(t[1], tier, rec)
    elif t[0] == "single":
        single_case(int(t[1]), tier, rec)
    elif t[0] == "cosmology":
        cosmology_case(t[1], COS[int(t[2])], t[3], tier, rec)
    elif t[0] == "ratio":
        ratio_case(t[1], RATIO[int(t[2])], tier, rec)
    else:
        tracer_case(t[1], t[2], bool(int(t[3])), tier, rec)
