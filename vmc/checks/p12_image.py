"""P12: a simulated image is the sum of its declared components, each rendered as if it were alone, whatever was asked before.

Every combination of the rendering options (PSF kind, supersampling, primary beam, flux scaling, extinction, alignment offsets,
astrometric shifts of the point sources) and every component selection is compared with an assembly from the single profiles on a
freshly built grid; every sequence of queries and updates up to a depth is compared with a fresh object.
"""
import itertools

import numpy as np

from lenstronomy.Data.imaging_data import ImageData
from lenstronomy.Data.psf import PSF
from lenstronomy.ImSim.differential_extinction import DifferentialExtinction
from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
from lenstronomy.ImSim.image_model import ImageModel
from lenstronomy.ImSim.Numerics.numerics_subframe import NumericsSubFrame
from lenstronomy.LensModel.lens_model import LensModel
from lenstronomy.LightModel.light_model import LightModel
from lenstronomy.PointSource.point_source import PointSource
from vmc.core import snap

N = 8
M = np.array([[0.23, 0.03], [-0.02, 0.27]])
RA0, DEC0 = -0.85, -0.9


def kernel(n, seed):
    g = np.arange(n * n, dtype=float).reshape(n, n)
    k = 1 + 0.4 * np.sin(1.3 * g + seed)
    c = np.arange(n) - n // 2
    k += 5 * np.exp(-(c[:, None] ** 2 + c[None, :] ** 2) / (n / 3.0) ** 2)
    return k / k.sum()


PSFS = {
    "none": lambda: PSF(psf_type="NONE"),
    "gauss": lambda: PSF(psf_type="GAUSSIAN", fwhm=0.5, truncation=3),
    "pix": lambda: PSF(psf_type="PIXEL", kernel_point_source=kernel(5, 0), psf_variance_map=kernel(5, 2) ** 2 * 0.3),
    "pix2": lambda: PSF(psf_type="PIXEL", kernel_point_source=kernel(9, 1), point_source_supersampling_factor=2),
}

LENS = ["SIE", "SHEAR"]
SRC = ["GAUSSIAN", "SHAPELETS", "SERSIC_ELLIPSE"]
LL = ["SERSIC", "UNIFORM"]
PS = ["LENSED_POSITION", "UNLENSED"]


def kw_set(j):
    d = 0.07 * j
    return dict(
        kwargs_lens=[dict(theta_E=0.8 + d, e1=0.1 - d, e2=0.05, center_x=0.02, center_y=-0.03 + d), dict(gamma1=0.03, gamma2=-0.02 + d, ra_0=0, dec_0=0)],
        kwargs_source=[dict(amp=2.0 + j, sigma=0.2 + d, center_x=0.1, center_y=-0.05), dict(amp=np.array([1.0, -0.4, 0.6 + d]), n_max=1, beta=0.3, center_x=-0.1 + d, center_y=0.0),
                       dict(amp=1.5, R_sersic=0.3, n_sersic=1.2, e1=0.1, e2=d, center_x=0.0, center_y=0.2)],
        kwargs_lens_light=[dict(amp=4.0 - j, R_sersic=0.5 + d, n_sersic=2.0, center_x=0.05, center_y=0.1), dict(amp=0.3 + j)],
        kwargs_ps=[dict(ra_image=np.array([0.61 + d, -0.4]), dec_image=np.array([0.2, 0.53 - d]), point_amp=np.array([3.0, 2.0 + j])), dict(ra_image=np.array([-0.33]), dec_image=np.array([-0.45 + d]), point_amp=np.array([4.0]))],
        kwargs_extinction=[dict(amp=0.5, sigma=0.6, center_x=0.1, center_y=0.2 - d)],
    )


OFFSETS = [None, [dict(ra_shift=0.05, dec_shift=-0.03)], [dict(ra_shift=0.05, dec_shift=0.02, phi_rot=0.2)], [dict(ra_shift=0, dec_shift=0, phi_rot=0)]]
SHIFT = dict(delta_x_image=np.array([0.03, -0.05, 0.11]), delta_y_image=np.array([-0.02, 0.04, 0.06]))


def special(off, shift, tau):
    s = {}
    if OFFSETS[off] is not None:
        s["kwargs_offsets"] = OFFSETS[off]
    if shift:
        s.update(SHIFT)
    if tau:
        s["tau0_list"] = [0.7, 1.4]
    return s


def beam():
    g = np.arange(N) - 3.0
    return np.exp(-(g[:, None] ** 2 + 0.6 * (g[None, :] - 0.5) ** 2) / 30.0)


def pixels(seed=0):
    g = np.arange(N * N, dtype=float).reshape(N, N)
    return 3 + np.sin(0.9 * g + seed) + 0.02 * g


def data(pb=False, scale=1, seed=0, method="diagonal", ra=RA0):
    kw = dict(image_data=pixels(seed), background_rms=0.2, exposure_time=50.0, ra_at_xy_0=ra, dec_at_xy_0=DEC0, transform_pix2angle=M, flux_scaling=scale, likelihood_method=method)
    if pb:
        kw["antenna_primary_beam"] = beam()
    return ImageData(**kw)


def mask(kind):
    m = np.ones((N, N))
    if kind == 1:
        m[1:3, 4] = 0
        m[7, :] = 0
    return m


def model(psf, numerics, pb, scale, ext, cls=ImageModel, msk=0, ps=PS, save=False, dat=None, src=SRC, ll=LL):
    return cls(dat if dat is not None else data(pb, scale), PSFS[psf](), LensModel(LENS), LightModel(list(src)), LightModel(list(ll)), PointSource(list(ps), save_cache=save),
               DifferentialExtinction(["GAUSSIAN"], tau0_index=1) if ext else None, dict(numerics), mask(msk))


def reference(psf, numerics, pb, scale, ext, kw, sp, dat=None, unconvolved=False, beam_on=True):
    """images of every single component, on a grid built with the alignment from the start"""
    d = dat if dat is not None else data(pb, scale)
    if sp.get("kwargs_offsets"):
        d.update_coordinate_grid(**sp["kwargs_offsets"][0])
    p = PSFS[psf]()
    p.set_pixel_size(np.sqrt(abs(np.linalg.det(M))))
    num = NumericsSubFrame(pixel_grid=d, psf=p, **numerics)
    x, y = num.coordinates_evaluate
    a = [sum(LensModel([m]).alpha(x, y, [k])[i] for m, k in zip(LENS, kw["kwargs_lens"])) for i in (0, 1)]
    bx, by = x - a[0], y - a[1]
    tau = LightModel(["GAUSSIAN"]).surface_brightness(x, y, kw["kwargs_extinction"]) if ext else 0
    dim = np.exp(-(sp["tau0_list"][1] if "tau0_list" in sp else 1) * tau)
    B = beam().ravel() if pb and beam_on else 1
    out = dict(source=[], unlensed=[], lens_light=[], ps=[])
    for m, k in zip(SRC, kw["kwargs_source"]):
        L = LightModel([m])
        out["source"].append(num.re_size_convolve(L.surface_brightness(bx, by, [k]) * dim * B, unconvolved=unconvolved) * scale)
        out["unlensed"].append(num.re_size_convolve(L.surface_brightness(x, y, [k]) * B, unconvolved=unconvolved) * scale)
    for m, k in zip(LL, kw["kwargs_lens_light"]):
        out["lens_light"].append(num.re_size_convolve(LightModel([m]).surface_brightness(x, y, [k]) * B, unconvolved=unconvolved) * scale)
    n = 0
    for k in kw["kwargs_ps"]:
        im = np.zeros((N, N))
        for i in range(len(k["ra_image"])):
            ra, dec, amp = k["ra_image"][i], k["dec_image"][i], k["point_amp"][i]
            if "delta_x_image" in sp:
                ra, dec = ra + sp["delta_x_image"][n], dec + sp["delta_y_image"][n]
            if pb and beam_on:
                from scipy.ndimage import map_coordinates
                px, py = d.map_coord2pix(ra, dec)
                amp = amp * map_coordinates(beam(), [[py], [px]], order=3, mode="constant")[0]
            im = im + num.point_source_rendering(np.array([ra]), np.array([dec]), np.array([amp]), unconvolved=unconvolved) * scale
            n += 1
        out["ps"].append(im)
    out["extinction"] = num.re_size_convolve(dim * np.ones_like(x), unconvolved=True) / num.grid_class.pixel_width ** 2
    return out


NUM = {"plain": {}, "ss2": dict(supersampling_factor=2), "ss3c": dict(supersampling_factor=3, supersampling_convolution=True),
       "pss": dict(point_source_supersampling_factor=2), "adapt": dict(compute_mode="adaptive", supersampling_factor=2, supersampled_indexes=np.indices((N, N)).sum(0) % 3 == 0)}


def compose_configs(tier):
    for psf, nm in itertools.product(PSFS, NUM):
        if psf == "gauss" and nm == "adapt":
            continue
        for pb, ext in itertools.product((False, True), repeat=2):
            if pb and nm in ("ss2", "ss3c", "adapt"):
                continue  # a primary beam is given on the pixels of the data and not defined between them
            yield psf, nm, pb, ext


def subsets(n):
    return [None] + list(range(n))


def compose_case(psf, nm, pb, ext, tier, rec):
    for j, off, shift, scale in itertools.product((0, 1), range(len(OFFSETS)), (0, 1), (1, 2.5)):
        if tier == "quick" and (j + off + shift + (scale > 1)) % 2:
            continue
        kw = kw_set(j)
        sp = special(off, shift, ext and j)
        ke = kw["kwargs_extinction"] if ext else None
        kl, ks, kll, kp = kw["kwargs_lens"], kw["kwargs_source"], kw["kwargs_lens_light"], kw["kwargs_ps"]
        before = snap([kw, sp])
        for unconv in (False, True):
            for bon in (True, False) if pb else (True,):
                what = "psf %s numerics %s beam %s extinction %s set %d offset %d shift %d scale %s unconvolved %s apply beam %s" % (psf, nm, pb, ext, j, off, shift, scale, unconv, bon)
                ref = reference(psf, NUM[nm], pb, scale, ext, kw, sp, unconvolved=unconv, beam_on=bon)
                im = model(psf, NUM[nm], pb, scale, ext)
                im.update_pixel_grid_coordinates(sp)
                o = dict(unconvolved=unconv, apply_primary_beam=bon)
                for s, l, p in itertools.product((False, True), repeat=3):
                    got = im.image(kl, ks, kll, kp, ke, sp, source_add=s, lens_light_add=l, point_source_add=p, **o)
                    exp = np.zeros((N, N)) + (sum(ref["source"]) if s else 0) + (sum(ref["lens_light"]) if l else 0) + (sum(ref["ps"]) if p else 0)
                    rec.same("image", got, exp, 1e-8, 1e-10, what=what + " add %s" % ((s, l, p),))
                    rec.trans()
                for k in subsets(3):
                    pick = (lambda v: sum(v)) if k is None else (lambda v: v[k])
                    rec.same("source", im.source_surface_brightness(ks, kl, ke, sp, k=k, **o), pick(ref["source"]), 1e-8, 1e-10, what=what + " k=%s" % k)
                    rec.same("source-delensed", im.source_surface_brightness(ks, kl, ke, sp, k=k, de_lensed=True, **o), pick(ref["unlensed"]), 1e-8, 1e-10, what=what + " k=%s" % k)
                    if k != 2:
                        rec.same("lens-light", im.lens_surface_brightness(kll, k=k, **o), pick(ref["lens_light"]), 1e-8, 1e-10, what=what + " k=%s" % k)
                        rec.same("point-source", im.point_source(kp, kl, sp, k=k, **o), pick(ref["ps"]), 1e-8, 1e-10, what=what + " k=%s" % k)
                    rec.trans(4)
                rec.state(what)
                rec.trace()
        if ext:
            rec.same("extinction", im.extinction_map(ke, sp), ref["extinction"], 1e-8, 1e-10, what=what)
        rec.unchanged("args", before, [kw, sp])
        rec.outcome(got)


def stat_case(psf, msk, tier, rec):
    """likelihood, variance, residuals and masks of the image against their definitions"""
    for j, off, shift, amp in itertools.product((0, 1), (0, 2), (0, 1), (False, True)):
        kw = kw_set(j)
        sp = special(off, shift, False)
        a = (kw["kwargs_lens"], kw["kwargs_source"], kw["kwargs_lens_light"], kw["kwargs_ps"], None, sp)
        m = mask(msk)
        im = model(psf, {}, False, 1, False, msk=msk)
        if amp:
            im = ImageModel(data(), PSFS[psf](), LensModel(LENS), LightModel(SRC), LightModel(LL), PointSource(PS), None, {}, mask(msk), [False, True])
        ref = reference(psf, {}, False, 1, False, kw, sp)
        mod = sum(ref["source"]) + sum(ref["lens_light"]) + sum(ref["ps"])
        d = data()
        err = np.zeros((N, N))
        if psf == "pix":
            p = PSFS[psf]()
            g = data()
            if off:
                g.update_coordinate_grid(**sp["kwargs_offsets"][0])
            num = NumericsSubFrame(pixel_grid=g, psf=p)
            n = 0
            for t, k in enumerate(kw["kwargs_ps"]):
                q = len(k["ra_image"])
                ra, dec = np.array(k["ra_image"]), np.array(k["dec_image"])
                if shift:
                    ra, dec = ra + SHIFT["delta_x_image"][n:n + q], dec + SHIFT["delta_y_image"][n:n + q]
                n += q
                if not amp or t == 1:
                    err = err + num.psf_variance_map(ra, dec, None, d.data, fix_psf_variance_map=False)
        var = 0.2 ** 2 + np.maximum(mod, 0) / 50.0
        what = "psf %s mask %d set %d offset %d shift %d list %s" % (psf, msk, j, off, shift, amp)
        rec.same("variance", im.variance_map(*a), var + np.abs(err), 1e-8, 1e-10, what=what)
        rec.same("likelihood", im.likelihood_data_given_model(*a), -0.5 * np.sum(m * (mod - d.data) ** 2 / (var + np.abs(err))), 1e-8, 1e-9, what=what)
        res = m * (d.data - mod) / np.sqrt(var + np.abs(err))
        rec.same("residuals", im.reduced_residuals(mod, err), res, 1e-8, 1e-10, what=what)
        rec.same("chi2", im.reduced_chi2(mod, err), np.sum(res ** 2) / m.sum(), 1e-8, 1e-10, what=what)
        rec.same("num-data", im.num_data_evaluate, m.sum(), what=what)
        v = im.image2array_masked(mod)
        rec.same("masked-array", v, mod.ravel()[m.ravel() > 0], 1e-12, what=what)
        rec.same("masked-image", im.array_masked2image(v), mod * m, 1e-12, what=what)
        rec.same("data-response", im.data_response, d.data.ravel()[m.ravel() > 0], 1e-12, what=what)
        C, e = im.error_response(a[0], a[3], sp)
        rec.same("error-response", C, (0.2 ** 2 + np.maximum(d.data, 0) / 50.0 + err).ravel()[m.ravel() > 0], 1e-8, what=what)
        rec.same("error-map", e, err, 1e-8, 1e-12, what=what)
        rec.trans(10)
        rec.trace()
        rec.state(what)
        rec.outcome(mod)


# ------------------------------------------------------------------ histories
def history_case(psf, save, first, tier, rec):
    """all sequences of queries and updates; every query answers what a fresh object answers"""
    specials = [special(3, 0, False), special(1, 1, False), special(2, 0, False)]
    specials[1]["kwargs_offsets"] = [dict(OFFSETS[1][0], phi_rot=0)]  # a value that is not given stays as it was
    psfs = [psf, "pix2" if psf != "pix2" else "pix"]
    memo = {}

    def expect(p, d, j, s):
        if (p, d, j, s) not in memo:
            dat = data(False, 1 if d == 0 else 2.5, d, ra=RA0 + 0.3 * d)
            r = reference(p, {}, False, 1 if d == 0 else 2.5, False, kw_set(j), specials[s], dat=dat)
            memo[p, d, j, s] = sum(r["source"]) + sum(r["lens_light"]) + sum(r["ps"]), sum(r["source"]), sum(r["ps"]), r["ps"][1], dat.data
        return memo[p, d, j, s]

    ops = [("image", j, s) for j, s in ((0, 0), (0, 1), (1, 0), (1, 2))] + [("source", 1, 1), ("source", 0, 0), ("ps", 1, 2), ("ps", 0, 0), ("psk", 0, 1), ("like", 1, 1), ("like", 0, 0)]
    ops += [("psf", 1), ("psf", 0), ("data", 1), ("data", 0), ("reset", True), ("reset", False)]
    depth = 3 if tier == "quick" else 4
    for rest in itertools.product(range(len(ops)), repeat=depth - 1):
        seq = (first,) + rest
        if ops[seq[-1]][0] in ("psf", "data", "reset"):
            continue
        im = model(psf, {}, False, 1, False, save=save)
        p, d = psf, 0
        cached, store = None, save
        for i in seq:
            op = ops[i]
            names = ">".join("-".join(map(str, ops[q])) for q in seq)
            if op[0] == "psf":
                p = psfs[op[1]]
                im.update_psf(PSFS[p]())
            elif op[0] == "data":
                d = op[1]
                im.update_data(data(False, 1 if d == 0 else 2.5, d, ra=RA0 + 0.3 * d))
            elif op[0] == "reset":
                im.reset_point_source_cache(op[1])
                cached = None
                store = op[1]
            else:
                j, s = op[1], op[2]
                kw = kw_set(j)
                sp = specials[s]
                if store and op[0] != "source":
                    # positions are stored until the caller drops them; the caller does so when the parameters change
                    if cached not in (None, j):
                        im.reset_point_source_cache(True)
                    cached = j
                kl, ks, kll, kp = kw["kwargs_lens"], kw["kwargs_source"], kw["kwargs_lens_light"], kw["kwargs_ps"]
                e = expect(p, d, j, s)
                if op[0] == "image":
                    rec.same("history-image", im.image(kl, ks, kll, kp, None, sp), e[0], 1e-8, 1e-10, what=names)
                elif op[0] == "source":
                    rec.same("history-source", im.source_surface_brightness(ks, kl, None, sp), e[1], 1e-8, 1e-10, what=names)
                elif op[0] == "ps":
                    rec.same("history-ps", im.point_source(kp, kl, sp), e[2], 1e-8, 1e-10, what=names)
                elif op[0] == "psk":
                    rec.same("history-ps-k", im.point_source(kp, kl, sp, k=1), e[3], 1e-8, 1e-10, what=names)
                elif not (psf == "pix" or p == "pix"):
                    chi = (e[0] - e[4]) ** 2 / (0.04 + np.maximum(e[0], 0) / 50.0)
                    rec.same("history-likelihood", im.likelihood_data_given_model(kl, ks, kll, kp, None, sp), -0.5 * chi.sum(), 1e-8, 1e-9, what=names)
            rec.trans()
        rec.trace()
        rec.state("%s%d" % (p, d))
    rec.outcome([v[0] for v in memo.values()])


def cases(tier):
    out = ["compose|%s|%s|%d|%d" % (p, n, b, e) for p, n, b, e in compose_configs(tier)]
    out += ["stat|%s|%d" % (p, m) for p in PSFS for m in (0, 1)]
    out += ["history|%s|%d|%d" % (p, s, f) for p in PSFS for s in (0, 1) for f in range(17)]
    return out


def run_case(case, tier, rec):
    t = case.split("|")
    if t[0] == "compose":
        compose_case(t[1], t[2], bool(int(t[3])), bool(int(t[4])), tier, rec)
    elif t[0] == "stat":
        stat_case(t[1], int(t[2]), tier, rec)
    else:
        history_case(t[1], bool(int(t[2])), int(t[3]), tier, rec)
