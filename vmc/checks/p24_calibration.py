"""P24: PSF iteration, image alignment and flux calibration."""
import itertools

import numpy as np
from scipy import ndimage, signal

from lenstronomy.Data.imaging_data import ImageData
from lenstronomy.Data.psf import PSF
from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
from lenstronomy.LensModel.lens_model import LensModel
from lenstronomy.LightModel.light_model import LightModel
from lenstronomy.PointSource.point_source import PointSource
from lenstronomy.Sampling.Likelihoods.image_likelihood import ImageLikelihood
from lenstronomy.Workflow.alignment_matching import AlignmentFitting, AlignmentLikelihood
from lenstronomy.Workflow.fitting_sequence import FittingSequence
from lenstronomy.Workflow.flux_calibration import CalibrationLikelihood, FluxCalibration
from lenstronomy.Workflow.psf_fitting import PsfFitting
from vmc.core import snap

PIX = 0.125


def kern(n, kind):
    c = (n - 1) / 2.0
    y, x = np.mgrid[:n, :n] - c
    if kind == "true":
        k = np.exp(-(x ** 2 / 1.6 + (y - 0.2) ** 2 / 2.5 + 0.3 * x * y))
    elif kind == "round":
        k = np.exp(-(x ** 2 + y ** 2) / 2.2)
    else:
        k = np.exp(-(x ** 2 + y ** 2) / 4.0) + 0.02 * np.cos(1.3 * x + 0.7 * y) + 0.05
    return k / k.sum()


def frame(n):
    return dict(ra_at_xy_0=-(n - 1) / 2.0 * PIX, dec_at_xy_0=-(n - 1) / 2.0 * PIX,
                transform_pix2angle=np.array([[PIX, 0.0], [0.0, PIX]]))


def place(n, k, x, y, amp):
    im = np.zeros((n, n))
    c = len(k) // 2
    for j in range(len(k)):
        for i in range(len(k)):
            yy, xx = y + j - c, x + i - c
            if 0 <= yy < n and 0 <= xx < n:
                im[yy, xx] += amp * k[j, i]
    return im


STARS = {"one": ((10, 10),), "two": ((4, 5), (15, 13)), "close": ((8, 9), (11, 10)), "edge": ((1, 9), (14, 19)),
         "three": ((4, 4), (15, 6), (9, 16)), "group": ((8, 9), (11, 10), (9, 12))}
AMPS = (7.0, 4.0, 11.0)
N = 21


def build(stars, true, ksize, mask=None, ps_type="UNLENSED", sky=True):
    im = sum(place(N, true, x, y, a) for (x, y), a in zip(stars, AMPS)) + (0.3 if sky else 0)
    data = ImageData(image_data=im, background_rms=0.05, exposure_time=100.0, **frame(N))
    psf = PSF(psf_type="PIXEL", kernel_point_source=kern(ksize, "start"))
    ll = LightModel(["UNIFORM"])
    ps = PointSource([ps_type])
    model = ImageLinearFit(data, psf, lens_light_model_class=ll, point_source_class=ps, likelihood_mask=mask)
    p = [(x - (N - 1) / 2.0) * PIX for x, _ in stars], [(y - (N - 1) / 2.0) * PIX for _, y in stars]
    kp = dict(kwargs_lens=[], kwargs_source=[], kwargs_lens_light=[dict(amp=1.0)],
              kwargs_ps=[dict(ra_image=np.array(p[0]), dec_image=np.array(p[1]), point_amp=np.ones(len(stars)))])
    return model, im, kp, data


def solve(im, stars, k, cd, mask):
    rows = [signal.convolve2d(np.ones((N, N)) * PIX ** 2, k, mode="same")] + [place(N, k, x, y, 1.0) for x, y in stars]
    A = np.array([r[mask > 0] / np.sqrt(cd[mask > 0]) for r in rows]).T
    sol = np.linalg.lstsq(A, im[mask > 0] / np.sqrt(cd[mask > 0]), rcond=None)[0]
    model = sum(s * r for s, r in zip(sol, rows))
    return sol, model


def cut(im, x, y, n):
    c = n // 2
    out = np.zeros((n, n))
    for j in range(n):
        for i in range(n):
            yy, xx = y + j - c, x + i - c
            if 0 <= yy < len(im) and 0 <= xx < len(im):
                out[j, i] = im[yy, xx]
    return out


def rot(k, angle):
    return np.rot90(k, int(round(angle / 90.0))) if abs(angle % 90) < 1e-9 else ndimage.rotate(k, angle, reshape=False)


def combine(kl, old, factor, stack, sym, corner=None, mask=None):
    norm = lambda k: k / np.sum(k)
    st = np.median if stack == "median" else np.mean
    new = st([rot(norm(k), 360.0 / sym * i) for k in kl for i in range(sym)], axis=0)
    new = np.maximum(np.nan_to_num(new), 0)
    if corner is not None:
        nc = np.maximum(st([rot(norm(k), 360.0 / corner * i) for k in kl for i in range(corner)], axis=0), 0)
        new = np.where(mask, nc, new)
    return factor * norm(new) + (1 - factor) * norm(old)


def combine_case(sym, tier, rec):
    for ks in (3, 5, 7) if tier == "quick" else (3, 5, 7, 9, 11):
        ks_list = [kern(ks, "true"), kern(ks, "round") * 1.7, kern(ks, "start") * 0.4 - 0.01]
        old = kern(ks, "start") * 2.5
        for m in range(1, 4):
            for sel in itertools.permutations(range(3), m):
                for factor, stack in itertools.product((0.0, 0.3, 1.0), ("median", "mean")):
                    kl = [ks_list[i] for i in sel]
                    b = snap([kl, old])
                    w = "size %d kernels %s factor %s %s" % (ks, sel, factor, stack)
                    got = PsfFitting.combine_psf(kl, old, factor=factor, stacking_option=stack, symmetry=sym)
                    rec.same("combine", got, combine(kl, old, factor, stack, sym), 1e-7, 1e-9, w)
                    for corner in (1, 2, 4):
                        mask = PsfFitting.calc_cornermask(ks, sym)
                        got = PsfFitting.combine_psf(kl, old, factor=factor, stacking_option=stack, symmetry=sym, corner_symmetry=corner, corner_mask=mask)
                        rec.same("combine-corner", got, combine(kl, old, factor, stack, sym, corner, mask), 1e-7, 1e-9, w + " corner %d" % corner)
                        rec.trans()
                    rec.unchanged("arguments", b, [kl, old])
                    rec.state((ks, sel, factor, stack))
                    rec.outcome(got)
        if sym == 3:
            mask = PsfFitting.calc_cornermask(ks, 3)
            cov = sum(ndimage.rotate(np.ones((ks, ks)), 120.0 * i, reshape=False).clip(max=1) for i in range(3))
            rec.same("corner-mask", mask, cov < cov.max())
    rec.raises("stacking", lambda: PsfFitting.combine_psf(kl, old, stacking_option="max"), ValueError)
    rec.trace()


def radial(stars, radius, i):
    m = np.ones((N, N))
    yy, xx = np.mgrid[:N, :N]
    for k, (x, y) in enumerate(stars):
        if k != i:
            m[np.hypot((xx - x) * PIX, (yy - y) * PIX) <= radius] = 0
    return m


def step_case(name, ksize, tier, rec):
    """One update at pixel sampling, all options, against the written-out estimate."""
    stars = STARS[name]
    true, start = kern(ksize, "true"), kern(ksize, "start")
    masks = {"all": None, "hole": np.ones((N, N))}
    masks["hole"][stars[0][1] + 1, stars[0][0] - 1] = 0
    masks["hole"][:, -1] = 0
    for mk, stack, sym, factor, block, rad in itertools.product(masks, ("median", "mean"), (1, 2, 4), (0.2, 1.0), (0.0, 0.3), (None, 0.2)):
        model, im, kp, data = build(stars, true, ksize, masks[mk])
        mask = np.ones((N, N)) if masks[mk] is None else masks[mk]
        kpsf = dict(psf_type="PIXEL", kernel_point_source=start.copy())
        b = snap(kpsf)
        w = "%s mask %s %s symmetry %d factor %s block %s radius %s" % (name, mk, stack, sym, factor, block, rad)
        new, logl, err = PsfFitting(model).update_psf(kpsf, kp, stacking_method=stack, psf_symmetry=sym, psf_iter_factor=factor,
                                                      block_center_neighbour=block, error_map_radius=rad)
        rec.unchanged("arguments", b, kpsf)
        sol, mod = solve(im, stars, start, data.C_D, mask)
        res = (im - mod)
        kl = []
        for i, (x, y) in enumerate(stars):
            r = cut(res * mask * radial(stars, block, i), x, y, ksize) / sol[1 + i]
            kl.append(start + r - r.mean())
        exp = combine(kl, start, factor, stack, sym)
        rec.same("kernel", new["kernel_point_source"], exp, 1e-5, 1e-7, w)
        rec.same("kernel-sum", np.sum(new["kernel_point_source"]), 1.0, 1e-8)
        errs = []
        for i, (x, y) in enumerate(stars):
            d = np.abs(exp - kl[i]) - np.sqrt(cut(data.C_D, x, y, ksize)) / sol[1 + i]
            errs.append(np.maximum(d, 0) ** 2)
        e = np.median(errs, axis=0)
        e = np.where(exp > 0, e / np.where(exp > 0, exp, 1) ** 2, e)
        e = np.minimum(e, 1)
        if rad is not None:
            c = ksize // 2
            yy, xx = (np.mgrid[:ksize, :ksize] - c) * PIX
            e = e * (np.hypot(xx, yy) <= rad + 1e-9)
        rec.same("error-map", err, e, 1e-4, 1e-6, w)
        _, m2 = solve(im, stars, exp, data.C_D, mask)
        cd = data.C_D_model(m2)
        rec.same("likelihood", logl, -0.5 * np.sum(((im - m2) ** 2 / cd * mask)), 1e-4, 1e-5, w)
        rec.trans(3)
        rec.state((mk, stack, sym, factor, block, rad))
        rec.outcome(new["kernel_point_source"])
    rec.trace()


def old_case(name, tier, rec):
    """Procedure of earlier versions: isolated stars at pixel centres, no masks: the stacked cutouts are the true kernel."""
    stars = STARS[name]
    for ksize, stack, sym, factor in itertools.product((5, 7), ("median", "mean"), (1,), (0.2, 1.0)):
        true, start = kern(ksize, "true"), kern(ksize, "start")
        model, im, kp, data = build(stars, true, ksize)
        # the sky is removed exactly only when the start kernel is the true one; use a model without sky
        model, im, kp, data = build(stars, true, ksize, sky=False)
        new, logl, err = PsfFitting(model).update_psf(dict(psf_type="PIXEL", kernel_point_source=start), kp, stacking_method=stack,
                                                      psf_symmetry=sym, psf_iter_factor=factor, new_procedure=False)
        sol, mod = solve(im, stars, start, data.C_D, np.ones((N, N)))
        kl = []
        for i, (x, y) in enumerate(stars):
            s = np.maximum(cut(im - mod + place(N, start, x, y, sol[1 + i]), x, y, ksize + 2), 0)[1:-1, 1:-1]
            kl.append(s / s.sum())
        rec.same("old-kernel", new["kernel_point_source"], combine(kl, start, factor, stack, sym), 2e-3, 2e-4, "%s %d %s %s" % (name, ksize, stack, factor))
        rec.true("old-sum", abs(np.sum(new["kernel_point_source"]) - 1) < 1e-8)
        rec.trans()
        rec.state((ksize, stack, sym, factor))
    # error map of given cutouts, with neighbours left out
    for (nm, st), ksize, block, rad in itertools.product(STARS.items(), (3, 5, 7), (0.0, 0.2, 0.3), (None, 0.2)):
        true, start = kern(ksize, "true"), kern(ksize, "start")
        for masked in (False, True):
            mask = np.ones((N, N))
            if masked:
                mask[st[0][1], st[0][0] + 1] = 0
            model, im, kp, data = build(st, true, ksize, mask)
            cuts = [cut(im - 0.3, x, y, ksize) for x, y in st]
            got = PsfFitting(model).error_map_estimate(start, cuts, AMPS[:len(st)], np.array([float(x) for x, _ in st]), np.array([float(y) for _, y in st]),
                                                       error_map_radius=rad, block_center_neighbour=block)
            errs = []
            for i, (x, y) in enumerate(st):
                r = np.maximum(np.abs(cuts[i] - AMPS[i] * start) - np.sqrt(cut(data.C_D, x, y, ksize)), 0) / AMPS[i]
                errs.append(r ** 2 * cut(mask * radial(st, block, i), x, y, ksize))
            e = np.minimum(np.median(errs, axis=0) / start ** 2, 1)
            if rad is not None:
                yy, xx = (np.mgrid[:ksize, :ksize] - ksize // 2) * PIX
                e = e * (np.hypot(xx, yy) <= rad + 1e-9)
            rec.same("old-error-map", got, e, 1e-7, 1e-10, "%s %d block %s radius %s masked %s" % (nm, ksize, block, rad, masked))
            rec.trans()
    # masked pixels are taken from the guess, unmasked ones keep the flux the guess has there
    for ksize in (5, 7):
        true = kern(ksize, "true")
        for (j, i) in itertools.product(range(ksize), range(ksize)):
            mask = np.ones((N, N))
            mask[10 + j - ksize // 2, 10 + i - ksize // 2] = 0
            got = PsfFitting.cutout_psf_single(10, 10, place(N, true, 10, 10, 6.0) * mask, mask, ksize, true.copy())
            rec.same("masked-cutout", got, true, 1e-6, 1e-7, "pixel %d %d" % (j, i))
            rec.trans()
    # cutouts of every star: likelihood mask and neighbours are filled from the guess, negative pixels are set to zero
    for (nm, st), ksize, block, masked in itertools.product(STARS.items(), (3, 5), (0.0, 0.2, 0.3), (0, 1, 2)):
        guess = kern(ksize, "start")
        mask = np.ones((N, N))
        if masked:
            mask[st[0][1], st[0][0] + 1] = 0
            mask[st[-1][1] - 1, st[-1][0]] = 0
        if masked == 2:
            mask[st[-1][1], st[-1][0]] = 0
        model, im, kp, data = build(st, kern(ksize, "true"), ksize, mask)
        ims = [place(N, kern(ksize, "true"), x, y, AMPS[i]) + 0.02 * np.cos(np.add.outer(3.0 * np.arange(N), 2.0 * np.arange(N)) + i) - 0.05 for i, (x, y) in enumerate(st)]
        xs, ys = np.array([float(x) for x, _ in st]), np.array([float(y) for _, y in st])
        b = snap(ims)
        got = PsfFitting(model).cutout_psf(kp["kwargs_ps"][0]["ra_image"], kp["kwargs_ps"][0]["dec_image"], xs, ys, ims, ksize, guess, block_center_neighbour=block)
        rec.unchanged("cutout-arguments", b, ims)
        for i, (x, y) in enumerate(st):
            m = cut(mask * radial(st, block, i), x, y, ksize + 2)
            g = np.pad(guess, 1)
            c = cut(ims[i], x, y, ksize + 2)
            c = np.where(m == 1, c * np.sum(g[m == 1]) / np.sum(c[m == 1]), g)
            c = np.maximum(c, 0)[1:-1, 1:-1]
            rec.same("cutout", got[i], c / c.sum(), 1e-5, 1e-7, "%s star %d size %d block %s mask %d" % (nm, i, ksize, block, masked))
        rec.trans(len(st))
    rec.trace()


def fixed_case(ss, tier, rec):
    """The true kernel is a fixed point, in every super-sampling, for stars at fractional positions."""
    for ksize, stack, factor, offs in itertools.product((5, 7), ("median", "mean"), (0.2, 1.0), ((0.0, 0.0), (0.3, -0.2), (0.5, 0.5))):
        n = ksize * ss if (ksize * ss) % 2 else ksize * ss - 1
        c = (n - 1) / 2.0
        y, x = (np.mgrid[:n, :n] - c) / ss
        k = np.exp(-(x ** 2 / 1.6 + (y - 0.2) ** 2 / 2.5 + 0.3 * x * y))
        k /= k.sum()
        kpsf = dict(psf_type="PIXEL", kernel_point_source=k, point_source_supersampling_factor=ss)
        data0 = ImageData(image_data=np.zeros((N, N)), background_rms=0.05, exposure_time=100.0, **frame(N))
        kp = dict(kwargs_lens=[], kwargs_source=[], kwargs_lens_light=[dict(amp=1.0)],
                  kwargs_ps=[dict(ra_image=(np.array([4, 15]) + offs[0] - 10) * PIX, dec_image=(np.array([5, 13]) + offs[1] - 10) * PIX,
                                  point_amp=np.array([7.0, 4.0]))])
        mk = lambda d: ImageLinearFit(d, PSF(**kpsf), lens_light_model_class=LightModel(["UNIFORM"]), point_source_class=PointSource(["UNLENSED"]),
                                      kwargs_numerics=dict(point_source_supersampling_factor=ss))
        im = mk(data0).image(**kp)
        data = ImageData(image_data=im, background_rms=0.05, exposure_time=100.0, **frame(N))
        m = mk(data)
        w = "kernel %d super-sampling %d %s factor %s offset %s" % (ksize, ss, stack, factor, offs)
        new, logl, err = PsfFitting(m).update_psf(kpsf, snap(kp), stacking_method=stack, psf_iter_factor=factor)
        rec.same("fixed-point", new["kernel_point_source"], k, 1e-5, 1e-8, w)
        rec.same("fixed-error-map", err, np.zeros_like(err), 0, 1e-8, w)
        b = snap([kpsf, kp])
        out = PsfFitting(mk(data)).update_iterative(kpsf, kp, num_iter=2, verbose=False, stacking_method=stack, psf_iter_factor=factor)
        rec.unchanged("arguments", b, [kpsf, kp])
        rec.same("fixed-iterative", out["kernel_point_source"], k, 1e-5, 1e-8, w)
        rec.true("fixed-factor", out.get("point_source_supersampling_factor", 1) == ss, w)
        rec.trans(2)
        rec.state((ksize, stack, factor, offs))
    rec.trace()


def iterate_case(name, tier, rec):
    """The returned PSF is the best of the start and all iterates, whatever was fitted before with the same objects."""
    stars = STARS[name]
    ks = 5
    true = kern(ks, "true")
    grid = list(itertools.product(("median", "mean"), (0.3, 1.0), (0, 1, 3), (True, False), (True, False), (False, True), ("start", "true"), (False, True)))
    # steps that overshoot: the best iterate is neither the last nor the first that improves
    grid += list(itertools.product(("median", "mean"), (1.5, 1.9, 2.1), (2, 4, 5), (True, False), (True, False), (False,), ("start", "round"), (False,)))
    for stack, factor, num, keep, brk, var, start, init in grid:
        if init and (stack == "mean" or var):
            continue
        model, im, kp, data = build(stars, true, ks)
        kpsf = dict(psf_type="PIXEL", kernel_point_source=kern(ks, start))
        if var:
            kpsf["psf_variance_map"] = np.ones((ks, ks)) * 0.01
        if init:
            kpsf["kernel_point_source_init"] = kern(ks, "round")
        b = snap([kpsf, kp])
        w = "%s %s factor %s iterations %d keep %s no_break %s variance %s start %s init %s" % (name, stack, factor, num, keep, brk, var, start, init)
        opt = dict(stacking_method=stack, psf_iter_factor=factor)
        out = PsfFitting(model).update_iterative(kpsf, kp, num_iter=num, keep_psf_variance_map=keep, no_break=brk, verbose=False, **opt)
        rec.unchanged("arguments", b, [kpsf, kp])
        # replay step by step with fresh objects
        m2 = build(stars, true, ks)[0]
        m2.update_psf(PSF(**kpsf))
        best, _ = m2.likelihood_data_given_model(**snap(kp))
        l0 = best
        kb, eb, cur = kpsf["kernel_point_source"], kpsf.get("psf_variance_map", np.zeros((ks, ks))), dict(kpsf)
        e0 = eb
        for i in range(num):
            cur, l, e = PsfFitting(build(stars, true, ks)[0]).update_psf(cur, snap(kp), **opt)
            if l > best:
                best, kb, eb = l, cur["kernel_point_source"], e
            elif not brk:
                break
        if num and best > l0 and not np.array_equal(kb, cur["kernel_point_source"]):
            rec.outcome("best iterate is not the last")
        rec.same("best-kernel", out["kernel_point_source"], kb, 1e-7, 1e-9, w)
        rec.same("variance-map", out["psf_variance_map"], e0 if keep else eb, 1e-6, 1e-9, w)
        rec.same("initial-kernel", out["kernel_point_source_init"], kpsf.get("kernel_point_source_init", kpsf["kernel_point_source"]), 0, 0, w)
        m3 = build(stars, true, ks)[0]
        fin = {k: v for k, v in out.items()}
        if not keep:
            fin["psf_variance_map"] = e0
        m3.update_psf(PSF(**{k: fin[k] for k in ("psf_type", "kernel_point_source", "psf_variance_map")}))
        l1 = m3.likelihood_data_given_model(**snap(kp))[0]
        rec.true("never-worse", l1 >= l0 - 1e-6 * abs(l0), w + " %g -> %g" % (l0, l1))
        rec.trans(num + 1)
        rec.state((stack, factor, num, keep, brk, var, start, init))
        rec.outcome(out["kernel_point_source"])
    rec.trace()


def lensed_case(tier, rec):
    """Two lens models fitted one after the other with the same image model: as with newly built objects."""
    true = kern(5, "true")
    def mk():
        im = sum(place(N, true, x, y, a) for (x, y), a in zip(STARS["three"], AMPS)) + 0.01 * np.add.outer(np.arange(N), np.arange(N))
        data = ImageData(image_data=im, background_rms=0.05, exposure_time=100.0, **frame(N))
        lm = LensModel(["SIS"])
        return ImageLinearFit(data, PSF(psf_type="PIXEL", kernel_point_source=kern(5, "start")), lens_model_class=lm,
                              point_source_class=PointSource(["SOURCE_POSITION"], lens_model=lm))
    def kp(i):
        return dict(kwargs_lens=[dict(theta_E=(0.5, 0.6, 0.45)[i], center_x=0.02, center_y=0.01)], kwargs_source=[], kwargs_lens_light=[],
                    kwargs_ps=[dict(ra_source=(0.1, -0.15, 0.2)[i], dec_source=(0.2, 0.1, -0.05)[i], point_amp=np.array([1.0, 1.0]))])
    kpsf = dict(psf_type="PIXEL", kernel_point_source=kern(5, "start"))
    opt = dict(num_iter=1, verbose=False, stacking_method="mean", psf_iter_factor=0.5)
    fresh = [PsfFitting(mk()).update_iterative(kpsf, kp(i), **opt) for i in range(3)]
    images = [mk().image(**kp(i)) for i in range(3)]
    for seq in itertools.product(range(3), repeat=2 if tier == "quick" else 3):
        m = mk()
        f = PsfFitting(m)
        for i in seq:
            out = f.update_iterative(kpsf, kp(i), **opt)
            rec.same("history", out, fresh[i], 1e-7, 1e-9, str(seq))
        for i in range(3):
            m.update_psf(PSF(**kpsf))
            rec.same("image-model-left", m.image(**kp(i)), images[i], 1e-7, 1e-9, str(seq))
        rec.trans(len(seq))
        rec.state(seq)
        rec.trace()


# ------------------------------------------------------------------ alignment and flux calibration
def bands(n=3):
    """Three bands of the same scene with different frames, noise, PSF and flux scale."""
    out = []
    for i in range(n):
        nn = 9
        k = kern(3, ("true", "round", "start")[i])
        data0 = dict(image_data=np.zeros((nn, nn)), background_rms=0.02 * (i + 1), exposure_time=50.0 * (i + 1), **frame(nn))
        im = ImageLinearFit(ImageData(**dict(data0, ra_shift=0.02 * i, dec_shift=-0.03 * i, phi_rot=0.02 * i)), PSF(psf_type="PIXEL", kernel_point_source=k),
                            lens_light_model_class=LightModel(["SERSIC_ELLIPSE"])).image(kwargs_lens_light=LIGHT)
        out.append([dict(data0, image_data=im * (1.0, 1.5, 0.7)[i]), dict(psf_type="PIXEL", kernel_point_source=k), {}])
    return out


LIGHT = [dict(amp=10.0, R_sersic=0.3, n_sersic=1.2, e1=0.2, e2=-0.1, center_x=0.03, center_y=-0.02)]
MODEL = dict(lens_light_model_list=["SERSIC_ELLIPSE"])
PARAMS = dict(kwargs_lens=[], kwargs_source=[], kwargs_lens_light=LIGHT, kwargs_ps=[])


def band_logl(mbl, kind, compute=None, masks=None):
    return ImageLikelihood(mbl, kind, MODEL, bands_compute=compute, image_likelihood_mask_list=masks).logL(**snap(PARAMS))[0]


def align_case(tier, rec):
    vals = ((-0.05, 0.0, 0.04), (-0.03, 0.0, 0.06), (-0.05, 0.0, 0.1))
    masks = [np.ones((9, 9)) for _ in range(3)]
    for m, i in zip(masks, range(3)):
        m[i, 3] = 0
    for band, off, rotn, mk in itertools.product(range(3), (True, False), (True, False), (None, masks)):
        if not off and not rotn:
            continue
        for preset in (False, True):
            mbl = bands()
            if preset:
                mbl[band][0].update(ra_shift=0.01, dec_shift=0.02, phi_rot=-0.03)
            b = snap([mbl, PARAMS, mk])
            f = AlignmentLikelihood(mbl, MODEL, PARAMS, band, mk, align_offset=off, align_rotation=rotn)
            rec.true("num_param", f.num_param == 2 * off + rotn)
            init = f.get_args(f.kwargs_data_init)
            p = mbl[band][0]
            rec.same("get_args", init, ([p.get("ra_shift", 0), p.get("dec_shift", 0)] if off else []) + ([p.get("phi_rot", 0)] if rotn else []), 0, 0)
            lo, hi = f.lower_upper_limit(0.2, 0.1)
            rec.same("limits", [lo, hi], [([-0.2] * 2 if off else []) + ([-0.1] if rotn else []), ([0.2] * 2 if off else []) + ([0.1] if rotn else [])])
            returned = []
            for a in itertools.product(*((vals[:2] if off else ()) + (vals[2:] if rotn else ()))):
                ref = snap(b[0])
                kd = ref[band][0]
                if off:
                    kd["ra_shift"], kd["dec_shift"] = a[0], a[1]
                if rotn:
                    kd["phi_rot"] = a[-1]
                exp = band_logl(ref, "multi-linear", [i == band for i in range(3)], mk)
                w = "band %d offset %s rotation %s args %s preset %s" % (band, off, rotn, a, preset)
                rec.same("likelihood", f.likelihood(a), exp, 1e-8, 1e-8, w)
                rec.same("call", f(a), exp, 1e-8, 1e-8, w)
                d = f.update_data(a)
                rec.same("update_data", d, kd, 0, 0, w)
                returned.append((d, snap(d)))
                rec.trans()
                rec.state((band, off, rotn, mk is None, preset, a))
            rec.unchanged("arguments", b, [mbl, PARAMS, mk])
            for d, d0 in returned:
                rec.unchanged("returned-data", d0, d)
    rec.trace()


def calib_case(tier, rec):
    vals = (0.5, 1.0, 1.7)
    for sel in itertools.product((True, False), repeat=3):
        if not any(sel):
            continue
        for preset in (False, True):
            mbl = bands()
            if preset:
                for i in range(3):
                    mbl[i][0]["flux_scaling"] = 1.1 + 0.1 * i
            kim = dict(multi_band_list=mbl, multi_band_type="joint-linear")
            b = snap([kim, PARAMS])
            f = CalibrationLikelihood(MODEL, PARAMS, list(sel), kim)
            rec.true("num_param", f.num_param == sum(sel))
            rec.same("get_args", f.get_args(mbl), [mbl[i][0].get("flux_scaling", 1) for i in range(3) if sel[i]], 0, 0)
            returned = []
            for a in itertools.product(vals, repeat=sum(sel)):
                ref = snap(b[0]["multi_band_list"])
                q = list(a)
                for i in range(3):
                    if sel[i]:
                        ref[i][0]["flux_scaling"] = q.pop(0)
                w = "bands %s args %s preset %s" % (sel, a, preset)
                exp = band_logl(ref, "joint-linear")
                rec.same("likelihood", f.likelihood(a), exp, 1e-8, 1e-8, w)
                d = f.update_data(a)
                rec.same("update_data", d, ref, 0, 0, w)
                returned.append((d, snap(d)))
                rec.trans()
                rec.state((sel, preset, a))
            rec.unchanged("arguments", b, [kim, PARAMS])
            for d, d0 in returned:
                rec.unchanged("returned-data", d0, d)
    rec.raises("joint-only", lambda: FluxCalibration(dict(multi_band_list=bands(), multi_band_type="multi-linear"), MODEL, PARAMS, [True] * 3), ValueError)
    rec.trace()


def pso_case(tier, rec):
    for band, off, rotn, npart, niter in itertools.product(range(3), (True, False), (True, False), (2, 4), (1, 3)):
        if not off and not rotn:
            continue
        mbl = bands()
        b = snap(mbl)
        fit = AlignmentFitting(mbl, MODEL, PARAMS, band_index=band, align_offset=off, align_rotation=rotn)
        seen = []
        orig = fit.chain._likelihood
        fit.chain.__class__ = type("Rec", (AlignmentLikelihood,), {"__call__": lambda self, a: seen.append((np.array(a), orig(a))) or seen[-1][1],
                                                                   "likelihood": lambda self, a: seen.append((np.array(a), orig(a))) or seen[-1][1]})
        kd, chain = fit.pso(n_particles=npart, n_iterations=niter)
        best = max(seen, key=lambda t: t[1])
        a = ([kd["ra_shift"], kd["dec_shift"]] if off else []) + ([kd["phi_rot"]] if rotn else [])
        rec.same("align-best", a, best[0], 1e-12, 1e-12, "band %d" % band)
        rec.true("align-start", len(seen) > 0 and np.allclose(seen[0][0], 0), "the start must be evaluated")
        rec.unchanged("align-arguments", b, mbl)
        rec.trans()
        rec.state((band, off, rotn, npart, niter))
    for sel, npart, niter in itertools.product(((True, False, False), (False, True, True), (True, True, True)), (2, 4), (1, 3)):
        mbl = bands()
        kim = dict(multi_band_list=mbl, multi_band_type="joint-linear")
        b = snap(kim)
        fit = FluxCalibration(kim, MODEL, PARAMS, list(sel))
        seen = []
        orig = fit.chain._likelihood
        fit.chain.__class__ = type("Rec", (CalibrationLikelihood,), {"__call__": lambda self, a: seen.append((np.array(a), orig(a))) or seen[-1][1],
                                                                     "likelihood": lambda self, a: seen.append((np.array(a), orig(a))) or seen[-1][1]})
        out, chain = fit.pso(n_particles=npart, n_iterations=niter, scaling_lower_limit=0.1, scaling_upper_limit=3.0)
        best = max(seen, key=lambda t: t[1])
        rec.same("calibrate-best", [out[i][0]["flux_scaling"] for i in range(3) if sel[i]], best[0], 1e-12, 1e-12, str(sel))
        for i in range(3):
            if not sel[i]:
                rec.same("calibrate-others", out[i], b["multi_band_list"][i], 0, 0)
        rec.unchanged("calibrate-arguments", b, kim)
        rec.trans()
        rec.state((sel, npart, niter))
    rec.trace()


# ------------------------------------------------------------------ through the fitting sequence
def fs_setup():
    mbl = []
    for i in range(2):
        k = kern(3, "true")
        nn = 13
        kw = dict(image_data=np.zeros((nn, nn)), background_rms=0.05 * (i + 1), exposure_time=50.0, **frame(nn))
        m = ImageLinearFit(ImageData(**dict(kw, ra_shift=0.02 * i)), PSF(psf_type="PIXEL", kernel_point_source=k), lens_light_model_class=LightModel(["SERSIC"]),
                           point_source_class=PointSource(["UNLENSED"]))
        im = m.image(kwargs_lens_light=[dict(amp=10.0, R_sersic=0.3, n_sersic=1.0, center_x=0.1, center_y=0.0)],
                     kwargs_ps=[dict(ra_image=np.array([-0.3, 0.3]), dec_image=np.array([0.3, -0.2]), point_amp=np.array([6.0, 4.0]))]) * (1.0, 1.4)[i]
        mbl.append([dict(kw, image_data=im), dict(psf_type="PIXEL", kernel_point_source=kern(3, "start")), {}])
    model = dict(lens_light_model_list=["SERSIC"], point_source_model_list=["UNLENSED"])
    ll = dict(R_sersic=0.3, n_sersic=1.0, center_x=0.1, center_y=0.0)
    s = {k: 0.05 for k in ll}
    low = dict(R_sersic=0.01, n_sersic=0.5, center_x=-1.0, center_y=-1.0)
    up = dict(R_sersic=3.0, n_sersic=5.0, center_x=1.0, center_y=1.0)
    ps = dict(ra_image=np.array([-0.3, 0.3]), dec_image=np.array([0.3, -0.2]))
    pp = dict(lens_light_model=[[dict(ll)], [s], [{}], [low], [up]],
              point_source_model=[[ps], [dict(ra_image=np.ones(2) * 0.01, dec_image=np.ones(2) * 0.01)], [{}],
                                  [dict(ra_image=-np.ones(2), dec_image=-np.ones(2))], [dict(ra_image=np.ones(2), dec_image=np.ones(2))]])
    return mbl, model, pp


STEPS = {"psf": ["psf_iteration", dict(num_iter=2, psf_iter_factor=0.5, stacking_method="mean", verbose=False)],
         "psf0": ["psf_iteration", dict(num_iter=1, psf_iter_factor=0.5, stacking_method="mean", verbose=False, compute_bands=[True, False])],
         "align": ["align_images", dict(n_particles=4, n_iterations=3, delta_shift=0.05)],
         "align1": ["align_images", dict(n_particles=4, n_iterations=3, delta_shift=0.05, delta_rot=0.05, align_rotation=True, compute_bands=[False, True])],
         "cal": ["calibrate_images", dict(n_particles=4, n_iterations=3, calibrate_bands=[False, True], scaling_lower_limit=0.5, scaling_upper_limit=2.0)],
         "move": ["set_param_value", dict(lens_light=[[0, ["R_sersic"], [0.28]]])]}


def fs_case(kind, first, tier, rec):
    depth = 1 if tier == "quick" else 2
    for rest in itertools.product(STEPS, repeat=depth):
        seq = (first,) + rest
        if kind != "joint-linear" and "cal" in seq:
            continue
        np.random.seed(5)
        mbl, model, pp = fs_setup()
        joint = dict(multi_band_list=mbl, multi_band_type=kind)
        like = dict(bands_compute=[True, True])
        cons = dict(num_point_source_list=[2])
        args = [joint, model, cons, like, pp]
        b = snap(args)
        steps = [snap(STEPS[s]) for s in seq]
        fs = FittingSequence(joint, model, cons, like, pp, verbose=False)
        state = snap(fs.multi_band_list)
        for name, step in zip(seq, steps):
            before = snap(fs.multi_band_list)
            l0 = fs.best_fit_likelihood()
            s0 = snap(step)
            fs.fit_sequence([step])
            rec.unchanged("step", s0, step)
            after = snap(fs.multi_band_list)
            w = "%s after %s" % (name, seq)
            l1 = fs.best_fit_likelihood()
            if name == "cal" or (kind == "multi-linear" and name != "move"):
                rec.true("never-worse", l1 >= l0 - 1e-6 * abs(l0), w + " %g -> %g" % (l0, l1))
            # what a newly built sequence with the current bands and values gives
            new = FittingSequence(dict(multi_band_list=snap(fs.multi_band_list), multi_band_type=kind), model, cons, like, pp, verbose=False)
            new.update_state(fs.best_fit(bijective=True))
            rec.same("current-bands-used", l1, new.best_fit_likelihood(), 1e-9, 1e-9, w)
            for i in range(2):
                d0, p0, n0 = before[i]
                d1, p1, n1 = after[i]
                rec.same("numerics", n1, n0, 0, 0, w)
                if name.startswith("psf") and (name == "psf" or i == 0):
                    rec.same("data-kept", d1, d0, 0, 0, w)
                    rec.same("first-kernel", p1["kernel_point_source_init"], state[i][1]["kernel_point_source"], 0, 0, w)
                    rec.same("normalised", np.sum(p1["kernel_point_source"]), 1.0, 1e-8)
                elif name.startswith("align") and (name == "align" or i == 1):
                    rec.same("psf-kept", p1, p0, 0, 0, w)
                    x0, x1 = dict(d0), dict(d1)
                    for k in ("ra_shift", "dec_shift") + (("phi_rot",) if name == "align1" else ()):
                        x0.pop(k, None)
                        x1.pop(k, 0)
                    rec.same("rest-kept", x1, x0, 0, 0, w)
                elif name == "cal" and i == 1:
                    rec.same("psf-kept", p1, p0, 0, 0, w)
                    x0, x1 = dict(d0), dict(d1)
                    x0.pop("flux_scaling", None)
                    x1.pop("flux_scaling", None)
                    rec.same("rest-kept", x1, x0, 0, 0, w)
                else:
                    rec.same("untouched", after[i], before[i], 0, 0, w)
            mem = fs.psf_iteration_memory
            if name.startswith("psf"):
                last = mem[-1]
                rec.same("memory-after", last["psf_after"], after[last["band"]][1], 0, 0, w)
                rec.same("memory-before", last["psf_before"], before[last["band"]][1], 0, 0, w)
            rec.trans()
        rec.same("memory-length", len(fs.psf_iteration_memory), sum({"psf": 2, "psf0": 1}.get(s, 0) for s in seq), 0, 0, str(seq))
        rec.unchanged("caller", b, args)
        rec.state(seq)
        rec.trace()


def cases(tier):
    for s in (1, 2, 3, 4):
        yield "combine|%d" % s
    for n in STARS:
        for k in (3, 5) if tier == "quick" else (3, 5, 7, 9):
            yield "step|%s|%d" % (n, k)
    for n in ("one", "two", "three"):
        yield "old|%s" % n
        yield "iterate|%s" % n
    for s in (1, 2, 3):
        yield "fixed|%d" % s
    yield "lensed"
    yield "align"
    yield "calibrate"
    yield "pso"
    for k in ("multi-linear", "joint-linear"):
        for f in STEPS:
            yield "sequence|%s|%s" % (k, f)


def run_case(case, tier, rec):
    p = case.split("|")
    if p[0] == "combine":
        combine_case(int(p[1]), tier, rec)
    elif p[0] == "step":
        step_case(p[1], int(p[2]), tier, rec)
    elif p[0] == "sequence":
        fs_case(p[1], p[2], tier, rec)
    elif p[0] == "old":
        old_case(p[1], tier, rec)
    elif p[0] == "iterate":
        iterate_case(p[1], tier, rec)
    elif p[0] == "fixed":
        fixed_case(int(p[1]), tier, rec)
    else:
        dict(lensed=lensed_case, align=align_case, calibrate=calib_case, pso=pso_case)[p[0]](tier, rec)
