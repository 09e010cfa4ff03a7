"""P15: in a multi-band model every band uses the components, parameters, data and alignment assigned to it.

All assignments of components to bands (any subset in any order, per component type), all sets of computed bands, both linear
modes, masks, alignments and shifts, compared with models built by hand for each band.
"""
import itertools

import numpy as np

from lenstronomy.Analysis.image_reconstruction import MultiBandImageReconstruction
from lenstronomy.Data.imaging_data import ImageData
from lenstronomy.Data.psf import PSF
from lenstronomy.ImSim.differential_extinction import DifferentialExtinction
from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
from lenstronomy.ImSim.image_model import ImageModel
from lenstronomy.ImSim.MultiBand import JointLinear_VaryBG
from lenstronomy.LensModel.lens_model import LensModel
from lenstronomy.LightModel.light_model import LightModel
from lenstronomy.PointSource.point_source import PointSource
from lenstronomy.Util import class_creator
from vmc.core import snap

N = 7
COMP = dict(
    lens=dict(models=["SIE", "SHEAR", "NFW_ELLIPSE_CSE"], profile=[None, {}, dict(high_accuracy=False)], z=[0.5, 0.7, 0.6],
              kw=[dict(theta_E=0.7, e1=0.1, e2=-0.05, center_x=0.03, center_y=-0.02), dict(gamma1=0.04, gamma2=-0.03, ra_0=0, dec_0=0),
                  dict(alpha_Rs=0.1, Rs=0.8, e1=0.1, e2=0.05, center_x=-0.1, center_y=0.1)]),
    source=dict(models=["SERSIC_ELLIPSE", "SHAPELETS", "SERSIC_ELLIPSE"], profile=[dict(sersic_major_axis=True), None, dict(sersic_major_axis=False)], z=[1.5, 1.0, 1.2], scale=[1.0, 0.6, 0.8],
                kw=[dict(amp=1.5, R_sersic=0.3, n_sersic=1.3, e1=0.2, e2=-0.1, center_x=0.1, center_y=0.1), dict(amp=np.array([1.0, -0.5, 0.7]), n_max=1, beta=0.3, center_x=-0.1, center_y=0.0),
                    dict(amp=2.5, R_sersic=0.2, n_sersic=0.9, e1=-0.2, e2=0.1, center_x=-0.1, center_y=0.05)]),
    lens_light=dict(models=["SERSIC_ELLIPSE", "GAUSSIAN", "UNIFORM"], profile=[dict(sersic_major_axis=True), {}, None],
                    kw=[dict(amp=3.0, R_sersic=0.4, n_sersic=1.8, e1=0.2, e2=0.1, center_x=0.0, center_y=0.1), dict(amp=2.0, sigma=0.5, center_x=0.1, center_y=0.0), dict(amp=0.2)]),
    ps=dict(models=["LENSED_POSITION", "UNLENSED", "LENSED_POSITION"], fixmag=[False, False, True],
            kw=[dict(ra_image=np.array([0.51, -0.4]), dec_image=np.array([0.2, 0.43]), point_amp=np.array([3.0, 2.0])), dict(ra_image=np.array([-0.33]), dec_image=np.array([-0.45]), point_amp=np.array([4.0])),
                dict(ra_image=np.array([0.6, -0.3]), dec_image=np.array([-0.2, -0.5]), source_amp=1.2)]),
    ext=dict(models=["GAUSSIAN", "UNIFORM"], kw=[dict(amp=0.5, sigma=0.6, center_x=0.1, center_y=0.2), dict(amp=0.3)]),
)
INDEX = dict(lens="index_lens_model_list", source="index_source_light_model_list", lens_light="index_lens_light_model_list", ps="index_point_source_model_list", ext="index_optical_depth_model_list")


def kernel(n, s):
    g = np.arange(n * n, dtype=float).reshape(n, n)
    k = 1.2 + np.sin(1.3 * g + s)
    k[n // 2, n // 2] += 3
    return k / k.sum()


def band(b):
    """(kwargs_data, kwargs_psf, kwargs_numerics)"""
    g = np.arange(N * N, dtype=float).reshape(N, N)
    M = [np.array([[0.25, 0.02], [-0.03, 0.26]]), np.array([[-0.24, 0.0], [0.01, 0.22]]), np.array([[0.28, 0.0], [0.0, 0.28]])][b]
    c = -M.dot([(N - 1) / 2.0, (N - 1) / 2.0])
    dat = dict(image_data=2 + np.sin(0.7 * g + b), background_rms=0.2 + 0.1 * b, exposure_time=50.0 + 20 * b, transform_pix2angle=M, ra_at_xy_0=c[0] + 0.02 * b, dec_at_xy_0=c[1])
    psf = [dict(psf_type="PIXEL", kernel_point_source=kernel(3, 0.5), psf_variance_map=kernel(3, 1) ** 2), dict(psf_type="GAUSSIAN", fwhm=0.5, truncation=3), dict(psf_type="PIXEL", kernel_point_source=kernel(5, 2.0))][b]
    num = [{}, dict(supersampling_factor=2), dict(point_source_supersampling_factor=1)][b]
    return [dat, psf, num]


def mask(b):
    m = np.ones((N, N))
    m[1 + b, 2] = 0
    m[5, :b] = 0
    return m


def kwargs_model(index, opts):
    kw = dict(lens_model_list=list(COMP["lens"]["models"]), source_light_model_list=list(COMP["source"]["models"]), lens_light_model_list=list(COMP["lens_light"]["models"]),
              point_source_model_list=list(COMP["ps"]["models"]), fixed_magnification_list=list(COMP["ps"]["fixmag"]), lens_profile_kwargs_list=snap(COMP["lens"]["profile"]),
              source_light_profile_kwargs_list=snap(COMP["source"]["profile"]), lens_light_profile_kwargs_list=snap(COMP["lens_light"]["profile"]))
    if "ext" in opts:
        kw.update(optical_depth_model_list=list(COMP["ext"]["models"]), tau0_index_list=[1, 0, 2])
    if "multi" in opts:
        kw.update(multi_plane=True, z_source=1.5, lens_redshift_list=list(COMP["lens"]["z"]), source_redshift_list=list(COMP["source"]["z"]))
    if "scaled" in opts:
        kw.update(source_deflection_scaling_list=list(COMP["source"]["scale"]))
    for t, lists in index.items():
        kw[INDEX[t]] = None if lists is None else [list(l) for l in lists]
    return kw


def sel(index, t, b):
    if t not in index or index[t] is None:
        return list(range(len(COMP[t]["models"])))
    return list(index[t][b])


def pick(lst, idx):
    return [lst[i] for i in idx]


def manual(index, opts, b, cls=ImageLinearFit, masks=False, offset=None):
    il, isrc, ill, ips, ie = (sel(index, t, b) for t in ("lens", "source", "lens_light", "ps", "ext"))
    L, S, G, P = COMP["lens"], COMP["source"], COMP["lens_light"], COMP["ps"]
    extra = dict(multi_plane=True, z_source=1.5, lens_redshift_list=pick(L["z"], il)) if "multi" in opts else {}
    lm = LensModel(pick(L["models"], il), profile_kwargs_list=snap(pick(L["profile"], il)), **extra)
    sm = LightModel(pick(S["models"], isrc), profile_kwargs_list=snap(pick(S["profile"], isrc)), source_redshift_list=pick(S["z"], isrc) if "multi" in opts else None,
                    deflection_scaling_list=pick(S["scale"], isrc) if "scaled" in opts else None)
    gm = LightModel(pick(G["models"], ill), profile_kwargs_list=snap(pick(G["profile"], ill)))
    pm = PointSource(pick(P["models"], ips), lens_model=lm, fixed_magnification_list=pick(P["fixmag"], ips))
    em = DifferentialExtinction(pick(COMP["ext"]["models"], ie), tau0_index=[1, 0, 2][b]) if "ext" in opts else None
    dat, psf, num = band(b)
    d = ImageData(**dat)
    if offset is not None:
        d.update_coordinate_grid(**offset)
    return cls(d, PSF(**psf), lm, sm, gm, pm, em, num, mask(b) if masks else None)


def params(index, opts, b, kw):
    out = {}
    for t, name in (("lens", "kwargs_lens"), ("source", "kwargs_source"), ("lens_light", "kwargs_lens_light"), ("ps", "kwargs_ps"), ("ext", "kwargs_extinction")):
        out[name] = pick(kw[name], sel(index, t, b)) if kw[name] is not None else None
    return out


def full(opts):
    return dict(kwargs_lens=snap(COMP["lens"]["kw"]), kwargs_source=snap(COMP["source"]["kw"]), kwargs_lens_light=snap(COMP["lens_light"]["kw"]), kwargs_ps=snap(COMP["ps"]["kw"]),
                kwargs_extinction=snap(COMP["ext"]["kw"]) if "ext" in opts else None)


OFF = [[dict(ra_shift=0, dec_shift=0, phi_rot=0), dict(ra_shift=0.05, dec_shift=-0.02, phi_rot=0.1), dict(ra_shift=-0.03, dec_shift=0.06, phi_rot=0)],
       [dict(ra_shift=0.02, dec_shift=0.04, phi_rot=-0.1), dict(ra_shift=0, dec_shift=0.03, phi_rot=0), dict(ra_shift=0.01, dec_shift=0.0, phi_rot=0.2)]]


def ordered(n):
    return [list(p) for r in range(1, n + 1) for p in itertools.permutations(range(n), r)]


def assignments(t):
    """pairs of selections (band 0, band 1): every ordered selection appears in both bands"""
    o = ordered(len(COMP[t]["models"]))
    return [(o[i], o[(i * 7 + 3) % len(o)]) for i in range(len(o))] + [(o[(i * 5 + 2) % len(o)], o[i]) for i in range(len(o))]


def band_ref(index, opts, b, kw, sp, masks):
    off = sp["kwargs_offsets"][b] if sp and "kwargs_offsets" in sp else None
    m = manual(index, opts, b, masks=masks, offset=off)
    p = snap(params(index, opts, b, kw))
    rest = {k: v for k, v in (sp or {}).items() if k != "kwargs_offsets"} or None
    return m, p, rest


def compare_band(rec, index, opts, b, im, kw, sp, masks, what):
    """queries of one band of a (multi-)band model against the hand-built one"""
    m, p, rest = band_ref(index, opts, b, kw, sp, masks)
    img = ImageModel.image(m, kwargs_special=rest, **p)
    k2 = snap(kw)
    rec.same("image", im.image(kwargs_special=snap(sp), **k2), img, 1e-8, 1e-9, what=what)
    rec.same("source", im.source_surface_brightness(k2["kwargs_source"], k2["kwargs_lens"], k2["kwargs_extinction"], snap(sp)),
             m.source_surface_brightness(p["kwargs_source"], p["kwargs_lens"], p["kwargs_extinction"], rest), 1e-8, 1e-9, what=what)
    rec.same("lens-light", im.lens_surface_brightness(k2["kwargs_lens_light"]), m.lens_surface_brightness(p["kwargs_lens_light"]), 1e-8, 1e-9, what=what)
    rec.same("point-source", im.point_source(k2["kwargs_ps"], k2["kwargs_lens"], snap(sp)), m.point_source(p["kwargs_ps"], p["kwargs_lens"], rest), 1e-8, 1e-9, what=what)
    rec.same("response", im.linear_response_matrix(kwargs_special=snap(sp), **k2), m.linear_response_matrix(kwargs_special=rest, **p), 1e-8, 1e-10, what=what)
    rec.same("number", im.num_param_linear(k2["kwargs_lens"], k2["kwargs_source"], k2["kwargs_lens_light"], k2["kwargs_ps"]), m.num_param_linear(p["kwargs_lens"], p["kwargs_source"], p["kwargs_lens_light"], p["kwargs_ps"]), what=what)
    e1, e2 = im.error_response(k2["kwargs_lens"], k2["kwargs_ps"], snap(sp)), m.error_response(p["kwargs_lens"], p["kwargs_ps"], rest)
    rec.same("error-response", e1[0], e2[0], 1e-9, what=what)
    rec.same("error-map", e1[1], e2[1], 1e-9, 1e-12, what=what)
    if "ext" in opts:
        rec.same("extinction", im.extinction_map(k2["kwargs_extinction"], snap(sp)), m.extinction_map(p["kwargs_extinction"], rest), 1e-9, what=what)
    rec.same("linear-parameters", im.linear_param_from_kwargs(k2["kwargs_source"], k2["kwargs_lens_light"], k2["kwargs_ps"]), m.linear_param_from_kwargs(p["kwargs_source"], p["kwargs_lens_light"], p["kwargs_ps"]), 1e-12, what=what)
    n = m.num_param_linear(p["kwargs_lens"], p["kwargs_source"], p["kwargs_lens_light"], p["kwargs_ps"])
    cov = np.diag(1.0 + np.arange(n)) + 0.3 * np.outer(np.sin(np.arange(n)), np.sin(np.arange(n)))
    gx, gy = np.linspace(-0.6, 0.5, 12), np.linspace(0.4, -0.3, 12)
    rec.same("source-error", im.error_map_source(k2["kwargs_source"], gx, gy, cov), m.error_map_source(p["kwargs_source"], gx, gy, cov), 1e-9, 1e-12, what=what)
    rec.unchanged("args", kw, k2)
    rec.trans(9)


def solve_ref(index, opts, b, kw, sp, masks):
    m, p, rest = band_ref(index, opts, b, kw, sp, masks)
    out = m.image_linear_solve(kwargs_special=rest, inv_bool=True, **p)
    return m, p, out


def select_case(t, opts, tier, rec):
    for a in assignments(t):
        index = {t: a}
        km = kwargs_model(index, opts)
        km0 = snap(km)
        kw = full(opts)
        for b in (0, 1):
            for sp in (None, dict(kwargs_offsets=OFF[0], tau0_list=[0.5, 1.5, 0.8], delta_x_image=np.array([0.03, -0.04]), delta_y_image=np.array([-0.02, 0.05]))):
                what = "%s %s bands %s band %d special %s" % (t, opts, a, b, sp is not None)
                im = class_creator.create_im_sim([band(0), band(1)], "single-band", km, band_index=b)
                if sp is not None and t == "ps":
                    sp = {k: v for k, v in sp.items() if not k.startswith("delta")}
                compare_band(rec, index, opts, b, im, kw, sp, False, what)
                k2 = snap(kw)
                got = im.image_linear_solve(kwargs_special=snap(sp), inv_bool=True, **k2)
                m, p, exp = solve_ref(index, opts, b, kw, sp, False)
                if np.linalg.cond(m.linear_response_matrix(kwargs_special=None, **params(index, opts, b, kw))) < 1e5:
                    rec.same("solution", got[3], exp[3], 1e-6, 1e-8, what=what)
                    rec.same("solved-image", got[0], exp[0], 1e-7, 1e-8, what=what)
                    for name, sub in p.items():
                        if sub is not None:
                            tt = {"kwargs_lens": "lens", "kwargs_source": "source", "kwargs_lens_light": "lens_light", "kwargs_ps": "ps", "kwargs_extinction": "ext"}[name]
                            s = sel(index, tt, b)
                            for i, k in enumerate(k2[name]):
                                rec.same("updated", k, sub[s.index(i)] if i in s else kw[name][i], 1e-6, 1e-8, what=what + " %s %d" % (name, i))
                    for marg in (False, True):
                        L, _ = im.likelihood_data_given_model(kwargs_special=snap(sp), source_marg=marg, check_positive_flux=True, **snap(kw))
                        m2, p2, rest = band_ref(index, opts, b, kw, sp, False)
                        E, _ = m2.likelihood_data_given_model(kwargs_special=rest, source_marg=marg, check_positive_flux=True, **p2)
                        rec.same("likelihood", L, E, 1e-7, 1e-5, what=what)
                rec.trace()
                rec.state(what)
        rec.unchanged("model-settings", km0, km)
    rec.outcome(exp[3])


def explicit_none_case(tier, rec):
    """index lists not given, given as None or given as the full list describe the same model"""
    kw = full(())
    for t in INDEX:
        if t == "ext":
            continue
        n = len(COMP[t]["models"])
        imgs = []
        for index in ({}, {t: None}, {t: [list(range(n))] * 2}):
            im = class_creator.create_im_sim([band(0), band(1)], "multi-linear", kwargs_model(index, ()))
            imgs.append(im.likelihood_data_given_model(**snap(kw))[0])
            rec.trans()
        rec.same("index-none", np.array(imgs), np.full(3, imgs[0]), 1e-10, what=t)
        rec.trace()
        rec.state(t)
        rec.outcome(imgs)


MULTI = {
    "all": {}, "source": dict(source=([0, 1], [2], [1, 2])), "mixed": dict(source=([2, 0], [1], [0, 1, 2]), lens_light=([0], [2, 1], [1]), ps=([1], [0, 1], [0])),
    "empty": dict(ps=([], [1], [0]), lens_light=([0, 2], [], [1])), "lens": dict(lens=([0, 1], [2, 0], [1, 0])),
}


def multi_case(name, compute, masks, tier, rec):
    index = MULTI[name]
    opts = ()
    comp = [c == "1" for c in compute]
    nb = len(comp)
    kw = full(opts)
    sps = [None, dict(kwargs_offsets=OFF[0]), dict(kwargs_offsets=OFF[1])]
    ml = [mask(b) for b in range(nb)] if masks else None
    km = kwargs_model(index, opts)
    bands = [band(b) for b in range(nb)]
    bands0, km0 = snap(bands), snap(km)
    ref = {}
    for s, sp in enumerate(sps):
        for b in range(nb):
            m, p, sol = solve_ref(index, opts, b, kw, sp, masks)
            m2, p2, rest = band_ref(index, opts, b, kw, sp, masks)
            L = m2.likelihood_data_given_model(kwargs_special=rest, **p2)[0]
            num = m2.num_param_linear(p2["kwargs_lens"], p2["kwargs_source"], p2["kwargs_lens_light"], p2["kwargs_ps"])
            ref[s, b] = (sol, L, num, m)
    for seq in itertools.product(range(3), repeat=2 if tier == "quick" else 3):
        if any(a > 0 and b == 0 for a, b in zip(seq, seq[1:])):
            continue  # no alignment given keeps the previous one
        im = class_creator.create_im_sim(bands, "multi-linear", km, bands_compute=list(comp), image_likelihood_mask_list=ml)
        for s in seq:
            what = "%s computed %s masks %s alignments %s" % (name, compute, masks, seq)
            sp = snap(sps[s])
            L, par = im.likelihood_data_given_model(kwargs_special=sp, **snap(kw))
            rec.same("sum", L, sum(ref[s, b][1] for b in range(nb) if comp[b]), 1e-8, 1e-6, what=what)
            out = im.image_linear_solve(kwargs_special=sp, inv_bool=True, **snap(kw))
            for b in range(nb):
                if comp[b]:
                    rec.same("band-solution", par[b], ref[s, b][0][3], 1e-6, 1e-8, what=what + " band %d" % b)
                    rec.same("band-image", out[0][b], ref[s, b][0][0], 1e-7, 1e-8, what=what + " band %d" % b)
                    k2 = snap(kw)
                    im.update_linear_kwargs(out[3], b, k2["kwargs_lens"], k2["kwargs_source"], k2["kwargs_lens_light"], k2["kwargs_ps"])
                    m3 = manual(index, opts, b, masks=masks, offset=sp["kwargs_offsets"][b] if sp else None)
                    again = ImageModel.image(m3, **params(index, opts, b, k2))
                    if masks:
                        again = again * mask(b)
                    rec.same("band-update", again, out[0][b], 1e-7, 1e-8, what=what + " band %d" % b)
                else:
                    rec.true("band-not-computed", par[b] is None, what)
            rec.same("num-data", im.num_data_evaluate, sum(int((mask(b) if masks else np.ones((N, N))).sum()) for b in range(nb) if comp[b]), what=what)
            rec.same("num-linear", im.num_param_linear(kw["kwargs_lens"], kw["kwargs_source"], kw["kwargs_lens_light"], kw["kwargs_ps"]), sum(ref[s, b][2] for b in range(nb) if comp[b]), what=what)
            if any(comp):
                res = im.reduced_residuals(out[0], error_map_list=out[1])
                rec.same("num-residuals", len(res), sum(comp), what=what)
                for r, b in zip(res, [b for b in range(nb) if comp[b]]):
                    exp = ref[s, b][3].reduced_residuals(ref[s, b][0][0], error_map=ref[s, b][0][1])
                    rec.same("residuals", r, exp, 1e-6, 1e-7, what=what + " band %d" % b)
            rec.trans(4)
        rec.trace()
        rec.state(what)
    rec.unchanged("settings", (bands0, km0), (bands, km))
    if any(comp) and not masks:
        for s, sp in enumerate(sps):
            recon(rec, "multi-linear", bands, km, kw, comp, {b: ref[s, b][0] for b in range(nb)}, "%s %s" % (name, compute), index, opts, sp)
    rec.outcome([v[1] for v in ref.values()])


def recon(rec, mtype, bands, km, kw, comp, sols, what, index, opts, sp=None):
    k2 = dict(snap({k: v for k, v in kw.items()}), kwargs_special=snap(sp) or {})
    keys = sorted(k2)
    r = MultiBandImageReconstruction(bands, km, k2, multi_band_type=mtype, kwargs_likelihood=dict(bands_compute=list(comp)), verbose=False)
    rec.same("reconstruction-settings", sorted(k for k in k2 if k2[k] is not None or k in kw), keys, what=what)
    for b in range(len(comp)):
        if comp[b]:
            mod, kk = r.band_setup(b)
            rec.same("reconstruction-image", r.model_band_list[b].model, sols[b][0], 1e-7, 1e-8, what=what + " band %d" % b)
            rec.same("reconstruction-setup", ImageModel.image(mod, **snap(kk)), sols[b][0], 1e-7, 1e-8, what=what + " band %d" % b)
            kk = {k: v for k, v in kk.items() if k in ("kwargs_lens", "kwargs_source", "kwargs_lens_light", "kwargs_ps")}
            m3 = manual(index, opts, b, offset=sp["kwargs_offsets"][b] if sp else None)
            rec.same("reconstruction-kwargs", ImageModel.image(m3, **kk), sols[b][0], 1e-7, 1e-8, what=what + " band %d" % b)
        else:
            rec.true("reconstruction-none", r.model_band_list[b] is None, what)
        rec.trans()


def joint_case(name, compute, masks, kind, tier, rec):
    """amplitudes shared by all bands"""
    index = {"all": {}, "part": dict(source=([2, 0], [2, 0], [2, 0]), ps=([1], [1], [1]))}[name]
    if kind == "vary":  # a uniform component is degenerate with the backgrounds
        index = dict(index, lens_light=([0, 1], [0, 1], [0, 1]))
    comp = [c == "1" for c in compute]
    nb = len(comp)
    opts = ()
    kw = full(opts)
    ml = [mask(b) for b in range(nb)] if masks else None
    km = kwargs_model(index, opts)
    sps = [None, dict(kwargs_offsets=OFF[0]), dict(kwargs_offsets=OFF[1], delta_x_image=np.array([0.03, -0.04]), delta_y_image=np.array([-0.02, 0.05]))]
    bands = [band(b) for b in range(nb)]
    for seq in itertools.product(range(3), repeat=2 if tier == "quick" else 3):
        if any(a > 0 and b == 0 for a, b in zip(seq, seq[1:])):
            continue
        if kind == "joint":
            im = class_creator.create_im_sim(bands, "joint-linear", km, bands_compute=list(comp), image_likelihood_mask_list=ml)
        else:
            im = JointLinear_VaryBG(bands, km, compute_bool=list(comp), likelihood_mask_list=ml)
        for s in seq:
            sp = sps[s]
            what = "%s %s computed %s masks %s alignments %s" % (kind, name, compute, masks, seq)
            A, C, d, errs, ms = [], [], [], [], []
            on = [b for b in range(nb) if comp[b]]
            for b in on:
                m, p, rest = band_ref(index, opts, b, kw, sp, masks)
                a = m.linear_response_matrix(kwargs_special=rest, **p)
                if kind == "vary":
                    bg = np.zeros((len(on), a.shape[1]))
                    bg[on.index(b)] = 1
                    a = np.append(a, bg, axis=0)
                c, e = m.error_response(p["kwargs_lens"], p["kwargs_ps"], rest)
                A.append(a), C.append(c), d.append(m.data_response), errs.append(e), ms.append(m)
            A, C, d = np.concatenate(A, axis=1), np.concatenate(C), np.concatenate(d)
            if kind == "vary":
                assert np.linalg.cond(A) < 1e7, np.linalg.cond(A)
            Mx = (A / C).dot(A.T)
            par = np.linalg.solve(Mx, (A / C).dot(d))
            k2 = snap(kw)
            wls, er, cov, got = im.image_linear_solve(kwargs_special=snap(sp), inv_bool=True, **k2)
            num = A.shape[0]
            if kind == "vary" and len(got) == A.shape[0] - len(on) + nb:  # one background per band, also of bands not computed
                got_c = np.append(got[: A.shape[0] - len(on)], [got[A.shape[0] - len(on) + b] for b in on])
            else:
                got_c = got
            rec.same("joint-solution", got_c, par, 1e-6, 1e-8, what=what)
            k = 0
            imgs = []
            for i, b in enumerate(on):
                n = ms[i].num_data_evaluate
                imgs.append(ms[i].array_masked2image(A[:, k:k + n].T.dot(par)))
                k += n
                rec.same("joint-image", wls[i], imgs[-1], 1e-7, 1e-8, what=what + " band %d" % b)
                rec.same("joint-error", er[i], errs[i], 1e-8, 1e-12, what=what)
            E = sum(ms[i].Data.log_likelihood(imgs[i], ms[i].likelihood_mask, errs[i]) for i in range(len(on)))
            rec.same("joint-covariance", cov.dot(Mx) if cov.shape == Mx.shape else cov.shape, np.eye(len(Mx)), 1e-4, 1e-5, what=what)
            n_lin = A.shape[0]
            rec.same("joint-number", im.num_param_linear(kw["kwargs_lens"], kw["kwargs_source"], kw["kwargs_lens_light"], kw["kwargs_ps"]), n_lin, what=what)
            rec.same("joint-num-data", im.num_data_evaluate, len(d), what=what)
            # amplitudes written back
            k3 = snap(kw)
            im.update_linear_kwargs(got, on[0], k3["kwargs_lens"], k3["kwargs_source"], k3["kwargs_lens_light"], k3["kwargs_ps"])
            if kind == "joint":
                for i, b in enumerate(on):
                    m, p, rest = band_ref(index, opts, b, k3, sp, False)
                    again = ImageModel.image(m, kwargs_special=rest, **p)
                    if masks:
                        again = again * mask(b)
                    rec.same("joint-update", again, imgs[i], 1e-7, 1e-8, what=what + " band %d" % b)
            first = manual(index, opts, on[0])
            neg = not first.check_positive_flux(*[params(index, opts, on[0], k3)[q] for q in ("kwargs_source", "kwargs_lens_light", "kwargs_ps")])
            for marg, pos in itertools.product((False, True), repeat=2):
                L, p3 = im.likelihood_data_given_model(kwargs_special=snap(sp), source_marg=marg, check_positive_flux=pos, **snap(kw))
                exp = E + (-0.5 * np.linalg.slogdet(Mx)[1] if marg else 0) - (1e5 if pos and neg else 0)
                rec.same("joint-likelihood", L, exp, 1e-7, 1e-4, what=what + " marginalised %s positive %s" % (marg, pos))
                rec.trans()
        rec.trace()
        rec.state(what)
        rec.outcome(par)
    if kind == "joint" and not masks:
        im = class_creator.create_im_sim(bands, "joint-linear", km, bands_compute=list(comp))
        wls = im.image_linear_solve(**snap(kw))[0]
        recon(rec, "joint-linear", bands, km, kw, comp, {b: (wls[on.index(b)],) for b in on}, what, index, opts)
        im = class_creator.create_im_sim(bands, "joint-linear", km, bands_compute=list(comp))
        wls = im.image_linear_solve(kwargs_special=snap(sps[1]), **snap(kw))[0]
        recon(rec, "joint-linear", bands, km, kw, comp, {b: (wls[on.index(b)],) for b in on}, what, index, opts, sps[1])


def tracer_type_case(tier, rec):
    """the tracer model of the model settings is the directly built one"""
    from lenstronomy.ImSim.tracer_model import TracerModelSource

    kw = full(())
    for ttype, part, b, idx in itertools.product((None, "LINEAR", "LOG"), (None, [[0, 0]], [[0, 1], [1, 0]]), (0, 1), ({}, dict(source=([0, 1], [2, 0]), lens=([0, 1], [1, 0])))):
        km = kwargs_model(idx, ())
        km.update(tracer_source_model_list=["GAUSSIAN", "UNIFORM"], tracer_source_band=b)
        if ttype is not None:
            km["tracer_type"] = ttype
        if part is not None:
            km["tracer_partition"] = part
        kt = [dict(amp=0.8, sigma=0.6, center_x=0.1, center_y=0.2), dict(amp=0.4)]
        dat, psf, num = band(0)
        tm = class_creator.create_tracer_model([dat, psf, num], km)
        p = params(idx, (), b, kw)
        ref = manual(idx, (), b)
        dat, psf, num = band(0)
        lm, sm = ref.LensModel, ref.SourceModel
        rm = TracerModelSource(ImageData(**dat), PSF(**psf), lm, sm, tracer_source_class=LightModel(["GAUSSIAN", "UNIFORM"]), kwargs_numerics=num, tracer_partition=part, tracer_type=ttype or "LINEAR")
        rec.same("tracer", tm.tracer_model(snap(kt), p["kwargs_lens"], p["kwargs_source"]), rm.tracer_model(snap(kt), p["kwargs_lens"], p["kwargs_source"]), 1e-9, what="%s %s band %d %s" % (ttype, part, b, idx))
        rec.trans()
        rec.trace()
        rec.state("%s%s%d%s" % (ttype, part, b, idx))
    rec.outcome(0)


def cases(tier):
    out = ["select|%s|%s" % (t, o) for t in ("lens", "source", "lens_light", "ps") for o in ("-", "multi", "scaled")]
    out += ["select|ext|ext", "select|source|ext", "none", "tracer"]
    comp2 = ["".join(c) for c in itertools.product("01", repeat=2)]
    comp3 = ["".join(c) for c in itertools.product("01", repeat=3)]
    out += ["multi|%s|%s|%d" % (n, c, m) for n in MULTI for c in comp3 + comp2 for m in (0, 1)]
    out += ["joint|%s|%s|%d|%s" % (n, c, m, k) for n in ("all", "part") for c in comp3 + comp2 for m in (0, 1) for k in ("joint", "vary") if "1" in c]
    return out


def run_case(case, tier, rec):
    t = case.split("|")
    if t[0] == "select":
        select_case(t[1], () if t[2] == "-" else (t[2],), tier, rec)
    elif t[0] == "none":
        explicit_none_case(tier, rec)
    elif t[0] == "tracer":
        tracer_type_case(tier, rec)
    elif t[0] == "multi":
        multi_case(t[1], t[2], bool(int(t[3])), tier, rec)
    else:
        joint_case(t[1], t[2], bool(int(t[3])), t[4], tier, rec)
