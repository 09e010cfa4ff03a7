"""P25: simulated scenes and reconstructions are the declared model."""
import itertools

import numpy as np
from astropy.cosmology import FlatLambdaCDM

from lenstronomy.Analysis.image_reconstruction import MultiBandImageReconstruction
from lenstronomy.Analysis.multi_patch_reconstruction import MultiPatchReconstruction
from lenstronomy.Cosmo.lens_cosmo import LensCosmo
from lenstronomy.Data.imaging_data import ImageData
from lenstronomy.Data.pixel_grid import PixelGrid
from lenstronomy.Data.psf import PSF
from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
from lenstronomy.ImSim.image_model import ImageModel
from lenstronomy.LensModel import convergence_integrals
from lenstronomy.LensModel.LightConeSim.light_cone import LightCone, MassSlice
from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
from lenstronomy.LensModel.lens_model import LensModel
from lenstronomy.LightModel.light_model import LightModel
from lenstronomy.PointSource.point_source import PointSource
from lenstronomy.SimulationAPI.mag_amp_conversion import MagAmpConversion
from lenstronomy.SimulationAPI.model_api import ModelAPI
from lenstronomy.SimulationAPI.point_source_variability import PointSourceVariability
from lenstronomy.SimulationAPI.sim_api import SimAPI
from lenstronomy.Util import class_creator, data_util, simulation_util
from vmc.core import snap

COSMO = FlatLambdaCDM(H0=71.0, Om0=0.29)

SHAPE = {"SERSIC": dict(R_sersic=0.4, n_sersic=1.3, center_x=0.1, center_y=-0.05),
         "SERSIC_ELLIPSE": dict(R_sersic=0.5, n_sersic=1.0, e1=0.1, e2=-0.2, center_x=-0.1, center_y=0.1),
         "GAUSSIAN": dict(sigma=0.3, center_x=0.05, center_y=0.15)}
LENS = {"EPL": dict(theta_E=0.7, gamma=2.1, e1=0.1, e2=0.05, center_x=0.02, center_y=0.0),
        "SHEAR": dict(gamma1=0.05, gamma2=-0.03), "SIS": dict(theta_E=0.25, center_x=-0.4, center_y=0.3)}


def flux_of_unit(name):
    """Total flux of a profile with amplitude one, by integration on a fine grid in polar coordinates around its centre."""
    k = SHAPE[name]
    if name == "GAUSSIAN":
        return 1.0
    x, w = np.polynomial.legendre.leggauss(400)
    # r = t/(1-t)
    t = (x + 1) / 2
    r = 0.4 * t / (1 - t)
    jac = 0.4 / (1 - t) ** 2 * w / 2
    ph = np.arange(256) * 2 * np.pi / 256
    R, P = np.meshgrid(r, ph)
    lm = LightModel([name])
    s = lm.surface_brightness((R * np.cos(P) + k["center_x"]).ravel(), (R * np.sin(P) + k["center_y"]).ravel(), [dict(k, amp=1.0)]).reshape(R.shape)
    return np.sum(s.mean(axis=0) * 2 * np.pi * r * jac)


BAND = dict(read_noise=5.0, pixel_scale=0.13, exposure_time=90.0, sky_brightness=21.0, magnitude_zero_point=26.3, num_exposures=3, seeing=0.3, psf_type="GAUSSIAN")


def sim_case(unit, tier, rec):
    fl = {n: flux_of_unit(n) for n in SHAPE}
    band = dict(BAND, ccd_gain=2.3, data_count_unit=unit)
    gain = 2.3 if unit == "ADU" else 1.0
    lights = [()] + [c for m in (1, 2) for c in itertools.permutations(SHAPE, m)]
    small = lights if tier == "thorough" else [(), ("SERSIC",), ("GAUSSIAN", "SERSIC_ELLIPSE")]
    for lens, src, ll, ps in itertools.product(([], ["EPL", "SHEAR"]), small, lights, ((), ("SOURCE_POSITION",), ("LENSED_POSITION", "UNLENSED"))):
        if not lens and ps == ("SOURCE_POSITION",):
            continue
        km = dict(lens_model_list=list(lens), source_light_model_list=list(src), lens_light_model_list=list(ll), point_source_model_list=list(ps))
        kl = [dict(LENS[n]) for n in lens]
        mags = lambda names, m0: [dict(SHAPE[n], magnitude=m0 + 0.7 * i) for i, n in enumerate(names)]
        ks, kll = mags(src, 22.1), mags(ll, 20.4)
        kps = []
        for i, p in enumerate(ps):
            kps.append(dict(ra_source=0.05, dec_source=0.03, magnitude=21.0) if p == "SOURCE_POSITION" else
                       dict(ra_image=np.array([0.3, -0.41]), dec_image=np.array([-0.2, 0.37]), magnitude=np.array([21.0 + i, 22.0])))
        b = snap([band, km, kl, ks, kll, kps])
        num = 12
        sim = SimAPI(num, band, km)
        la, sa, pa = sim.magnitude2amplitude(kll, ks, kps)
        rec.unchanged("arguments", b, [band, km, kl, ks, kll, kps])
        w = "%s %s %s %s" % (lens, src, ll, ps)
        cps = lambda m: 10 ** (-(np.asarray(m) - 26.3) / 2.5) / gain
        for names, mag, got in ((ll, kll, la), (src, ks, sa)):
            exp = [dict(SHAPE[n], amp=cps(m["magnitude"]) / fl[n]) for n, m in zip(names, mag)]
            rec.same("amplitudes", got, exp, 2e-3, 1e-9, w)
        for i, p in enumerate(ps):
            key = "source_amp" if p == "SOURCE_POSITION" else "point_amp"
            rec.same("point-amplitudes", pa[i][key], cps(kps[i]["magnitude"]), 1e-9, 0, w)
        mac = MagAmpConversion(km, 26.3).magnitude2amplitude(kll, ks, kps)
        if unit == "e-":
            rec.same("conversion-class", mac, [la, sa, pa], 1e-9, 0, w)
        for names, mag, got in ((ll, kll, la), (src, ks, sa)):
            d = data_util.magnitude2amplitude(LightModel(list(names)), mag, 26.3)
            rec.same("conversion-function", [g["amp"] / gain for g in d], [g["amp"] for g in got], 1e-9, 0, w)
        for knum in ({}, dict(supersampling_factor=2)):
            im = sim.image_model_class(knum).image(kl, sa, la, pa)
            c = (num - 1) / 2.0 * 0.13
            data = ImageData(np.zeros((num, num)), ra_at_xy_0=-c, dec_at_xy_0=-c, transform_pix2angle=np.eye(2) * 0.13)
            lm = LensModel(list(lens))
            man = ImageModel(data, PSF(psf_type="GAUSSIAN", fwhm=0.3, pixel_size=0.13), lm, LightModel(list(src)), LightModel(list(ll)),
                             PointSource(list(ps), lens_model=lm, fixed_magnification_list=[p == "SOURCE_POSITION" for p in ps]), kwargs_numerics=knum)
            rec.same("image", im, man.image(kl, sa, la, pa), 1e-8, 1e-10, w)
            rec.trans()
        rec.state((tuple(lens), src, ll, ps))
        rec.outcome(im)
    # grids
    for n, grid in itertools.product((3, 4, 7), (None, dict(ra_at_xy_0=1.0, dec_at_xy_0=-2.0, transform_pix2angle=np.array([[0.0, 0.13], [-0.13, 0.0]])))):
        sim = SimAPI(n, dict(band, kwargs_pixel_grid=grid), {})
        d = sim.data_class
        x, y = d.pixel_coordinates
        j, i = np.mgrid[:n, :n]
        if grid is None:
            rec.same("grid", [x, y], [(i - (n - 1) / 2.0) * 0.13, (j - (n - 1) / 2.0) * 0.13], 1e-9, 1e-10)
        else:
            rec.same("grid", [x, y], [1.0 + 0.13 * j, -2.0 - 0.13 * i], 1e-9, 1e-10)
        t = 270.0 * gain
        rec.same("exposure", d.exposure_map, np.full_like(d.exposure_map, t) if np.ndim(d.exposure_map) else t, 1e-9, 0)
        var = (3 * 25.0 + 270.0 * 10 ** (-(21.0 - 26.3) / 2.5) * 0.13 ** 2) / 270.0 ** 2 / gain ** 2
        rec.same("background", d.background_rms ** 2, var, 1e-9, 0)
        rec.trans()
    for missing in ("ra_at_xy_0", "dec_at_xy_0", "transform_pix2angle"):
        g = dict(ra_at_xy_0=1.0, dec_at_xy_0=-2.0, transform_pix2angle=np.eye(2))
        del g[missing]
        rec.raises("incomplete-grid", lambda: SimAPI(3, dict(band, kwargs_pixel_grid=g), {}), ValueError)
    rec.trace()


def model_case(tier, rec):
    """Physical conversion and multi-plane set up of the simulation interface."""
    zs = (0.3, 0.5, 0.9)
    for zl, zconv, zsrc in itertools.product(itertools.product(zs, repeat=2), (None, 2.5), (1.2, 1.8)):
        for red in (None, list(zl)):
            km = dict(lens_model_list=["SIS", "NFW"], z_lens=zl[0], z_source=zsrc, cosmo=COSMO, z_source_convention=zconv, lens_redshift_list=red,
                      source_light_model_list=["SERSIC"])
            api = ModelAPI(**km)
            km_mass = [dict(sigma_v=230.0, center_x=0.1, center_y=0.0), dict(M200=1e13, concentration=6.0, center_x=0.0, center_y=0.2)]
            b = snap(km_mass)
            got = api.physical2lensing_conversion(km_mass)
            rec.unchanged("arguments", b, km_mass)
            exp = []
            for i, z in enumerate((zl[0], zl[0]) if red is None else zl):
                lc = LensCosmo(z, zconv or zsrc, cosmo=COSMO)
                if i == 0:
                    exp.append(dict(theta_E=4 * np.pi * (230.0 / 299792.458) ** 2 * lc.dds / lc.ds / (np.pi / 180 / 3600), center_x=0.1, center_y=0.0))
                else:
                    rs, al = lc.nfw_physical2angle(1e13, 6.0)
                    exp.append(dict(Rs=rs, alpha_Rs=al, center_x=0.0, center_y=0.2))
            w = "planes %s convention %s source %s" % (red, zconv, zsrc)
            rec.same("conversion", got, exp, 1e-5, 1e-9, w)
            x, y = np.array([0.5, -0.7, 1.1]), np.array([0.2, 0.9, -0.4])
            man = LensModel(["SIS", "NFW"], z_lens=zl[0], z_source=zsrc, lens_redshift_list=red, multi_plane=red is not None, cosmo=COSMO,
                            z_source_convention=zconv or zsrc)
            rec.same("deflection", api.lens_model_class.alpha(x, y, got), man.alpha(x, y, got), 1e-9, 1e-12, w)
            rec.trans()
            rec.state((zl, zconv, zsrc, red is None))
    rec.trace()


def variable_case(tier, rec):
    """Varying point sources: background plus delayed, magnified light curves, for any order of queries."""
    km = dict(lens_model_list=["EPL", "SHEAR"], lens_light_model_list=["SERSIC"], source_light_model_list=["GAUSSIAN"], z_lens=0.5, z_source=1.5, cosmo=COSMO)
    kl = [LENS["EPL"], LENS["SHEAR"]]
    times = (-20.0, 0.0, 13.0, 40.0)
    for src, curve, static in itertools.product(((0.05, 0.03), (0.2, 0.0), (0.35, -0.3)), (lambda t: 21.0 + 0.01 * t, lambda t: 20.0 if t < 0 else 23.0), (False, True)):
        calls = []
        # a second point source that does not vary
        kms = dict(km, point_source_model_list=["UNLENSED"]) if static else km
        star = dict(ra_image=np.array([0.7, -0.4]), dec_image=np.array([-0.5, 0.9]))

        def func(t):
            calls.append(t)
            return curve(t)
        def mk():
            return PointSourceVariability(src[0], src[1], func, 40, BAND, kms, {}, kl, kwargs_source_mag=[dict(SHAPE["GAUSSIAN"], magnitude=21.0)],
                                          kwargs_lens_light_mag=[dict(SHAPE["SERSIC"], magnitude=19.0)], kwargs_ps_mag=[dict(star, magnitude=np.array([20.5, 21.5]))] if static else None)
        v = mk()
        lm = LensModel(["EPL", "SHEAR"], z_lens=0.5, z_source=1.5, cosmo=COSMO)
        k0 = v.point_source_time(0.0)[0]
        x, y = k0["ra_image"], k0["dec_image"]
        bx, by = lm.ray_shooting(x, y, kl)
        rec.same("images", [bx, by], [np.full_like(bx, src[0]), np.full_like(by, src[1])], 0, 1e-5, str(src))
        t = lm.arrival_time(x, y, kl)
        rec.same("delays", v.delays, t - t.min(), 1e-6, 1e-6, str(src))
        mag = np.abs(lm.magnification(x, y, kl))
        sim = SimAPI(40, BAND, dict(km, point_source_model_list=["UNLENSED"]))
        la, sa, _ = sim.magnitude2amplitude([dict(SHAPE["SERSIC"], magnitude=19.0)], [dict(SHAPE["GAUSSIAN"], magnitude=21.0)])
        im = sim.image_model_class({})
        exp = {}
        still = im.image(kl, sa, la, [dict(star, point_amp=10 ** (-(np.array([20.5, 21.5]) - 26.3) / 2.5))], source_add=False, lens_light_add=False)
        for tt in times:
            amp = np.array([10 ** (-(curve(tt - d) - 26.3) / 2.5) for d in t - t.min()]) * mag
            exp[tt] = im.image(kl, sa, la, [dict(ra_image=x, dec_image=y, point_amp=amp)])
            if static:
                exp[tt] = exp[tt] + still
        rec.same("background", v.image_bkg, im.image(kl, sa, la, point_source_add=False) + (still if static else 0), 1e-8, 1e-10)
        for seq in itertools.product(times, repeat=2 if tier == "quick" else 3):
            v = mk()
            for tt in seq:
                rec.same("image", v.image_time(tt), exp[tt], 1e-7, 1e-9, "%s %s" % (src, seq))
                rec.trans()
            rec.state((src, seq))
            rec.trace()
    # the scene and its frame moved together, in frames of every size that holds the images
    for src, npix, (dx, dy), (cx, sy) in itertools.product(((0.05, 0.03), (0.2, 0.0)), (14, 17, 40), ((0, 0), (2.0, -3.5), (-6.0, 0.5)), ((1, 1), (-1, 1))):
        tr = np.array([[cx * BAND["pixel_scale"], 0], [0, sy * BAND["pixel_scale"]]])
        o = np.array([dx, dy]) - tr.dot([(npix - 1) / 2.0] * 2)
        band = dict(BAND, kwargs_pixel_grid=dict(ra_at_xy_0=o[0], dec_at_xy_0=o[1], transform_pix2angle=tr))
        mv = lambda k: dict(k, center_x=k["center_x"] + dx, center_y=k["center_y"] + dy)
        klm = [mv(kl[0]), dict(kl[1], ra_0=dx, dec_0=dy)]
        v = PointSourceVariability(src[0] + dx, src[1] + dy, lambda t: 20.0 if t < 0 else 23.0, npix, band, km, {}, klm,
                                   kwargs_source_mag=[dict(mv(SHAPE["GAUSSIAN"]), magnitude=21.0)], kwargs_lens_light_mag=[dict(mv(SHAPE["SERSIC"]), magnitude=19.0)])
        lm = LensModel(["EPL", "SHEAR"], z_lens=0.5, z_source=1.5, cosmo=COSMO)
        x, y = LensEquationSolver(lm).image_position_from_source(src[0], src[1], kl, min_distance=0.05, search_window=4.0, precision_limit=1e-12, num_iter_max=200)
        w = "%d pixels at %s source %s axes %s" % (npix, (dx, dy), src, (cx, sy))
        k0 = v.point_source_time(0.0)[0]
        half = npix * BAND["pixel_scale"] / 2.0
        if np.all(np.abs(x) < half - 0.11) and np.all(np.abs(y) < half - 0.11):
            rec.same("moved-images", sorted(zip(k0["ra_image"] - dx, k0["dec_image"] - dy)), sorted(zip(x, y)), 0, 2e-4, w)
            t = lm.arrival_time(x, y, kl)
            rec.same("moved-delays", sorted(v.delays), sorted(t - t.min()), 1e-3, 1e-3, w)
        rec.trans()
        rec.state(w)
    rec.trace()


# ------------------------------------------------------------------ reconstruction
def scene(lens, src, ll, ps, n, pix, origin, rot, scale, seed):
    c, s = np.cos(rot), np.sin(rot)
    m = np.array([[c, -s], [s, c]]) * pix
    data = dict(image_data=np.zeros(n[::-1]), ra_at_xy_0=origin[0], dec_at_xy_0=origin[1], transform_pix2angle=m, background_rms=0.1 + 0.05 * seed, exposure_time=50.0 + 10 * seed)
    j, i = np.mgrid[:n[1], :n[0]]
    data["image_data"] = scale * (3 * np.exp(-((i - n[0] / 2) ** 2 + (j - n[1] / 2.3) ** 2) / 6.0) + 0.3 * np.cos(1.1 * i + 0.4 * j + seed))
    k = np.array([[0.0, 0.1, 0.02], [0.12, 0.5, 0.1], [0.03, 0.1, 0.03]])
    return [data, dict(psf_type="PIXEL", kernel_point_source=k / k.sum()), {}]


def sub(seq, idx):
    return [snap(seq[i]) for i in idx]


def recon_case(kind, tier, rec):
    lens, src, ll = ["EPL", "SHEAR"], ["SERSIC", "GAUSSIAN"], ["SERSIC_ELLIPSE", "GAUSSIAN"]
    kl = [dict(LENS[n]) for n in lens]
    ks = [dict(SHAPE[n], amp=1.0) for n in src]
    kll = [dict(SHAPE[n], amp=1.0) for n in ll]
    kps = [dict(ra_image=np.array([0.3, -0.4]), dec_image=np.array([-0.2, 0.35]), point_amp=np.ones(2))]
    subsets = [[0], [1], [0, 1]] if tier == "quick" else [[0], [1], [0, 1], [1, 0]]
    n = (11, 11)
    o = -5 * 0.13
    bands = [scene(lens, src, ll, None, n, 0.13, (o, o), 0.0, 1.0, 0), scene(lens, src, ll, None, n, 0.13, (o + 0.02, o - 0.03), 0.1, 1.3, 1)]
    masks = [np.ones(n), np.ones(n)]
    masks[1][2, 3:6] = 0
    for s0, s1, l0, l1, p in itertools.product(subsets, subsets, [[0], [0, 1]], subsets, ([[0], [0]], [[0], []])):
        for compute, mk, marg in itertools.product(([True, True], [False, True], [True, False], None), (None, masks), (False,)):
            if kind == "joint-linear" and (s0, l0, p[0]) != (s1, l1, p[1]):
                continue  # joint amplitudes are defined for common components
            km = dict(lens_model_list=lens, source_light_model_list=src, lens_light_model_list=ll, point_source_model_list=["LENSED_POSITION"],
                      index_source_light_model_list=[s0, s1], index_lens_light_model_list=[l0, l1], index_point_source_model_list=p)
            kp = dict(kwargs_lens=kl, kwargs_source=ks, kwargs_lens_light=kll, kwargs_ps=kps, kwargs_special={}, kwargs_extinction=[])
            like = dict(image_likelihood_mask_list=mk, bands_compute=compute, source_marg=marg)
            b = snap([bands, km, kp, like])
            r = MultiBandImageReconstruction(bands, km, kp, multi_band_type=kind, kwargs_likelihood=like, verbose=False)
            rec.unchanged("arguments", b, [bands, km, kp, like])
            comp = compute or [True, True]
            w = "source %s/%s light %s/%s ps %s compute %s masks %s" % (s0, s1, l0, l1, p, compute, mk is not None)
            models, par = {}, {}
            for i in range(2):
                si, li, pi = (s0, s1)[i], (l0, l1)[i], p[i]
                d, psf, num = bands[i]
                lm = LensModel(lens)
                f = ImageLinearFit(ImageData(**d), PSF(**psf), lm, LightModel(sub(src, si)), LightModel(sub(ll, li)), PointSource(sub(["LENSED_POSITION"], pi), lens_model=lm),
                                   likelihood_mask=None if mk is None else mk[i])
                models[i] = (f, si, li, pi)
            if kind == "joint-linear":
                A, y = [], []
                for i in range(2):
                    if comp[i]:
                        f, si, li, pi = models[i]
                        a = f.linear_response_matrix(snap(kl), sub(ks, si), sub(kll, li), sub(kps, pi))
                        m = (np.ones(n) if mk is None else mk[i]).ravel() > 0
                        wt = 1 / np.sqrt(f.Data.C_D.ravel()[m])
                        A.append(a * wt)
                        y.append(f.Data.data.ravel()[m] * wt)
                sol = np.linalg.lstsq(np.hstack(A).T, np.hstack(y), rcond=None)[0]
            for i in range(2):
                f, si, li, pi = models[i]
                if not comp[i]:
                    rec.true("not-computed", r.model_band_list[i] is None, w)
                    rec.raises("not-computed-setup", lambda: r.band_setup(i), ValueError)
                    continue
                mb = r.model_band_list[i]
                mask = np.ones(n) if mk is None else mk[i]
                a = f.linear_response_matrix(snap(kl), sub(ks, si), sub(kll, li), sub(kps, pi), unconvolved=False)
                cd = f.Data.C_D
                if kind != "joint-linear":
                    wt = 1 / np.sqrt(cd.ravel()[mask.ravel() > 0])
                    sol = np.linalg.lstsq((a * wt).T, f.Data.data.ravel()[mask.ravel() > 0] * wt, rcond=None)[0]
                q = list(sol)
                es, el, ep = sub(ks, si), sub(kll, li), sub(kps, pi)
                for k in es + el:
                    k["amp"] = q.pop(0)
                for k in ep:
                    k["point_amp"] = np.array([q.pop(0) for _ in range(2)])
                rec.same("leftover", len(q), 0)
                img = f.image(snap(kl), es, el, ep)
                got = mb.kwargs_model
                rec.same("amplitudes", [got["kwargs_source"], got["kwargs_lens_light"], got["kwargs_ps"]], [es, el, ep], 1e-5, 1e-6, w)
                rec.same("model", mb.model, img * mask, 1e-6, 1e-7, w)
                ic, kw = r.band_setup(i)
                rec.same("rendered", ImageModel.image(ic, **snap(kw)), img, 1e-6, 1e-7, w)
                res = (f.Data.data - img) / np.sqrt(f.Data.C_D_model(img)) * mask
                rec.same("residuals", mb.norm_residuals, res, 1e-5, 1e-6, w)
                rec.same("chi2", mb.reduced_x2, np.sum(res ** 2) / mask.sum(), 1e-5, 0, w)
                if pi:
                    x, y = f.Data.pixel_coordinates
                    ap = [np.sum((f.Data.data - img)[np.hypot(x - u, y - v) <= 0.3]) for u, v in zip(ep[0]["ra_image"], ep[0]["dec_image"])]
                    rec.same("aperture", mb.point_source_residuals(0.3), ap, 1e-6, 1e-6, w)
                rec.trans()
            rec.state(w)
    rec.trace()


# ------------------------------------------------------------------ patches
def patch_case(orient, tier, rec):
    pix = 0.25
    M = {"plain": np.array([[pix, 0.0], [0.0, pix]]), "ra-left": np.array([[-pix, 0.0], [0.0, pix]]), "swap": np.array([[0.0, pix], [pix, 0.0]]),
         "rot": 0.1 * np.array([[np.cos(0.4), -np.sin(0.4)], [np.sin(0.4), np.cos(0.4)]])}[orient]
    offs = [(0, 0), (5, 0), (-4, 0), (0, 6), (2, -5), (-3, -7), (7, 3)]
    sizes = [(3, 3), (4, 4), (6, 6)]
    km = dict(lens_model_list=["SIS", "SHEAR"], source_light_model_list=["SERSIC"], lens_light_model_list=["GAUSSIAN"])
    kp = dict(kwargs_lens=[LENS["SIS"], LENS["SHEAR"]], kwargs_source=[dict(SHAPE["SERSIC"], amp=1.0)], kwargs_lens_light=[dict(SHAPE["GAUSSIAN"], amp=1.0)],
              kwargs_ps=[], kwargs_special={}, kwargs_extinction=[])
    layouts = []
    for m in (1, 2, 3):
        for sel in itertools.permutations(offs, m):
            if m == 3 and tier == "quick" and (sel[0] != (0, 0) and sel[1] != (0, 0)):
                continue
            for rot in range(len(sizes) if m > 1 else len(sizes)):
                layouts.append([(o, sizes[(i + rot) % 3]) for i, o in enumerate(sel)])
    for lay in layouts:
        bands = []
        for i, (o, s) in enumerate(lay):
            p0 = np.array([0.1, -0.2]) + M @ np.array(o, float)
            j, q = np.mgrid[:s[1], :s[0]]
            bands.append([dict(image_data=1.0 + 0.1 * i + 0.3 * np.cos(j + 0.7 * q + i), ra_at_xy_0=p0[0], dec_at_xy_0=p0[1], transform_pix2angle=M, background_rms=0.1 * (i + 1),
                               exposure_time=100.0), dict(psf_type="NONE"), {}])
        comps = [None] if len(lay) != 2 else [None, [True, False]]
        for compute in comps:
            like = dict(bands_compute=compute)
            b = snap([bands, km, kp])
            r = MultiPatchReconstruction(bands, km, kp, kwargs_likelihood=like, verbose=False)
            rec.unchanged("arguments", b, [bands, km, kp])
            g = r.pixel_grid_joint
            nx, ny = g.num_pixel_axes
            w = "%s %s compute %s" % (orient, lay, compute)
            x0 = min(o[0] for o, s in lay)
            y0 = min(o[1] for o, s in lay)
            x1 = max(o[0] + s[0] for o, s in lay)
            y1 = max(o[1] + s[1] for o, s in lay)
            rec.same("frame-size", [nx, ny], [x1 - x0, y1 - y0], 0, 0, w)
            rec.same("frame-origin", g.map_pix2coord(0, 0), np.array([0.1, -0.2]) + M @ np.array([x0, y0], float), 1e-8, 1e-9, w)
            rec.same("frame-axes", g.transform_pix2angle, M, 1e-9, 1e-12, w)
            img, mod, res = r.image_joint()
            kap, mag, ax, ay = r.lens_model_joint()
            exp = [np.zeros((y1 - y0, x1 - x0)) for _ in range(7)]
            lm = LensModel(["SIS", "SHEAR"])
            for i, (o, s) in enumerate(lay):
                if compute is not None and not compute[i]:
                    continue
                sl = slice(o[1] - y0, o[1] - y0 + s[1]), slice(o[0] - x0, o[0] - x0 + s[0])
                mb = r.model_band_list[i]
                d = ImageData(**bands[i][0])
                x, y = d.pixel_coordinates
                model = ImageModel(d, PSF(psf_type="NONE"), lm, LightModel(["SERSIC"]), LightModel(["GAUSSIAN"])).image(
                    kp["kwargs_lens"], mb.kwargs_model["kwargs_source"], mb.kwargs_model["kwargs_lens_light"])
                vals = [d.data, model, (d.data - model) / np.sqrt(d.C_D_model(model)), lm.kappa(x, y, kp["kwargs_lens"]), lm.magnification(x, y, kp["kwargs_lens"])] + \
                    list(lm.alpha(x, y, kp["kwargs_lens"]))
                for e, v in zip(exp, vals):
                    e[sl] = v
            for nm, got, e in zip(("data", "model", "residuals", "kappa", "magnification", "alpha_x", "alpha_y"), (img, mod, res, kap, mag, ax, ay), exp):
                rec.same("joint-" + nm, got, e, 1e-6, 1e-8, w)
            rec.trans()
            rec.state(w)
        if len(lay) == 1:
            amp = r.model_band_list[0].kwargs_model["kwargs_source"][0]["amp"]
            for num, dp, cen in itertools.product((2, 3, 5), (0.05, 0.2), (None, (0.3, -0.1))):
                s, pg = r.source(num, dp, cen)
                c0 = np.array(cen if cen is not None else (SHAPE["SERSIC"]["center_x"], SHAPE["SERSIC"]["center_y"]))
                x, y = pg.pixel_coordinates
                j, i = np.mgrid[:num, :num]
                u = M * dp / np.sqrt(abs(np.linalg.det(M)))
                ex = c0[0] + u[0, 0] * (i - (num - 1) / 2.0) + u[0, 1] * (j - (num - 1) / 2.0)
                ey = c0[1] + u[1, 0] * (i - (num - 1) / 2.0) + u[1, 1] * (j - (num - 1) / 2.0)
                rec.same("source-grid", [x, y], [ex, ey], 1e-8, 1e-9, "%s %d %g %s" % (orient, num, dp, cen))
                sb = LightModel(["SERSIC"]).surface_brightness(ex, ey, [dict(SHAPE["SERSIC"], amp=amp)]) * dp ** 2
                rec.same("source", s, sb, 1e-7, 1e-10, "%s %d %g %s" % (orient, num, dp, cen))
    rec.raises("type", lambda: MultiPatchReconstruction(bands, km, kp, multi_band_type="multi-linear", verbose=False), ValueError)
    rec.trace()


# ------------------------------------------------------------------ light cones
def cone_case(tier, rec):
    def mass(n, i):
        j, k = np.mgrid[:n, :n] - (n - 1) / 2.0
        return 1e11 * np.exp(-((j - 0.5 * i) ** 2 + (k + 0.8) ** 2) / (n / 2.0)) + 1e9 * (i + 1)
    for n, zs, sp, zsrc in itertools.product((6, 9), itertools.product((0.3, 0.6), repeat=2), (0.002, 0.005), (1.0, 2.0)):
        maps = [mass(n, i) for i in range(2)]
        b = snap(maps)
        cone = LightCone(maps, [sp, 2 * sp], list(zs))
        lm, kw = cone.cone_instance(zsrc, COSMO)
        rec.unchanged("arguments", b, maps)
        for i in range(2):
            lc = LensCosmo(zs[i], zsrc, cosmo=COSMO)
            s = sp * (1, 2)[i] / lc.dd * 180 * 3600 / np.pi
            kappa = maps[i] / s ** 2 / lc.sigma_crit_angle
            fx, fy = convergence_integrals.deflection_from_kappa_grid(kappa, s)
            f = convergence_integrals.potential_from_kappa_grid(kappa, s)
            w = "n %d z %s spacing %g source %g" % (n, zs, sp, zsrc)
            rec.same("axes", [kw[i]["grid_interp_x"], kw[i]["grid_interp_y"]], [(np.arange(n) - (n - 1) / 2.0) * s] * 2, 1e-6, 1e-9, w)
            rec.same("deflection", [kw[i]["f_x"], kw[i]["f_y"]], [fx, fy], 1e-6, 1e-9, w)
            rec.same("potential-differences", kw[i]["f_"] - kw[i]["f_"][0, 0], f - f[0, 0], 1e-4, 1e-6 * np.abs(f).max(), w)
            rec.same("slice", MassSlice(maps[i], sp * (1, 2)[i], zs[i]).interpol_instance(zsrc, COSMO), kw[i], 0, 0)
        x, y = np.array([0.3, -0.5]), np.array([0.2, 0.4])
        man = LensModel(["INTERPOL"] * 2, multi_plane=True, lens_redshift_list=list(zs), z_source=zsrc, cosmo=COSMO)
        rec.same("cone", lm.alpha(x, y, kw), man.alpha(x, y, kw), 1e-9, 1e-12)
        rec.trans()
        rec.state((n, zs, sp, zsrc))
    rec.raises("square", lambda: MassSlice(np.ones((3, 4)), 0.01, 0.5), ValueError)
    rec.trace()


# ------------------------------------------------------------------ class creation by index lists
def creator_case(tier, rec):
    lens, red, obs = ["SIS", "EPL", "SHEAR"], [0.3, 0.5, 0.5], [0]
    light = ["SERSIC", "GAUSSIAN", "SERSIC_ELLIPSE"]
    x, y = np.array([0.4, -0.3, 0.1]), np.array([0.2, 0.5, -0.6])
    idx = [list(c) for m in (1, 2, 3) for c in itertools.permutations(range(3), m)]
    for sel, band, allm in itertools.product(idx, (0, 1), (False, True)):
        lists = [sel, list(reversed(idx[(idx.index(sel) + 3) % len(idx)]))]
        use = list(range(3)) if allm else lists[band]
        for multi, obsi in ((False, None), (True, None), (True, [0]), (True, [0, 1])):
            km = dict(lens_model_list=lens, index_lens_model_list=lists, band_index=band, all_models=allm, z_source=1.5, cosmo=COSMO)
            if multi:
                km.update(multi_plane=True, lens_redshift_list=red, observed_convention_index=obsi)
            else:
                km.update(z_lens=0.5)
            b = snap({k: v for k, v in km.items() if k != "cosmo"})
            lm = class_creator.create_class_instances(**km)[0]
            rec.unchanged("arguments", b, {k: v for k, v in km.items() if k != "cosmo"})
            kw = dict(z_source=1.5, cosmo=COSMO)
            if multi:
                kw.update(multi_plane=True, lens_redshift_list=[red[i] for i in use], observed_convention_index=None if obsi is None else [n for n, i in enumerate(use) if i in obsi])
            else:
                kw.update(z_lens=0.5)
            kl = [LENS[lens[i]] for i in use]
            rec.same("lens", lm.alpha(x, y, kl), LensModel([lens[i] for i in use], **kw).alpha(x, y, kl), 1e-9, 1e-12, "%s %s" % (km["index_lens_model_list"], obsi))
            rec.trans()
        for defl, zred, prof in itertools.product((None, [0.5, 0.8, 1.0]), (None, [0.7, 1.1, 1.5]), (None, [{}, {}, {}])):
            km = dict(source_light_model_list=light, lens_light_model_list=light, index_source_light_model_list=lists, index_lens_light_model_list=list(reversed(lists)),
                      source_deflection_scaling_list=defl, source_redshift_list=zred, source_light_profile_kwargs_list=prof, band_index=band, all_models=allm)
            _, sm, ll, _, _ = class_creator.create_class_instances(**km)
            ks = [dict(SHAPE[light[i]], amp=1.0 + i) for i in use]
            ul = use if allm else lists[1 - band]
            kl = [dict(SHAPE[light[i]], amp=1.0 + i) for i in ul]
            rec.same("source", sm.surface_brightness(x, y, ks), LightModel([light[i] for i in use]).surface_brightness(x, y, ks), 1e-12, 0)
            rec.same("light", ll.surface_brightness(x, y, kl), LightModel([light[i] for i in ul]).surface_brightness(x, y, kl), 1e-12, 0)
            rec.same("scaling", sm.deflection_scaling_list, None if defl is None else [defl[i] for i in use], 0, 0)
            rec.same("redshifts", sm.redshift_list, None if zred is None else [zred[i] for i in use], 0, 0)
            rec.trans()
        for zred, fix, add in itertools.product((None, [0.9, 1.2, 1.5]), (None, [True, False, True]), (None, [False, True, False])):
            types = ["SOURCE_POSITION", "LENSED_POSITION", "UNLENSED"]
            km = dict(lens_model_list=["SIS"], lens_redshift_list=[0.5], multi_plane=True, z_source=1.5, cosmo=COSMO, point_source_model_list=types, index_point_source_model_list=lists,
                      point_source_redshift_list=zred, fixed_magnification_list=fix, additional_images_list=add, band_index=band, all_models=allm)
            ps = class_creator.create_class_instances(**km)[3]
            lm = LensModel(["SIS"], lens_redshift_list=[0.5], multi_plane=True, z_source=1.5, cosmo=COSMO)
            man = PointSource([types[i] for i in use], lens_model=lm, redshift_list=None if zred is None else [zred[i] for i in use],
                              fixed_magnification_list=None if fix is None else [fix[i] for i in use], additional_images_list=None if add is None else [add[i] for i in use])
            kps = [dict(ra_source=0.1, dec_source=0.05, source_amp=2.0, point_amp=np.array([2.0, 1.0])), dict(ra_image=np.array([0.9, -0.8]), dec_image=np.array([0.1, 0.2]), point_amp=np.array([3.0, 1.0]), source_amp=1.5),
                   dict(ra_image=np.array([0.2]), dec_image=np.array([0.3]), point_amp=np.array([1.0]))]
            kps = [kps[i] for i in use]
            kl = [dict(theta_E=0.8, center_x=0.0, center_y=0.0)]
            try:
                e = man.point_source_list(kps, kl)
            except Exception:
                continue
            rec.same("point-sources", ps.point_source_list(kps, kl), e, 1e-7, 1e-9, "%s %s %s %s" % (use, zred, fix, add))
            rec.trans()
        rec.state((tuple(sel), band, allm))
    tau = [[0, 1, 1], [2, 0, 1]]
    for t0, band in itertools.product(itertools.product(range(3), repeat=2), (0, 1)):
        ext = class_creator.create_class_instances(optical_depth_model_list=["UNIFORM", "GAUSSIAN"], index_optical_depth_model_list=[[0], [0, 1]], tau0_index_list=list(t0), band_index=band)[4]
        kx = [dict(amp=0.7), dict(SHAPE["GAUSSIAN"], amp=0.5)][:band + 1]
        sp = {"tau0_list": [0.5, 1.5, 2.0]}
        o = LightModel(["UNIFORM", "GAUSSIAN"][:band + 1]).surface_brightness(x, y, kx)
        rec.same("extinction", ext.extinction(x, y, kwargs_extinction=kx, kwargs_special=sp), np.exp(-o * sp["tau0_list"][t0[band]]), 1e-9, 0)
        rec.trans()
    for inv, n, c in itertools.product((False, True), (3, 6), ((0.0, 0.0), (0.3, -0.2))):
        kd = simulation_util.data_configure_simple(n, 0.2, 100.0, 0.3, center_ra=c[0], center_dec=c[1], inverse=inv)
        d = ImageData(**kd)
        xx, yy = d.pixel_coordinates
        j, i = np.mgrid[:n, :n]
        sgn = -1 if inv else 1
        rec.same("simple-grid", [xx, yy], [c[0] + sgn * (i - (n - 1) / 2.0) * 0.2, c[1] + (j - (n - 1) / 2.0) * 0.2], 1e-9, 1e-10)
        rec.trans()
    rec.trace()


def cases(tier):
    for u in ("e-", "ADU"):
        yield "simulate|%s" % u
    yield "model"
    yield "variable"
    for k in ("multi-linear", "joint-linear"):
        yield "reconstruct|%s" % k
    for o in ("plain", "ra-left", "swap", "rot"):
        yield "patches|%s" % o
    yield "cone"
    yield "creator"


def run_case(case, tier, rec):
    p = case.split("|")
    if p[0] == "simulate":
        sim_case(p[1], tier, rec)
    elif p[0] == "reconstruct":
        recon_case(p[1], tier, rec)
    elif p[0] == "patches":
        patch_case(p[1], tier, rec)
    else:
        dict(model=model_case, variable=variable_case, cone=cone_case, creator=creator_case)[p[0]](tier, rec)
