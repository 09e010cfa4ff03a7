"""P10: pixel variances and the pixel likelihood follow the declared noise for the current data; simulated noise is the assumed noise.

All sequences of data replacement and queries on image data for every way of declaring the noise, compared with the written-out
formulas; all combinations of observation settings and their updates for the simulation interface.
"""
import itertools

import numpy as np


from lenstronomy.Data.image_noise import covariance_matrix
from lenstronomy.Data.imaging_data import ImageData
from lenstronomy.LightModel.light_model import LightModel
from lenstronomy.SimulationAPI.data_api import DataAPI
from lenstronomy.SimulationAPI.mag_amp_conversion import MagAmpConversion
from lenstronomy.SimulationAPI.observation_api import SingleBand
from lenstronomy.SimulationAPI.sim_api import SimAPI
from lenstronomy.Util import data_util
from vmc.core import snap

G = np.arange(12.0).reshape(3, 4)
DATA = {"a": np.sin(G) * 3 + 1, "b": np.cos(2 * G) * 4 - 0.5, "c": -np.abs(G)}
MODEL = {"m": np.sin(G + 0.3) * 2.5 + 1, "n": G * 0.4 - 1}
MASK = np.array([[1, 0, 1, 1], [1, 1, 1, 0], [0, 1, 1, 1]])
EXPM = 50.0 + 10 * G
EXPZ = EXPM.copy()
EXPZ[0, 1] = 0
EXPZ[2, 2] = -3
NOISE = 0.2 + 0.05 * G

CONFIGS = {
    "scalar": dict(background_rms=0.3, exposure_time=100.0),
    "int": dict(background_rms=0.3, exposure_time=100),
    "zero-exposure": dict(background_rms=0.3, exposure_time=0.0),
    "map": dict(background_rms=0.3, exposure_time=EXPM),
    "map-zeros": dict(background_rms=0.3, exposure_time=EXPZ),
    "bgmap": dict(background_rms=NOISE * 2, exposure_time=EXPM),
    "noise": dict(noise_map=NOISE),
    "noise-bg": dict(noise_map=NOISE, background_rms=0.7, exposure_time=EXPM),
    "gradient": dict(background_rms=0.3, exposure_time=EXPM, gradient_boost_factor=0.2),
    "noise-gradient": dict(noise_map=NOISE, gradient_boost_factor=0.2),
}
OPS = ["data:a", "data:b", "data:c", "CD", "CDm", "CDn", "Lm", "Ln", "Lme", "bg", "exp", "get"]


class Ref:
    def __init__(self, kw):
        self.kw = kw
        self.data = DATA["a"]

    def var(self, im):
        kw = self.kw
        if kw.get("noise_map") is not None:
            return kw["noise_map"] ** 2
        e = np.maximum(np.asarray(kw["exposure_time"], float), 1e-10)
        g = kw.get("gradient_boost_factor")
        grad = 0 if g is None else g * GRAD[id(im)]
        return np.where(im > 0, im, 0) / e + np.asarray(kw["background_rms"]) ** 2 + grad ** 2

    def logl(self, m, err=0.0):
        v = self.var(m) + np.abs(err)
        return -0.5 * np.sum(MASK * (m - self.data) ** 2 / v)


from skimage import filters  # noqa: the documented gradient estimator

GRAD = {id(im): filters.sobel(im) for im in list(DATA.values()) + list(MODEL.values())}
ERR = np.outer([0.1, -0.2, 0.3], [1, 2, 0.5, 0.0])


def history_case(cfg, tier, rec, first):
    depth = 3 if tier == "quick" else 4
    for d in range(1, depth + 1):
        for rest in itertools.product(OPS, repeat=d - 1):
            seq = (first,) + rest
            kw = snap(CONFIGS[cfg])
            arr = {k: v.copy() for k, v in DATA.items()}
            obj = ImageData(arr["a"], **kw)
            ref = Ref(CONFIGS[cfg])
            for i, op in enumerate(seq):
                what = "history %s" % ">".join(seq[:i + 1])
                if op.startswith("data:"):
                    obj.update_data(arr[op[5:]])
                    ref.data = DATA[op[5:]]
                    got = want = None
                elif op == "CD":
                    got, want = obj.C_D, ref.var(ref.data)
                elif op in ("CDm", "CDn"):
                    got, want = obj.C_D_model(MODEL[op[2]].copy()), ref.var(MODEL[op[2]])
                elif op in ("Lm", "Ln"):
                    got, want = obj.log_likelihood(MODEL[op[1]].copy(), MASK), ref.logl(MODEL[op[1]])
                elif op == "Lme":
                    got, want = obj.log_likelihood(MODEL["m"].copy(), MASK, additional_error_map=ERR), ref.logl(MODEL["m"], ERR)
                elif op == "bg":
                    b = CONFIGS[cfg].get("background_rms")
                    got, want = obj.background_rms, np.median(NOISE) if b is None else b
                elif op == "exp":
                    e = CONFIGS[cfg].get("exposure_time")
                    got, want = obj.exposure_map, None if e is None else np.maximum(np.asarray(e, float), 1e-10)
                elif op == "get":
                    got, want = obj.data, ref.data
                if not op.startswith("data:"):
                    rec.same("%s|%s" % (cfg, op), got, want, 1e-10, 1e-13, what=what)
                rec.trans()
            rec.unchanged("noise-arguments", CONFIGS[cfg], kw)
            rec.unchanged("data-arguments", DATA, arr)
            rec.trace()
            rec.state(">".join(seq))
    rec.outcome(want)


def data_case(rec):
    for cfg in CONFIGS:
        obj = ImageData(DATA["a"].copy(), **snap(CONFIGS[cfg]))
        for shape in itertools.product((2, 3, 4), (3, 4, 5)):
            if shape != (3, 4):
                rec.raises("shape", lambda: obj.update_data(np.zeros(shape)), ValueError, detail="data of shape %s replaces (3, 4)" % (shape,))
                rec.trans()
        rec.same("data-kept", obj.data, DATA["a"])
    rec.raises("method", lambda: ImageData(DATA["a"], likelihood_method="other"), ValueError)
    rec.raises("noise-shape", lambda: ImageData(DATA["a"], noise_map=np.ones((4, 3))), Exception)
    for shape in ((3, 4), (4, 3), (3, 3), (4, 4)):
        pb = np.ones(shape) * 0.5
        if shape == (3, 4):
            rec.same("beam", ImageData(DATA["a"], background_rms=1.0, exposure_time=1.0, antenna_primary_beam=pb).primary_beam, pb)
        else:
            rec.raises("beam-shape", lambda: ImageData(DATA["a"], background_rms=1.0, exposure_time=1.0, antenna_primary_beam=pb), ValueError, detail="beam %s on image (3,4)" % (shape,))
    # natural-weighting interferometry: likelihood in terms of dirty image and its convolved counterpart
    for rms, const in itertools.product((0.2, 1.5), (0.0, -3.0)):
        obj = ImageData(DATA["a"].copy(), background_rms=rms, noise_map=None, exposure_time=1.0, likelihood_method="interferometry_natwt", log_likelihood_constant=const)
        for da in ("a", "b"):
            obj.update_data(DATA[da].copy())
            m0, m1 = MODEL["m"], MODEL["n"]
            want = -(np.sum(m0 * m1) - 2 * np.sum(m0 * DATA[da])) / (2 * rms ** 2) + const
            rec.same("interferometry", obj.log_likelihood([m0, m1], MASK), want, 1e-10, what="rms %s" % rms)
            rec.trans()
        rec.same("method-name", obj.likelihood_method(), "interferometry_natwt")
    for boost in (None, 0.0, 0.3):
        for b, e in itertools.product((0.1, NOISE), (10.0, EXPM)):
            for d in DATA.values():
                d0 = d.copy()
                want = np.where(d > 0, d, 0) / e + np.asarray(b) ** 2 + (0 if boost is None else (boost * GRAD[id(d)]) ** 2)
                rec.same("covariance", covariance_matrix(d, b, e, boost), want, 1e-10, what="boost %s" % boost)
                rec.unchanged("covariance-data", d0, d)
                rec.trans()
    rec.trace()
    rec.state("data")
    rec.outcome(want)


# ------------------------------------------------------------------------------------------------ simulation interface
def band_cases():
    for unit in ("e-", "ADU"):
        for gain in (None, 2.5):
            if unit == "ADU" and gain is None:
                continue
            for nexp in (1, 4):
                for bn in (None, 0.2):
                    yield dict(pixel_scale=0.1, exposure_time=50.0, magnitude_zero_point=25.0, read_noise=4.0, ccd_gain=gain, sky_brightness=21.0, seeing=0.5, num_exposures=nexp,
                               psf_type="GAUSSIAN", data_count_unit=unit, background_noise=bn)


UPDATES = {"t": dict(exposure_time=80.0), "sky": dict(sky_brightness=20.0), "n": dict(num_exposures=2), "seeing": dict(seeing=0.8),
           "psf": dict(psf_type="PIXEL", kernel_point_source=np.array([[0.0, 0.1, 0.0], [0.1, 0.6, 0.1], [0.0, 0.1, 0.0]])), "none": dict(psf_type="NONE"), "all": dict(exposure_time=20.0, sky_brightness=22.0, num_exposures=3, seeing=0.4)}


def band_ref(kw, flux):
    adu = kw["data_count_unit"] == "ADU"
    g = kw["ccd_gain"] if adu else 1.0
    T = kw["exposure_time"] * kw["num_exposures"]
    sky_e = 10 ** (-(kw["sky_brightness"] - kw["magnitude_zero_point"]) / 2.5)
    bkg = np.sqrt(kw["num_exposures"] * kw["read_noise"] ** 2 + T * sky_e * kw["pixel_scale"] ** 2) / T / g
    if kw["background_noise"] is not None:
        bkg = kw["background_noise"]
    pois = np.sqrt(np.where(flux > 0, flux, 0) * g * T) / T / g
    return dict(exposure=T, sky=sky_e / g, bkg=bkg, iid=flux * g * T, pois=pois, tot=np.sqrt(bkg ** 2 + pois ** 2), cps=10 ** (-(22.5 - kw["magnitude_zero_point"]) / 2.5) / g)


def band_case(rec):
    flux = DATA["a"]
    for kw in band_cases():
        for d in (0, 1, 2, 3):
            for seq in itertools.product(UPDATES, repeat=d):
                b = SingleBand(**snap(kw))
                cur = dict(kw)
                cur["kernel_point_source"] = None
                for s in seq:
                    b.update_observation(**snap(UPDATES[s]))
                    cur.update(UPDATES[s])
                    rec.trans()
                w = band_ref(cur, flux)
                f0 = flux.copy()
                got = dict(exposure=b.exposure_time, sky=b.sky_brightness, bkg=b.background_noise, iid=b.flux_iid(f0), pois=b.flux_noise(f0), tot=b.estimate_noise(f0), cps=b.magnitude2cps(22.5))
                for k in w:
                    rec.same("band|%s" % k, got[k], w[k], 1e-10, what="%s after %s unit %s" % (k, seq, kw["data_count_unit"]))
                for x in (2.0, -1.0, 0.0):
                    rec.same("band-scalar", b.flux_noise(x), band_ref(cur, np.array(x))["pois"], 1e-10, what="flux %s" % x)
                rec.unchanged("band-flux", flux, f0)
                p = b.kwargs_psf
                if cur["psf_type"] == "GAUSSIAN":
                    rec.same("psf", [p["psf_type"], p["fwhm"]], ["GAUSSIAN", cur["seeing"]])
                elif cur["psf_type"] == "PIXEL":
                    rec.same("psf", [p["psf_type"], p["kernel_point_source"]], ["PIXEL", cur["kernel_point_source"]])
                else:
                    rec.same("psf", p, {"psf_type": "NONE"})
                rec.same("psf-class", b.psf_class.psf_type, cur["psf_type"])
                if d < 2:
                    # the noise realisation is drawn from the two declared components
                    for bg, po in itertools.product((True, False), repeat=2):
                        r = np.random.RandomState(3)
                        n = np.zeros(flux.shape)
                        if bg:
                            n = n + r.randn(3, 4) * w["bkg"]
                        if po:
                            n = n + r.randn(3, 4) * w["pois"]
                        rec.same("noise-draw", b.noise_for_model(f0, background_noise=bg, poisson_noise=po, seed=3), n, 1e-9, 1e-12, what="%s %s" % (bg, po))
                        rec.same("noise-repeat", b.noise_for_model(f0, background_noise=bg, poisson_noise=po, seed=3), n, 1e-9, 1e-12)
                    # image data built from the simulated observation assume the simulated noise
                    api = DataAPI(num_pix=5, **snap(kw))
                    for s in seq:
                        api.update_observation(**snap(UPDATES[s]))
                    f5 = np.linspace(-1, 8, 25).reshape(5, 5)
                    w5 = band_ref(cur, f5)
                    data = api.data_class
                    rec.same("assumed-noise", data.C_D_model(f5), w5["tot"] ** 2, 1e-9, what="after %s" % (seq,))
                    rec.same("pixel", [data.pixel_width, data.num_pixel_axes[0], data.center[0], data.center[1]], [0.1, 5, 0, 0], 1e-9, 1e-10)
                rec.trace()
            rec.state("%s%s%s%s%d" % (kw["data_count_unit"], kw["ccd_gain"], kw["num_exposures"], kw["background_noise"], d))
            rec.outcome(w)


def flux_of(model, kw):
    """numerically integrated light"""
    lm = LightModel([model])
    return lm.total_flux([kw])[0]


LIGHT = {"SERSIC": dict(R_sersic=0.4, n_sersic=2.0, center_x=0.1, center_y=0), "SERSIC_ELLIPSE": dict(R_sersic=0.3, n_sersic=1.5, e1=0.1, e2=-0.2, center_x=0, center_y=0.1),
         "GAUSSIAN": dict(sigma=0.3, center_x=0, center_y=0), "GAUSSIAN_ELLIPSE": dict(sigma=0.3, e1=0.2, e2=0.1, center_x=0, center_y=0), "MULTI_GAUSSIAN": None}


def mag_case(rec):
    """magnitudes to amplitudes: every list of up to three light components and every point-source combination"""
    names = [n for n in LIGHT if LIGHT[n] is not None]
    for unit, gain in (("e-", None), ("ADU", 2.5)):
        band = dict(pixel_scale=0.1, exposure_time=50.0, magnitude_zero_point=25.0, read_noise=4.0, ccd_gain=gain, sky_brightness=21.0, seeing=0.5, num_exposures=1, psf_type="NONE", data_count_unit=unit)
        g = gain or 1.0
        for n in (1, 2, 3):
            for comb in itertools.product(names, repeat=n):
                for where in ("lens_light", "source"):
                    model = {"%s_light_model_list" % ("lens" if where == "lens_light" else "source"): list(comb), "lens_model_list": [], "point_source_model_list": ["UNLENSED", "LENSED_POSITION", "SOURCE_POSITION"]}
                    mags = [21.0 + 0.7 * i for i in range(n)]
                    kw = [dict(LIGHT[c], magnitude=m) for c, m in zip(comb, mags)]
                    ps = [dict(ra_image=[0.1, 0.2], dec_image=[0, 0.3], magnitude=[20.0, 21.0]), dict(ra_image=[0.1, 0.2], dec_image=[0, 0.3], magnitude=[22.0, 21.5]), dict(ra_source=0.1, dec_source=0, magnitude=23.0)]
                    for cls in ("sim", "conv"):
                        if cls == "conv" and unit == "ADU":
                            continue
                        kw0, ps0 = snap(kw), snap(ps)
                        api = SimAPI(20, snap(band), snap(model)) if cls == "sim" else MagAmpConversion(snap(model), 25.0)
                        a, b, p = api.magnitude2amplitude(kwargs_lens_light_mag=kw if where == "lens_light" else None, kwargs_source_mag=kw if where == "source" else None, kwargs_ps_mag=ps)
                        out = a if where == "lens_light" else b
                        lm = LightModel(list(comb))
                        flux = [lm.total_flux(out, k=i)[0] for i in range(n)]
                        rec.same("mag-flux", flux, [10 ** (-(m - 25.0) / 2.5) / g for m in mags], 1e-9, what="%s %s %s" % (comb, where, cls))
                        for i in range(n):
                            rec.same("mag-shape", {k: v for k, v in out[i].items() if k != "amp"}, LIGHT[comb[i]], what=str(comb))
                        want = [10 ** (-(np.array(q["magnitude"]) - 25.0) / 2.5) / g for q in ps]
                        rec.same("mag-ps", [p[0]["point_amp"], p[1]["point_amp"], p[2]["source_amp"]], want, 1e-9, what=cls)
                        rec.true("mag-ps-keys", all("magnitude" not in q for q in p))
                        rec.unchanged("mag-args", [kw0, ps0], [kw, ps])
                        rec.trans()
                        rec.trace()
                rec.state("%s%s" % (unit, comb))
        rec.outcome(flux)
    for zp in (20.0, 25.5):
        for m in (18.0, 24.0, 30.1):
            rec.same("mag-cps", data_util.cps2magnitude(data_util.magnitude2cps(m, zp), zp), m, 1e-10)
            rec.same("mag-zero", data_util.magnitude2cps(zp, zp), 1.0)
            rec.same("mag-ratio", data_util.magnitude2cps(m - 2.5, zp) / data_util.magnitude2cps(m, zp), 10.0, 1e-10)
            rec.trans()
    for M in (-20.0, 1.0):
        for d in (1.0, 10.0, 250.0, 1e6):
            rec.same("distance-modulus", data_util.absolute2apparent_magnitude(M, d), M + 5 * np.log10(d / 10.0), 1e-10, 1e-10, what="distance %s pc" % d)
            rec.trans()
    for gain in (0.5, 2.0):
        rec.same("gain", data_util.electrons2adu(data_util.adu2electrons(7.0, gain), gain), 7.0)
        rec.same("gain-e", data_util.adu2electrons(7.0, gain), 7.0 * gain)


def cases(tier):
    return ["data", "band", "mag"] + ["history|%s|%s" % (c, op) for c in CONFIGS for op in OPS]


def run_case(case, tier, rec):
    if case == "data":
        return data_case(rec)
    if case == "band":
        return band_case(rec)
    if case == "mag":
        return mag_case(rec)
    _, c, op = case.split("|")
    history_case(c, tier, rec, op)
