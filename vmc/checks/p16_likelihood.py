"""P16: the likelihood is the sum of its terms and a function of the parameters alone.

All subsets of likelihood terms are compared with independently computed terms; all sequences of evaluations (inside and outside of the
bounds, vetoed, not finite) on one instance are compared with fresh instances; all measurement masks, error forms and prior
combinations of the individual terms are compared with their defining formulas.
"""
import copy
import itertools
import pickle

import numpy as np
from astropy.cosmology import FlatLambdaCDM

from lenstronomy.Data.imaging_data import ImageData
from lenstronomy.Data.psf import PSF
from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
from lenstronomy.ImSim.image_model import ImageModel
from lenstronomy.ImSim.tracer_model import TracerModelSource
from lenstronomy.LensModel.lens_model import LensModel
from lenstronomy.LightModel.light_model import LightModel
from lenstronomy.PointSource.point_source import PointSource
from lenstronomy.Sampling.likelihood import Likelihood
from lenstronomy.Sampling.Likelihoods.flux_ratio_likelihood import FluxRatioLikelihood
from lenstronomy.Sampling.Likelihoods.position_likelihood import PositionLikelihood
from lenstronomy.Sampling.Likelihoods.prior_likelihood import PriorLikelihood
from lenstronomy.Sampling.Likelihoods.time_delay_likelihood import TimeDelayLikelihood
from lenstronomy.Sampling.parameters import Param
from vmc.core import snap

N = 7
OUT = -(10**18)
BAD = -(10**15)
ARCSEC = np.pi / 180 / 3600
MPC = 3.08567758149137e22
CLIGHT = 299792458.0
DAY = 86400.0
COSMO = FlatLambdaCDM(H0=70.0, Om0=0.3)

LENS = [dict(theta_E=0.7, e1=0.1, e2=-0.05, center_x=0.0, center_y=0.0), dict(gamma1=0.04, gamma2=-0.03, ra_0=0, dec_0=0)]
SRC = [dict(amp=1.5, R_sersic=0.3, n_sersic=1.3, center_x=0.05, center_y=0.1)]
PS1 = [dict(ra_image=np.array([0.71, -0.6, 0.1]), dec_image=np.array([0.2, 0.33, -0.65]), point_amp=np.array([3.0, 2.0, 1.0]))]
PS2 = PS1 + [dict(ra_image=np.array([0.5, -0.65]), dec_image=np.array([0.45, -0.2]), point_amp=np.array([1.0, 2.0]))]
PSS = [dict(ra_source=0.05, dec_source=0.04, point_amp=np.array([3.0, 2.0, 1.0, 2.0]))]
SOLVER = dict(solver="lenstronomy", min_distance=0.1, search_window=3, precision_limit=1e-14, num_iter_max=60)
TERMS = ("image", "delay", "flux", "astrometry", "position", "source", "prior", "custom", "extra")


def bands():
    g = np.arange(N * N, dtype=float).reshape(N, N)
    k = 1.2 + np.sin(1.3 * np.arange(9.0).reshape(3, 3))
    k[1, 1] += 3
    dat = dict(image_data=2 + np.sin(0.7 * g), background_rms=0.3, exposure_time=60.0, transform_pix2angle=np.eye(2) * 0.3, ra_at_xy_0=-0.9, dec_at_xy_0=-0.9)
    return [[dat, dict(psf_type="PIXEL", kernel_point_source=k / k.sum(), psf_variance_map=(k / k.sum()) ** 2), dict(supersampling_factor=1)]]


def mask():
    m = np.ones((N, N))
    m[2, 3] = m[0, :2] = 0
    return m


VARIANTS = ("single", "two", "cosmo", "cosmo-nosource", "redshift", "nolinear", "tracer", "tracer-masked", "marginal")


def settings(variant):
    """kwargs_model, options of Param, list of parameter sets, data"""
    km = dict(lens_model_list=["SIE", "SHEAR"], source_light_model_list=["SERSIC"], point_source_model_list=["LENSED_POSITION"])
    par = dict(Ddt_sampling=True, num_point_source_list=[3], point_source_offset=True, source_size=True)
    sp = dict(D_dt=2500.0, delta_x_image=np.array([0.01, 0.0, -0.004]), delta_y_image=np.array([0.002, -0.006, 0.003]), source_size=0.02)
    sets = []
    for a, b, c, d in ((0, 0, 0, 0), (0.05, -0.02, 0.03, 200.0), (-0.04, 0.03, -0.05, -300.0)):
        kl, ks, kp, s = snap(LENS), snap(SRC), snap(PS1), snap(sp)
        kl[0]["theta_E"] += a
        kl[1]["gamma1"] += b
        ks[0]["center_x"] += c
        s["D_dt"] += d
        kp[0]["ra_image"] = kp[0]["ra_image"] + np.array([a, -a, 0]) / 4
        s["delta_x_image"] = s["delta_x_image"] + b / 10
        sets.append(dict(kwargs_lens=kl, kwargs_source=ks, kwargs_ps=kp, kwargs_special=s, kwargs_lens_light=[]))
    delays, derr = [11.0, -4.0], [2.0, 3.0]
    ratios, rerr = [0.7, 1.2], [0.1, 0.3]
    ra, dec = [np.array([0.7, -0.6, 0.1])], [np.array([0.2, 0.3, -0.6])]
    if variant == "two":
        km.update(point_source_model_list=["LENSED_POSITION", "LENSED_POSITION"], z_lens=0.5, z_source=1.5, z_source_convention=1.5, point_source_redshift_list=[1.0, 1.5])
        par.update(num_point_source_list=[3, 2])
        for i, s in enumerate(sets):
            p = snap(PS2[1])
            p["dec_image"] = p["dec_image"] + 0.01 * i
            s["kwargs_ps"].append(p)
        delays, derr = [delays, [6.0]], [derr, [1.5]]
        ratios, rerr = [ratios, [1.4]], [rerr, [0.2]]
        ra, dec = ra + [np.array([0.5, -0.6])], dec + [np.array([0.4, -0.2])]
    if variant.startswith("cosmo"):
        km.update(multi_plane=True, lens_redshift_list=[0.5, 0.4], z_lens=0.5, z_source=1.5, z_source_convention=1.5, cosmology_sampling=True, cosmology_model="FlatLambdaCDM", point_source_model_list=["SOURCE_POSITION"], kwargs_lens_eqn_solver=dict(SOLVER))
        par.pop("Ddt_sampling")
        par.update(num_point_source_list=[4], point_source_offset=False)
        for i, s in enumerate(sets):
            s["kwargs_ps"] = snap(PSS)
            s["kwargs_ps"][0]["ra_source"] += 0.005 * i
            s["kwargs_special"] = dict(H0=[70.0, 60.0, 76.0][i], Om0=[0.3, 0.25, 0.4][i], source_size=0.02)
        delays, derr = [1.0, 2.0, 3.0], [2.0, 3.0, 4.0]
        ratios, rerr = [0.7, 1.2, 0.5], [0.1, 0.3, 0.2]
        ra, dec = [np.array([0.7, -0.6, 0.1, 0.2])], [np.array([0.2, 0.3, -0.6, 0.7])]
        if variant == "cosmo-nosource":
            km["source_light_model_list"] = []
            for s in sets:
                s["kwargs_source"] = []
    if variant == "redshift":
        km.update(multi_plane=True, lens_redshift_list=[0.5, 0.3], z_lens=0.5, z_source=1.5, z_source_convention=1.5, source_redshift_list=[1.5])
        par.update(lens_redshift_sampling_indexes=[-1, 0])
        for i, s in enumerate(sets):
            s["kwargs_special"]["z_sampling"] = [[0.3], [0.5], [0.7]][i]
    if variant == "nolinear":
        par["linear_solver"] = False
    if variant.startswith("tracer"):
        km.update(tracer_source_model_list=["GAUSSIAN"], tracer_source_band=0)
        for i, s in enumerate(sets):
            s["kwargs_tracer_source"] = [dict(amp=0.8 + 0.1 * i, sigma=0.5, center_x=0.1, center_y=0.0)]
    data = dict(multi_band_list=bands(), multi_band_type="multi-linear", time_delays_measured=delays, time_delays_uncertainties=derr, flux_ratios=ratios, flux_ratio_errors=rerr, ra_image_list=ra, dec_image_list=dec)
    if variant.startswith("tracer"):
        t = bands()[0]
        t[0]["image_data"] = np.cos(0.3 * np.arange(N * N, dtype=float).reshape(N, N))
        data["tracer_data"] = t
    return km, par, sets, data


SOFT = dict(custom=None)


def tracer_mask():
    m = np.ones((N, N))
    m[1:4, :] = 0
    return m


def custom(kwargs_lens=None, kwargs_special=None, **kwargs):
    """a condition that vetoes one region"""
    if kwargs_lens[0]["theta_E"] > 0.95:
        return OUT
    return -3.0 * kwargs_lens[1]["gamma2"]


PRIOR = dict(prior_lens=[[0, "theta_E", 0.8, 0.1], [1, "gamma1", 0.0, 0.05]], prior_special=[["source_size", 0.03, 0.01]], prior_ps=None)


def likelihood_options(terms, variant):
    o = dict(image_likelihood="image" in terms, time_delay_likelihood="delay" in terms, flux_ratio_likelihood="flux" in terms, astrometric_likelihood="astrometry" in terms, image_position_likelihood="position" in terms,
             source_position_likelihood="source" in terms, image_position_uncertainty=0.02, source_position_sigma=0.01, image_likelihood_mask_list=[mask()])
    if variant == "marginal":
        o["source_marg"] = True
    if "prior" in terms:
        o.update(snap(PRIOR))
    if "custom" in terms:
        o["custom_logL_addition"] = custom
    if variant.startswith("tracer") and "image" in terms:
        o["tracer_likelihood"] = True
        if variant == "tracer-masked":
            o["tracer_likelihood_mask"] = tracer_mask()
    return o


def make(variant, terms, wide=False):
    km, par, sets, data = settings(variant)
    fixed_lens = [dict(e1=0.1, e2=-0.05, center_x=0.0, center_y=0.0), dict(gamma2=-0.03, ra_0=0, dec_0=0)]
    low = dict(kwargs_lower_lens=[dict(theta_E=0.5, e1=-1, e2=-1, center_x=-1, center_y=-1), dict(gamma1=-0.5, gamma2=-0.5, ra_0=-1, dec_0=-1)])
    up = dict(kwargs_upper_lens=[dict(theta_E=1.0, e1=1, e2=1, center_x=1, center_y=1), dict(gamma1=0.5, gamma2=0.5, ra_0=1, dec_0=1)])
    kw = dict(kwargs_fixed_lens=fixed_lens, **low, **up)
    if km["source_light_model_list"]:
        kw["kwargs_fixed_source"] = [dict(n_sersic=1.3, center_y=0.1)]
    if variant.startswith("tracer"):
        kw["kwargs_fixed_tracer_source"] = [dict(sigma=0.5, center_x=0.1, center_y=0.0)]
    p = Param(km, **kw, **par)
    lik = Likelihood(data, km, p, **likelihood_options(terms, variant))
    return lik, p, sets, data, km


def args_of(p, s):
    return np.array(p.kwargs2args(**{k: v for k, v in s.items()}))


def lens_of(km, sp):
    kw = {k: km[k] for k in ("z_lens", "z_source", "z_source_convention", "multi_plane", "lens_redshift_list") if k in km}
    if "z_sampling" in sp:
        kw["lens_redshift_list"] = [0.5, sp["z_sampling"][0]]
    if "H0" in sp:
        kw["cosmo"] = FlatLambdaCDM(H0=sp["H0"], Om0=sp["Om0"])
    elif "multi_plane" in km or "z_lens" in km:
        kw["cosmo"] = None
    return LensModel(km["lens_model_list"], **kw)


def ps_of(km, sp):
    return PointSource(km["point_source_model_list"], lens_model=lens_of(km, sp), redshift_list=km.get("point_source_redshift_list"), kwargs_lens_eqn_solver=km.get("kwargs_lens_eqn_solver"))


def ref_terms(variant, s):
    km, par, _, data = settings(variant)
    s = snap(s)
    kl, ks, kp, sp = s["kwargs_lens"], s["kwargs_source"], s["kwargs_ps"], s["kwargs_special"]
    zs = km.get("point_source_redshift_list", [None] * len(kp))
    xs, ys = ps_of(km, sp).image_position(kp, kl, original_position=True)
    out = {}
    # image
    dat, psf, num = bands()[0]
    src = LightModel(km["source_light_model_list"], source_redshift_list=km.get("source_redshift_list"))
    special = {k: v for k, v in sp.items() if k in ("delta_x_image", "delta_y_image", "H0", "Om0")}
    m = ImageLinearFit(ImageData(**dat), PSF(**psf), lens_of(km, sp), src, None, ps_of(km, sp), kwargs_numerics=num, likelihood_mask=mask())
    if variant == "nolinear":
        m0 = ImageModel(ImageData(**dat), PSF(**psf), lens_of(km, sp), src, None, ps_of(km, sp), kwargs_numerics=num, likelihood_mask=mask())
        out["image"] = m0.likelihood_data_given_model(kl, ks, [], kp, None, special)
    else:
        out["image"], par_lin = m.likelihood_data_given_model(kl, ks, [], kp, None, special, source_marg=variant == "marginal")
    if variant.startswith("tracer"):
        m.update_linear_kwargs(par_lin, kl, ks, [], kp)
        dat, psf, num = bands()[0]
        dat = dict(dat, image_data=data["tracer_data"][0]["image_data"])
        tm = TracerModelSource(ImageData(**dat), PSF(**psf), lens_of(km, sp), src, tracer_source_class=LightModel(["GAUSSIAN"]), kwargs_numerics=num)
        img = tm.tracer_model(s["kwargs_tracer_source"], kl, ks)
        out["image"] += tm.Data.log_likelihood(img, tracer_mask() if variant == "tracer-masked" else np.ones((N, N)))
    # delays and flux ratios
    dl, de, fr, fe = (data[k] if len(kp) > 1 else [data[k]] for k in ("time_delays_measured", "time_delays_uncertainties", "flux_ratios", "flux_ratio_errors"))
    delay = flux = source = position = 0.0
    for i in range(len(kp)):
        lm = lens_of(km, sp)
        lm.change_source_redshift(zs[i])
        if "H0" in sp:
            t = lm.arrival_time(xs[i], ys[i], kl)
        else:
            scale = 1.0
            if "z_lens" in km:
                z0, z1, zl = km["z_source_convention"], zs[i] or km["z_source"], km["z_lens"]
                scale = (COSMO_D(zl, z1)) / (COSMO_D(zl, z0))
            t = lm.fermat_potential(xs[i], ys[i], kl) * ARCSEC**2 * sp["D_dt"] * scale * MPC / CLIGHT / DAY
        delay += -0.5 * np.sum(((t[1:] - t[0] - np.array(dl[i])) / np.array(de[i])) ** 2) if len(t) - 1 == len(dl[i]) else BAD
        mag = np.abs(lm.magnification(xs[i], ys[i], kl))
        flux += -0.5 * np.sum(((mag[1:] / mag[0] - np.array(fr[i])) / np.array(fe[i])) ** 2) if len(mag) - 1 == len(fr[i]) else BAD
        n = min(len(xs[i]), len(data["ra_image_list"][i]))
        position += -0.5 * np.sum((xs[i][:n] - data["ra_image_list"][i][:n]) ** 2 + (ys[i][:n] - data["dec_image_list"][i][:n]) ** 2) / 0.02**2
        if "ra_image" in kp[i]:
            source += source_term(lm, kl, kp[i]["ra_image"], kp[i]["dec_image"], 0.01)
    if flux < BAD / 2:
        flux = BAD
    out.update(delay=delay, flux=flux, position=position, source=source)
    out["astrometry"] = -0.5 * np.sum(sp["delta_x_image"] ** 2 + sp["delta_y_image"] ** 2) / 0.02**2 if "delta_x_image" in sp and "ra_image" in kp[0] else 0.0
    out["prior"] = -0.5 * (((kl[0]["theta_E"] - 0.8) / 0.1) ** 2 + (kl[1]["gamma1"] / 0.05) ** 2 + ((sp["source_size"] - 0.03) / 0.01) ** 2)
    out["custom"] = custom(**s)
    return out


def COSMO_D(zl, zs):
    from astropy.cosmology import default_cosmology

    c = default_cosmology.get()
    return c.angular_diameter_distance(zs).value / c.angular_diameter_distance_z1z2(zl, zs).value


def source_term(lm, kl, x, y, sigma, hard=None):
    """every image's source position is compared with the mean one with the image-plane error mapped to the source plane"""
    bx, by = lm.ray_shooting(x, y, kl)
    bx, by = np.atleast_1d(bx), np.atleast_1d(by)
    mx, my = np.mean(bx), np.mean(by)
    tot = 0.0
    for i in range(len(x)):
        fxx, fxy, fyx, fyy = lm.hessian(x[i], y[i], kl)
        A = np.array([[1 - fxx, -fxy], [-fyx, 1 - fyy]])
        d = np.array([mx - bx[i], my - by[i]])
        dt = np.linalg.solve(A, d)  # displacement in the image plane
        tot -= 0.5 * dt.dot(dt) / sigma**2
        if hard is not None and d.dot(d) > hard**2:
            tot -= 1e3
    return tot


def subset_case(variant, tier, rec):
    names = [t for t in TERMS if t != "extra"]
    refs = None
    for r in range(len(names) + 1):
        if variant.startswith("cosmo") and 2 < r < len(names) - 1:
            continue
        for terms in itertools.combinations(names, r):
            lik, p, sets, data, km = make(variant, terms)
            if refs is None:
                refs = [ref_terms(variant, s) for s in sets]
            data0, km0 = snap(data), snap(km)
            num = 0
            if "image" in terms:
                num += int(mask().sum()) + ((int(tracer_mask().sum()) if variant == "tracer-masked" else N * N) if variant.startswith("tracer") else 0)
            if "flux" in terms:
                num += len(np.concatenate([np.atleast_1d(q) for q in (data["flux_ratios"] if variant == "two" else [data["flux_ratios"]])]))
            if "position" in terms:
                num += 2 * sum(len(q) for q in data["ra_image_list"])
            if "delay" in terms:
                num += len(np.concatenate([np.atleast_1d(q) for q in (data["time_delays_measured"] if variant == "two" else [data["time_delays_measured"]])]))
            rec.same("num-data", lik.num_data, num, what="%s %s" % (variant, terms))
            for i, s in enumerate(sets):
                a = args_of(p, s)
                a0 = a.copy()
                got = lik.logL(a)
                rec.same("sum", got, sum(refs[i][t] for t in terms), 1e-7, 1e-6, what="%s %s set %d" % (variant, terms, i))
                rec.unchanged("args", a0, a)
                got = lik.log_likelihood(snap(s))
                rec.same("sum-kwargs", got, sum(refs[i][t] for t in terms), 1e-7, 1e-6, what="%s %s set %d" % (variant, terms, i))
                rec.same("negative", lik.negativelogL(a), -sum(refs[i][t] for t in terms), 1e-7, 1e-6)
                rec.same("alias", (lik(a), lik.likelihood(a)), (got, got), 1e-7, 1e-6)
                rec.trans(5)
            rec.unchanged("settings", (data0, km0), (data, km), what="%s %s" % (variant, terms))
            rec.trace()
            rec.state("%s%s" % (variant, terms))
    rec.outcome([list(r.values()) for r in refs])


def moves(variant, p, sets):
    """named parameter vectors"""
    lo, up = p.param_limits()
    a = [args_of(p, s) for s in sets]
    out = {"a": a[0], "b": a[1], "c": a[2]}
    high, low, edge, veto = a[0].copy(), a[0].copy(), a[1].copy(), a[0].copy()
    high[0] = up[0] + 1e-3
    low[-1] = lo[-1] - 1e-3
    edge[0] = lo[0]
    veto[0] = 0.97
    out.update(high=high, low=low, edge=edge, veto=veto)
    names = p.num_param()[1]
    return out


def not_a_number_case(variant, tier, rec):
    """an image, tracer or astrometry that is not a number gives a low value; the other terms are not affected"""
    refs = None
    for where, terms in itertools.product(("amp", "center", "shift", "tracer"), (("image",), ("image", "prior"), ("astrometry",), ("astrometry", "prior"))):
        if where == "shift" and "image" in terms:
            continue  # positions that are not numbers cannot be rendered
        lik, p, sets, data, km = make(variant, terms)
        s = snap(sets[0])
        if where == "amp":
            s["kwargs_source"][0]["amp"] = np.nan
        elif where == "center":
            s["kwargs_source"][0]["center_x"] = np.nan
        elif where == "shift":
            s["kwargs_special"]["delta_x_image"][0] = np.nan
        elif "kwargs_tracer_source" in s:
            s["kwargs_tracer_source"][0]["amp"] = np.nan
        got = lik.log_likelihood(s)
        rec.true("number", np.isfinite(got), "%s %s %s %s" % (variant, where, terms, got))
        again = lik.log_likelihood(snap(sets[0]))
        rec.same("after-number", again, make(variant, terms)[0].log_likelihood(snap(sets[0])), 1e-9, what="%s %s %s" % (variant, where, terms))
        rec.trans(2)
        rec.trace()
        rec.state("%s%s%s" % (variant, where, terms))
    rec.outcome(again)


def history_case(variant, tier, rec):
    terms = tuple(t for t in TERMS if t != "extra")
    lik, p, sets, data, km = make(variant, terms)
    mv = moves(variant, p, sets)
    exp = {}
    for n, v in mv.items():
        f = make(variant, terms)[0]
        exp[n] = f.logL(v)
        if n in ("high", "low"):
            rec.same("outside", exp[n], float(OUT), what="%s %s" % (variant, n))
        elif n == "veto":
            rec.true("veto", exp[n] <= OUT, "%s %s" % (variant, exp[n]))
        else:
            rec.true("finite", np.isfinite(exp[n]) and exp[n] > OUT, "%s %s %s" % (variant, n, exp[n]))
    depth = 3
    keys = list(mv)
    if tier == "quick" and variant.startswith("cosmo"):
        keys = ["a", "b", "high", "veto"]
    if tier != "quick" and not variant.startswith("cosmo"):
        depth = 4
        keys = [k for k in keys if k not in ("low", "c")]
    for seq in itertools.product(keys, repeat=depth):
        lik = make(variant, terms)[0]
        got = [lik.logL(mv[n].copy()) for n in seq]
        rec.same("history", np.array(got), np.array([exp[n] for n in seq]), 1e-9, 1e-7, what="%s %s" % (variant, ">".join(seq)))
        rec.trans(depth)
        rec.trace()
        rec.state("%s%s" % (variant, seq))
    # two instances interleaved, and copies sent to other processes
    for s1, s2 in itertools.product(itertools.product(keys[:3], repeat=2), repeat=2):
        l1, p1 = make(variant, terms)[:2]
        l2 = pickle.loads(pickle.dumps(l1))
        got = []
        for n1, n2 in zip(s1, s2):
            got += [l1.logL(mv[n1]), l2.logL(mv[n2])]
        rec.same("copies", np.array(got), np.array([exp[n] for q in zip(s1, s2) for n in q]), 1e-9, 1e-7, what="%s %s %s" % (variant, s1, s2))
        rec.trans(4)
        rec.trace()
        rec.state("%s%s%s" % (variant, s1, s2))
    for flag in (True, False):  # bounds are only enforced when asked for
        lik, p, sets, data, km = make(variant, ("prior",))
        km2, par, _, _ = settings(variant)
        v = mv["high"]
        l3 = Likelihood(data, km, p, check_bounds=flag, **likelihood_options(("prior",), variant))
        s = p.args2kwargs(v)
        e = -0.5 * (((s["kwargs_lens"][0]["theta_E"] - 0.8) / 0.1) ** 2 + (s["kwargs_lens"][1]["gamma1"] / 0.05) ** 2 + ((s["kwargs_special"]["source_size"] - 0.03) / 0.01) ** 2)
        rec.same("bounds", l3.logL(v), float(OUT) if flag else e, 1e-8, what="%s %s" % (variant, flag))
    rec.outcome(list(exp.values()))


def bounds_case(tier, rec):
    lo, up = np.array([-1.0, 0.0, 2.0]), np.array([1.0, 0.5, 3.0])
    pos = [(-1.5, False), (-1.0, True), (0.0, True), (1.0, True), (1.0 + 1e-9, False)]
    val = lambda i, t: lo[i] + (up[i] - lo[i]) * (t + 1) / 2
    for combo in itertools.product(pos, repeat=3):
        a = [val(i, t) for i, (t, _) in enumerate(combo)]
        _, hit = Likelihood.check_bounds(a, lo, up)
        rec.same("check-bounds", bool(hit), not all(ok for _, ok in combo), what="%s" % (combo,))
        rec.trans()
    for a, e in ((0.2, False), (1.2, True)):
        rec.same("scalar", bool(Likelihood.check_bounds(a, [0.0], [1.0])[1]), e)
    rec.trace()
    rec.state("bounds")
    rec.outcome(1)


def delay_case(tier, rec):
    """all measurement masks, error forms, single / several / bimodal"""
    km, par, sets, data = settings("two")
    for nps in (1, 2):
        kp = snap(sets[1]["kwargs_ps"][:nps])
        zs = [1.0, 1.5][:nps]
        for znone in (False, True):
            z = [None] * nps if znone else zs
            sp = dict(D_dt=2400.0)
            lm = LensModel(km["lens_model_list"], z_lens=0.5, z_source=1.5, z_source_convention=1.5)
            kl = sets[1]["kwargs_lens"]
            model = []
            for i in range(nps):
                f = LensModel(km["lens_model_list"], z_lens=0.5, z_source=1.5, z_source_convention=1.5)
                f.change_source_redshift(z[i])
                sc = 1.0 if z[i] is None else COSMO_D(0.5, z[i]) / COSMO_D(0.5, 1.5)
                t = f.fermat_potential(kp[i]["ra_image"], kp[i]["dec_image"], kl) * ARCSEC**2 * sp["D_dt"] * sc * MPC / CLIGHT / DAY
                model.append(t[1:] - t[0])
            meas = [[5.0, -3.0], [2.0]][:nps]
            e1 = [[2.0, 3.0], [1.5]][:nps]
            e2 = [np.array([[4.0, 1.0], [1.0, 9.0]]), np.array([[2.0]])][:nps]
            for err, masks in itertools.product((e1, e2), itertools.product(*[[None] + list(itertools.product((True, False), repeat=len(m))) for m in meas])):
                if None in masks and any(m is not None for m in masks):
                    continue
                b = None if None in masks else [list(m) for m in masks]
                what = "nps %d z %s errors %s masks %s" % (nps, z, np.ndim(err[0]), masks)
                ps = PointSource(["LENSED_POSITION"] * nps, lens_model=lm, redshift_list=list(z))
                tl = TimeDelayLikelihood(snap(meas if nps > 1 else meas[0]), snap(err if nps > 1 else err[0]), lm, ps, time_delay_measurement_bool_list=b)
                exp = 0.0
                for i in range(nps):
                    sel = np.array(masks[i] if masks[i] is not None else [True] * len(meas[i]))
                    d = (model[i] - np.array(meas[i]))[sel]
                    if np.ndim(err[0]) == 1:
                        exp += -0.5 * np.sum((d / np.array(err[i])[sel]) ** 2)
                    else:
                        C = np.array(err[i])[np.ix_(sel, sel)]
                        exp += -0.5 * d.dot(np.linalg.solve(C, d)) if sel.any() else 0.0
                for rep in range(2):
                    rec.same("delay", tl.logL(snap(kl), snap(kp), dict(sp)), exp, 1e-8, 1e-9, what=what)
                    rec.trans()
                rec.same("delay-mst", tl.logL(snap(kl), snap(kp), dict(sp, D_dt=sp["D_dt"] / 0.9), lambda_mst=0.9), exp, 1e-8, 1e-9, what=what)
                rec.same("lens-redshift", lm.z_source, 1.5, what=what)
                rec.state(what)
                rec.trace()
    # bimodal: sum of the likelihoods of both solutions
    for far in (0.0, 30.0, 3000.0):
        kp = snap(sets[0]["kwargs_ps"][:1])
        lm = LensModel(km["lens_model_list"])
        kl = sets[0]["kwargs_lens"]
        t = lm.fermat_potential(kp[0]["ra_image"], kp[0]["dec_image"], kl) * ARCSEC**2 * 2400.0 * MPC / CLIGHT / DAY
        d = t[1:] - t[0]
        for m in [None] + list(itertools.product((True, False), repeat=2)):
            if m is not None and not any(m):
                continue
            sel = np.array(m if m is not None else [True, True])
            m1, m2 = d + 1.0 + far, d - 2.0 - 0.5 * far
            ps = PointSource(["LENSED_POSITION"], lens_model=lm)
            tl = TimeDelayLikelihood([m1, m2], [[2.0, 3.0], [1.0, 2.0]], lm, ps, time_delay_measurement_bool_list=None if m is None else [list(m)], bimodal_measurement=True)
            l1 = -0.5 * np.sum(((d - m1) / np.array([2.0, 3.0]))[sel] ** 2)
            l2 = -0.5 * np.sum(((d - m2) / np.array([1.0, 2.0]))[sel] ** 2)
            rec.same("bimodal", tl.logL(kl, kp, dict(D_dt=2400.0)), np.logaddexp(l1, l2), 1e-8, 1e-8, what="offset %s mask %s" % (far, m))
            rec.trans()
    rec.outcome(model)


def flux_case(tier, rec):
    km, par, sets, data = settings("two")
    kl = sets[1]["kwargs_lens"]
    for nps, z0, kind in itertools.product((1, 2), ([None, None], [1.0, 1.5], [1.5, 1.0], [1.0, None]), (1, 2)):
        z = z0[:nps]
        for on in itertools.product((True, False), repeat=nps):
            lm = LensModel(km["lens_model_list"], z_lens=0.5, z_source=1.5, z_source_convention=1.5)
            kp = sets[1]["kwargs_ps"][:nps]
            fr = [[0.7, 1.2], [1.4]][:nps]
            fe = ([[0.1, 0.3], [0.2]] if kind == 1 else [np.array([[0.04, 0.01], [0.01, 0.09]]), np.array([[0.04]])])[:nps]
            fl = FluxRatioLikelihood(lm, fr if nps > 1 else fr[0], fe if nps > 1 else fe[0], flux_ratio_measurement_bool=list(on), num_point_sources=nps, point_source_redshift_list=list(z))
            exp = 0.0
            for i in range(nps):
                f = LensModel(km["lens_model_list"], z_lens=0.5, z_source=1.5, z_source_convention=1.5)
                f.change_source_redshift(z[i])
                mag = np.abs(f.magnification(kp[i]["ra_image"], kp[i]["dec_image"], kl))
                q = mag[1:] / mag[0]
                if on[i]:
                    if kind == 1:
                        exp += -0.5 * np.sum(((q - fr[i]) / np.array(fe[i])) ** 2)
                    else:
                        d = np.log(q) - np.log(fr[i])
                        exp += -0.5 * d.dot(np.linalg.solve(fe[i], d))
            what = "nps %d redshifts %s errors %d on %s" % (nps, z, kind, on)
            for rep in range(2):
                rec.same("flux", fl.logL([k["ra_image"] for k in kp], [k["dec_image"] for k in kp], snap(kl), {}), exp, 1e-8, 1e-9, what=what)
                rec.trans()
            # a wrong number of images: no likelihood, and the lens is left as it was
            for w in range(nps):
                few = [k["ra_image"][:len(k["ra_image"]) - (i == w)] for i, k in enumerate(kp)], [k["dec_image"][:len(k["dec_image"]) - (i == w)] for i, k in enumerate(kp)]
                rec.same("flux-number", fl.logL(*few, snap(kl), {}), BAD if on[w] else exp, 1e-8, 1e-9, what=what + " one image of source %d missing" % w)
                rec.same("lens-redshift", lm.z_source, 1.5, what=what + " one image of source %d missing" % w)
            rec.same("flux-num", fl.num_data, sum(len(fr[i]) for i in range(nps) if on[i]), what=what)
            rec.same("lens-redshift", lm.z_source, 1.5, what=what)
            rec.state(what)
            rec.trace()
    rec.outcome(exp)


def finite_case(tier, rec):
    """ratios of the magnifications of an extended source"""
    from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions

    km, par, sets, data = settings("two")
    kl = sets[1]["kwargs_lens"]
    kp = sets[1]["kwargs_ps"]
    fr, fe = [[0.7, 1.2], [1.4]], [[0.1, 0.3], [0.2]]
    for z, typ, win, num, polar, asp, size in itertools.product(([None, None], [1.0, 1.5]), ("GAUSSIAN", "TORUS"), (0.1, 0.2), (20, 30), (False, True), (0.5, 0.8), (0.01, 0.03)):
        lm = LensModel(km["lens_model_list"], z_lens=0.5, z_source=1.5, z_source_convention=1.5)
        fl = FluxRatioLikelihood(lm, fr, fe, num_point_sources=2, point_source_redshift_list=list(z), source_type=typ, window_size=win, grid_number=num, polar_grid=polar, aspect_ratio=asp)
        exp = 0.0
        for i in range(2):
            f = LensModel(km["lens_model_list"], z_lens=0.5, z_source=1.5, z_source_convention=1.5)
            f.change_source_redshift(z[i])
            mag = LensModelExtensions(f).magnification_finite(kp[i]["ra_image"], kp[i]["dec_image"], kl, source_sigma=size, window_size=win, grid_number=num, polar_grid=polar, aspect_ratio=asp)
            exp += -0.5 * np.sum(((mag[1:] / mag[0] - fr[i]) / np.array(fe[i])) ** 2)
        what = "redshifts %s %s window %g grid %d polar %s aspect %g size %g" % (z, typ, win, num, polar, asp, size)
        rec.same("flux-finite", fl.logL([k["ra_image"] for k in kp], [k["dec_image"] for k in kp], snap(kl), dict(source_size=size)), exp, 1e-8, 1e-9, what=what)
        rec.same("lens-redshift", lm.z_source, 1.5, what=what)
        rec.trans()
        rec.state(what)
    # all settings reach the term when it is part of the whole
    lik, p, st, dat, km = make("single", ())
    for win, num, polar, asp in itertools.product((0.1, 0.2), (20, 30), (False, True), (0.5, 0.8)):
        o = dict(likelihood_options(("flux",), "single"), kwargs_flux_compute=dict(source_type="GAUSSIAN", window_size=win, grid_number=num, polar_grid=polar, aspect_ratio=asp))
        lk = Likelihood(dat, km, p, **o)
        for s in st:
            lm = LensModel(km["lens_model_list"])
            mag = LensModelExtensions(lm).magnification_finite(s["kwargs_ps"][0]["ra_image"], s["kwargs_ps"][0]["dec_image"], s["kwargs_lens"], source_sigma=s["kwargs_special"]["source_size"], window_size=win, grid_number=num, polar_grid=polar, aspect_ratio=asp)
            e = -0.5 * np.sum(((mag[1:] / mag[0] - np.array(dat["flux_ratios"])) / np.array(dat["flux_ratio_errors"])) ** 2)
            rec.same("flux-finite-whole", lk.logL(args_of(p, s)), e, 1e-7, 1e-8, what="window %g grid %d polar %s aspect %g" % (win, num, polar, asp))
            rec.trans()
    rec.trace()


def position_case(tier, rec):
    km, par, sets, data = settings("two")
    kl = sets[1]["kwargs_lens"]
    base = dict(z_lens=0.5, z_source=1.5, z_source_convention=1.5)
    mp = dict(base, multi_plane=True, lens_redshift_list=[0.5, 0.3])
    full = ["SIE", "SHEAR"]
    for lens, z, types, hard in itertools.product((base, mp), ([None, None], [1.0, 1.5], [1.0, None]), itertools.product(("LENSED_POSITION", "UNLENSED"), repeat=2), (None, 0.02, 1.0)):
        lm = LensModel(full, **lens)
        ps = PointSource(list(types), lens_model=lm, redshift_list=list(z))
        kp = snap(sets[2]["kwargs_ps"])
        sp = dict(delta_x_image=np.array([0.01, 0.0, -0.004]), delta_y_image=np.array([0.002, -0.006, 0.003]))
        what = "%s redshifts %s types %s hard %s" % ("multi" if "multi_plane" in lens else "single", z, types, hard)
        e = {}
        e["source"] = 0.0
        for i in range(2):
            if types[i] == "LENSED_POSITION":
                f = LensModel(full, **lens)
                f.change_source_redshift(z[i])
                e["source"] += source_term(f, kl, kp[i]["ra_image"], kp[i]["dec_image"], 0.03, hard)
        ra, dec = [np.array([0.7, -0.6, 0.1]), np.array([0.5, -0.6])], [np.array([0.2, 0.3, -0.6]), np.array([0.4, -0.2])]
        e["position"] = -0.5 * sum(np.sum((kp[i]["ra_image"] - ra[i]) ** 2 + (kp[i]["dec_image"] - dec[i]) ** 2) for i in range(2)) / 0.02**2
        e["astrometry"] = -0.5 * np.sum(sp["delta_x_image"] ** 2 + sp["delta_y_image"] ** 2) / 0.02**2
        for on in itertools.product((True, False), repeat=3):
            pl = PositionLikelihood(ps, image_position_uncertainty=0.02, astrometric_likelihood=on[0], image_position_likelihood=on[1], ra_image_list=ra, dec_image_list=dec, source_position_likelihood=on[2], source_position_tolerance=hard, source_position_sigma=0.03)
            exp = sum(e[t] for t, q in zip(("astrometry", "position", "source"), on) if q)
            for rep in range(2):
                rec.same("positions", pl.logL(snap(kl), snap(kp), snap(sp)), exp, 1e-7, 1e-7, what=what + " terms %s" % (on,))
                rec.trans()
            rec.same("lens-redshift", lm.z_source, 1.5, what=what)
        rec.trace()
        rec.state(what)
    # images assigned to frames that see their own subset of the lens models
    index = [[0, 1], [0], [1]]
    for f0, f1, hard in itertools.product(itertools.product(range(3), repeat=3), (None, (0, 0), (0, 1), (2, 1)), (None, 0.02)):
        lm = LensModel(full, **base)
        kp = snap(sets[2]["kwargs_ps"])
        types = ["LENSED_POSITION", "LENSED_POSITION"] if f1 is not None else ["LENSED_POSITION", "UNLENSED"]
        ps = PointSource(types, lens_model=lm, index_lens_model_list=index, point_source_frame_list=[list(f0), f1 if f1 is None else list(f1)])
        exp = 0.0
        for k, fr in ((0, f0), (1, f1)):
            if fr is None:
                continue
            sub = [(LensModel([full[j] for j in index[q]]), [kl[j] for j in index[q]]) for q in fr]
            x, y = kp[k]["ra_image"], kp[k]["dec_image"]
            b = np.array([m.ray_shooting(x[i], y[i], kk) for i, (m, kk) in enumerate(sub)])
            for i, (m, kk) in enumerate(sub):
                fxx, fxy, fyx, fyy = m.hessian(x[i], y[i], kk)
                d = b.mean(axis=0) - b[i]
                dt = np.linalg.solve(np.array([[1 - fxx, -fxy], [-fyx, 1 - fyy]]), d)
                exp -= 0.5 * dt.dot(dt) / 0.03**2 + (1e3 if hard is not None and d.dot(d) > hard**2 else 0)
        pl = PositionLikelihood(ps, source_position_likelihood=True, source_position_tolerance=hard, source_position_sigma=0.03)
        what = "frames %s %s hard %s" % (f0, f1, hard)
        rec.same("positions-frames", pl.logL(snap(kl), snap(kp), {}), exp, 1e-7, 1e-7, what=what)
        rec.trans()
        rec.state(what)
    # number of images
    for src, nmax, force in itertools.product(((0.05, 0.04), (0.6, 0.1), (0.01, 0.0)), (0, 1, 2, 3, 4, 5), (False, True)):
        lm = LensModel(full)
        ps = PointSource(["SOURCE_POSITION"], lens_model=lm, kwargs_lens_eqn_solver=dict(SOLVER, min_distance=0.03, search_window=5), magnification_limit=0.05)
        kp = [dict(ra_source=src[0], dec_source=src[1], point_amp=1)]
        n = len(ps.image_position(kp, LENS)[0][0])
        pl = PositionLikelihood(ps, restrict_image_number=True, max_num_images=nmax, source_position_likelihood=False)
        rec.same("image-number", pl.logL(LENS, kp, {}), -(10.0**5) if n > nmax else 0.0, what="source %s images %d allowed %d" % (src, n, nmax))
        x, y = ps.image_position(kp, LENS)
        order = np.argsort(np.hypot(x[0], y[0]))
        ps2 = PointSource(["LENSED_POSITION"], lens_model=lm, kwargs_lens_eqn_solver=dict(SOLVER, min_distance=0.03, search_window=5), magnification_limit=0.05)
        if nmax >= 1:
            keep = order[::-1][:nmax]
            k2 = [dict(ra_image=x[0][keep], dec_image=y[0][keep], point_amp=np.ones(len(keep)))]
            pl = PositionLikelihood(ps2, force_no_add_image=force, source_position_likelihood=False)
            rec.same("additional-images", pl.logL(LENS, k2, {}), -(10.0**5) if force and len(keep) < n else 0.0, what="source %s images %d given %d" % (src, n, len(keep)))
        rec.trans(2)
        rec.state("%s%s%s" % (src, nmax, force))
    # several sources of which some have more images than the model, in any order; also images a little outside of the window
    src = {"full": (0.05, 0.04, 4), "part": (0.05, 0.04, 3), "far": (0.6, 0.1, None)}
    lm = LensModel(full)
    for combo in [c for r in (1, 2, 3) for c in itertools.product(("full", "part", "unlensed"), repeat=r)]:
        types, kps, more = [], [], False
        for c in combo:
            if c == "unlensed":
                types.append("UNLENSED")
                kps.append(dict(ra_image=np.array([0.3]), dec_image=np.array([0.4]), point_amp=np.ones(1)))
                continue
            types.append("LENSED_POSITION")
            ref = PointSource(["SOURCE_POSITION"], lens_model=LensModel(full), kwargs_lens_eqn_solver=dict(SOLVER, min_distance=0.03, search_window=5), magnification_limit=0.05)
            x, y = ref.image_position([dict(ra_source=0.05, dec_source=0.04, point_amp=1)], LENS)
            keep = np.arange(len(x[0]) - (c == "part"))
            more |= c == "part"
            kps.append(dict(ra_image=x[0][keep], dec_image=y[0][keep], point_amp=np.ones(len(keep))))
        rmax = np.max(np.abs([x[0], y[0]])) if "LENSED_POSITION" in types else 1.0
        for win in (5.0, 2 * rmax * 0.85):  # the search for further images is done in a window 1.5 times as wide
            ps = PointSource(list(types), lens_model=lm, kwargs_lens_eqn_solver=dict(SOLVER, min_distance=0.03, search_window=win), magnification_limit=0.05)
            pl = PositionLikelihood(ps, force_no_add_image=True, source_position_likelihood=False)
            rec.same("additional-several", pl.logL(snap(LENS), snap(kps), {}), -(10.0**5) if more else 0.0, what="%s window %g" % (combo, win))
            rec.trans()
        rec.state("additional %s" % (combo,))
    rec.outcome(list(e.values()))


def prior_case(tier, rec):
    """all combinations of prior lists over the parameter groups"""
    groups = ("lens", "source", "lens_light", "ps", "extinction", "special")
    kw = dict(kwargs_lens=[dict(p=1.1, q=0.3), dict(p=2.0, q=np.array([0.2, 0.4]))], kwargs_source=[dict(p=0.7, q=0.5)], kwargs_lens_light=[dict(p=1.4, q=0.2)], kwargs_ps=[dict(p=0.9, q=np.array([1.0, 1.2, 0.8]))], kwargs_extinction=[dict(p=0.3, q=0.1)], kwargs_special=dict(p=1.3, q=0.6))
    samples = {g: np.random.RandomState(i).normal(1.0, 0.3, 200) for i, g in enumerate(groups)}
    from scipy.stats import norm

    def gauss(g):
        v = kw["kwargs_" + g]
        if g == "special":
            return [["p", 1.0, 0.2], ["q", 0.5, 0.3]], -0.5 * (((v["p"] - 1) / 0.2) ** 2 + ((v["q"] - 0.5) / 0.3) ** 2)
        i = len(v) - 1
        return [[i, "p", 1.0, 0.2], [i, "q", 0.5, 0.3]], -0.5 * (((v[i]["p"] - 1) / 0.2) ** 2 + np.sum(((v[i]["q"] - 0.5) / 0.3) ** 2))

    single = {}
    for r in range(len(groups) + 1):
        for sel in itertools.combinations(groups, r):
            kwp, exp = {}, 0.0
            for g in sel:
                kwp["prior_" + g], e = gauss(g)
                exp += e
            pl = PriorLikelihood(**kwp)
            rec.same("gaussian", pl.logL(**snap(kw)), exp, 1e-10, 1e-12, what="%s" % (sel,))
            rec.trans()
            rec.state("g%s" % (sel,))
    # sampled priors: relative density of two values is that of the kernel estimate of the samples
    from lenstronomy.Util.prob_density import KDE1D

    for r in range(1, 3):
        for sel in itertools.combinations(groups, r):
            kwp, exp = {}, 0.0
            for g in sel:
                v = kw["kwargs_" + g]
                kwp["prior_%s_kde" % g] = [["p", samples[g]]] if g == "special" else [[0, "p", samples[g]]]
                x = v["p"] if g == "special" else v[0]["p"]
                exp += np.log(KDE1D(values=samples[g]).likelihood(x)[0])
            pl = PriorLikelihood(**kwp)
            rec.same("sampled", pl.logL(**snap(kw)), exp, 1e-10, 1e-12, what="%s" % (sel,))
            rec.trans()
            rec.state("k%s" % (sel,))
    # log-normal: differences of the log density between parameter values
    for g in groups:
        kwp = {"prior_%s_lognormal" % g: [["p", 0.1, 0.4]] if g == "special" else [[0, "p", 0.1, 0.4]]}
        pl = PriorLikelihood(**kwp)
        vals = []
        xs = np.array([0.3, 0.8, 1.0, 1.7, 3.0])
        for x in xs:
            k = snap(kw)
            if g == "special":
                k["kwargs_special"]["p"] = x
            else:
                k["kwargs_" + g][0]["p"] = x
            vals.append(pl.logL(**k))
            rec.trans()
        dens = -((np.log(xs) - 0.1) ** 2) / 2 / 0.4**2 - np.log(xs)
        single[g] = vals
        rec.same("lognormal-groups", vals, single[groups[0]], 1e-10, what=g)
        rec.same("lognormal", np.array(vals) - vals[2], dens - dens[2], 1e-9, 1e-9, what=g)
        rec.state("l" + g)
    rec.trace()
    rec.outcome(exp)


class FakeGenerator(object):
    """stands for the neural network: a quadratic map whose coefficients depend on all nine parameters"""

    calls = []

    def generate_map(self, p):
        p = np.array(p, dtype=float)
        FakeGenerator.calls.append(p)
        return fake_map(p, *np.meshgrid(np.arange(551.0), np.arange(551.0)))


def fake_map(p, x, y):
    c = np.sin(np.arange(9.0) + 1) @ p
    u, v = (x - 275.5) / 50.0, (y - 275.5) / 50.0
    return 200 + 3 * c + 4 * u - 3 * v + (2 + 0.1 * c) * u**2 + 1.3 * v**2 + 0.7 * u * v


def kin_setup(n, psf, bins, rot, shift, il, ill, cov):
    from lenstronomy.Data.kinematic_bin_2D import KinBin

    lens = ["SHEAR", "EPL_Q_PHI"] if il else ["EPL_Q_PHI", "SHEAR"]
    light = ["SERSIC"] * ill + ["SERSIC_ELLIPSE_Q_PHI"]
    nb = int(bins.max()) + 1
    t = 0.2 * np.array([[np.cos(rot), -np.sin(rot)], [np.sin(rot), np.cos(rot)]])
    ra0, dec0 = -t @ np.array([n / 2.0, n / 2.0])
    data = 205.0 + 3 * np.arange(nb)
    c = np.diag(25.0 + np.arange(nb))
    if cov:
        c = c + 4.0 * np.ones((nb, nb)) + 3 * np.eye(nb, k=1) + 3 * np.eye(nb, k=-1)
    kb = KinBin(bin_data=data, bin_cov=c, bin_mask=bins, ra_at_xy_0=ra0, dec_at_xy_0=dec0, transform_pix2angle=t, psf_class=PSF(psf_type="PIXEL", kernel_point_source=psf), ra_shift=shift[0], dec_shift=shift[1])
    ni, di = 8, 0.15
    kd = dict(image_data=2.0 + np.zeros((ni, ni)), background_rms=0.3, exposure_time=60.0, transform_pix2angle=np.eye(2) * di, ra_at_xy_0=-ni / 2 * di, dec_at_xy_0=-ni / 2 * di)
    return kb, kd, lens, light, t, ra0 + shift[0], dec0 + shift[1], data, c


def kin_sets(il, ill):
    out = []
    for th, ga, q, phi, dphi, cx, cy, ql, rs, ns, ddt, dd, ani, inc, ok in (
        (1.2, 2.0, 0.8, 0.4, 0.0, 0.0, 0.0, 0.75, 0.9, 3.0, 2886.0, 1215.0, 0.1, 1.4, True),
        (1.4, 2.1, 0.7, -1.1, 0.03, 0.05, -0.1, 0.9, 1.0, 2.5, 2500.0, 1000.0, -0.2, 1.5, True),
        (1.2, 2.0, 0.8, 1.565, -np.pi + 0.02, -0.07, 0.04, 0.75, 0.9, 3.5, 3000.0, 1300.0, 0.3, 1.4, True),
        (1.2, 2.0, 0.8, 0.4, 0.2, 0.0, 0.0, 0.75, 0.9, 3.0, 2886.0, 1215.0, 0.1, 1.4, False),
        (1.2, 2.0, 0.97, 0.4, 0.2, 0.0, 0.0, 0.96, 0.9, 3.0, 2886.0, 1215.0, 0.1, 1.4, True),
        (1.2, 2.0, 0.8, 0.4, 0.0, 0.0, 0.0, 0.75, 1.9, 3.0, 2886.0, 1215.0, 0.1, 1.4, False),
        (1.2, 2.0, 0.8, 0.4, 0.0, 0.0, 0.0, 0.75, 0.55, 3.0, 2886.0, 1215.0, 0.1, 1.4, False),
        (1.2, 2.0, 0.8, 0.4, 0.0, 0.0, 0.0, 0.75, 0.9, 4.5, 2886.0, 1215.0, 0.1, 1.4, False),
        (1.2, 2.0, 0.8, 0.4, 0.0, 0.0, 0.0, 0.75, 0.9, 3.0, 2886.0, 1215.0, 0.5, 1.4, False),
        (1.2, 2.0, 0.8, 0.4, 0.0, 0.0, 0.0, 0.75, 0.9, 3.0, 2886.0, 1215.0, 0.1, 0.6, False),
        (1.2, 2.6, 0.8, 0.4, 0.0, 0.0, 0.0, 0.75, 0.9, 3.0, 2886.0, 1215.0, 0.1, 1.4, False),
        (1.2, 2.0, 0.55, 0.4, 0.0, 0.0, 0.0, 0.75, 0.9, 3.0, 2886.0, 1215.0, 0.1, 1.5, False),
    ):
        a = dict(theta_E=th, gamma=ga, q=q, phi=phi, center_x=cx, center_y=cy)
        b = dict(gamma1=0.02, gamma2=0.01, ra_0=0, dec_0=0)
        lt = [dict(amp=3.0, R_sersic=0.4, n_sersic=1.0, center_x=0.3, center_y=0.2)] * ill + [dict(amp=2.0, R_sersic=rs, n_sersic=ns, q=ql, phi=phi + dphi, center_x=cx, center_y=cy)]
        out.append((dict(kwargs_lens=[b, a] if il else [a, b], kwargs_lens_light=copy.deepcopy(lt), kwargs_special=dict(D_dt=ddt, D_d=dd, b_ani=ani, incli=inc)), ok))
    return out


def kin_ref(s, ok, il, n, psf, bins, t, ra0, dec0, data, cov, light, zl):
    """bounds, network parameters, map on the spectral pixels, light weights, chi square"""
    a, b, sp = s["kwargs_lens"][1 if il else 0], s["kwargs_lens_light"][-1], s["kwargs_special"]
    g = (a["gamma"] - 1) / 2
    p = np.array([a["q"], b["q"], a["theta_E"] / ((2 / (1 + a["q"])) ** (1 / (2 * g)) * np.sqrt(a["q"])), b["n_sersic"], b["R_sersic"], 0.08, g, sp["b_ani"], np.degrees(sp["incli"])])
    yy, xx = np.mgrid[0:n, 0:n]
    ra, dec = t[0, 0] * xx + t[0, 1] * yy + ra0, t[1, 0] * xx + t[1, 1] * yy + dec0
    dx, dy = (ra - a["center_x"]) / 0.02, (dec - a["center_y"]) / 0.02
    cp, sn = np.cos(a["phi"]), np.sin(a["phi"])
    fid = 1650.753 / 1042.883
    v = fake_map(p, cp * dx + sn * dy + 275.5, -sn * dx + cp * dy + 275.5) * np.sqrt(sp["D_dt"] / sp["D_d"] / (1 + zl) / fid)
    lum = LightModel(light).func_list[-1].function(ra.flatten(), dec.flatten(), **b).reshape(n, n)

    def conv(m):
        h = len(psf) // 2
        out = np.zeros_like(m)
        for i in range(-h, h + 1):
            for j in range(-h, h + 1):
                for y in range(n):
                    for x in range(n):
                        if 0 <= y - i < n and 0 <= x - j < n:
                            out[y, x] += m[y - i, x - j] * psf[i + h, j + h]
        return out

    cv, cl = conv(v), conv(lum)
    vr = np.array([(cv * cl)[bins == k].sum() / cl[bins == k].sum() for k in range(len(data))])
    d = vr - data
    return p, vr, -0.5 * d @ np.linalg.solve(cov, d) if ok else -(10.0**8)


def kinematic_case(tag, tier, rec):
    import sys
    import types

    fake, gen = types.ModuleType("SKiNN"), types.ModuleType("SKiNN.generator")
    gen.Generator = FakeGenerator
    fake.generator = gen
    old = {k: sys.modules.get(k) for k in ("SKiNN", "SKiNN.generator")}
    sys.modules.update({"SKiNN": fake, "SKiNN.generator": gen})
    try:
        _kinematic_case(tag, tier, rec)
    finally:
        for k, m in old.items():
            if m is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = m


def _kinematic_case(tag, tier, rec):
    from lenstronomy.Sampling.Likelihoods.kinematic_2D_likelihood import KinLikelihood

    n = 5
    il, ill = int(tag[0]), int(tag[1])
    sharp = np.zeros((3, 3))
    sharp[1, 1] = 1
    wide = np.array([[1.0, 2, 1], [3, 8, 2], [0.5, 2, 1]])
    bins = np.array([[0, 0, 1, 1, -1], [0, 0, 1, 1, -1], [2, 2, 3, 1, 4], [2, 2, 3, 3, 4], [-1, -1, 3, 3, 4]])
    sets = kin_sets(il, ill)
    zl = 0.45
    for psf, rot, shift, cov, single in itertools.product((sharp, wide / wide.sum()), (0.0, 0.6), ((0, 0), (0.06, -0.04)), (False, True), (False, True)):
        if tier == "quick" and (cov != single or (single and shift[0])):
            continue
        b = np.zeros((n, n), dtype=int) if single else bins
        if single:
            b[0, 0] = -1
        kb, kd, lens, light, t, ra0, dec0, data, c = kin_setup(n, psf, b, rot, shift, il, ill, cov)
        lm, ltm = LensModel(lens, z_lens=zl), LightModel(light)
        before = snap([kd, data, c, b])
        kl = KinLikelihood(kb, lm, ltm, kd, idx_lens=il, idx_lens_light=ill)
        order = list(range(len(sets))) if not cov else list(range(len(sets)))[::-1]
        for i in order + order[:2]:
            s, ok = sets[i]
            p, vr, ref = kin_ref(s, ok, il, n, psf, b, t, ra0, dec0, data, c, light, zl)
            s0 = snap(s)
            what = "psf %s rot %s shift %s set %d" % (psf is sharp, rot, shift, i)
            rec.same("logL", kl.logL(**snap(s)), ref, 1e-6, 1e-6, what=what)
            if ok:
                FakeGenerator.calls.clear()
                rec.same("vrms", kl.calc_vrms(**s), vr, 1e-7, what=what)
                rec.same("network", FakeGenerator.calls[-1], p, 1e-10, what=what)
            rec.unchanged("inputs", s0, s, what)
            rec.trans(2)
            rec.state(what)
        rec.same("data", [kd[k] for k in sorted(kd) if k != "image_data"][0], [before[0][k] for k in sorted(kd) if k != "image_data"][0], 0)
        rec.same("binned", kb.binned_image(data + 0.25, b), np.where(b >= 0, (data + 0.25)[b], 0), 1e-14)
        gx, gy = kb.kin_grid()
        yy, xx = np.mgrid[0:n, 0:n]
        rec.same("grid-ra", gx, t[0, 0] * xx + t[0, 1] * yy + ra0, 1e-10, 1e-12)
        rec.same("grid-dec", gy, t[1, 0] * xx + t[1, 1] * yy + dec0, 1e-10, 1e-12)
    # as one term of the likelihood
    kb, kd, lens, light, t, ra0, dec0, data, c = kin_setup(n, sharp, bins, 0.3, (0, 0), il, ill, True)
    km = dict(lens_model_list=lens, lens_light_model_list=light, z_lens=zl, z_source=1.5, z_source_convention=1.5)
    par = Param(km, Ddt_sampling=True, kinematic_sampling=True, linear_solver=False)
    kdj = dict(multi_band_list=[[kd, dict(psf_type="NONE"), {}]], multi_band_type="multi-linear", kinematic_data=kb)
    for im in (False, True):
        both = [Likelihood(kdj, km, par, image_likelihood=im, kinematic_2d_likelihood=k, kin_lens_idx=il, kin_lens_light_idx=ill, check_bounds=False) for k in (True, False)]
        for i in (0, 1, 3, 0):
            s, ok = sets[i]
            _, _, ref = kin_ref(s, ok, il, n, sharp, bins, t, ra0, dec0, data, c, light, zl)
            a = par.kwargs2args(**s)
            r = [x.logL(a) for x in both]
            rec.same("term", r[0] - r[1], ref, 1e-6, 1e-4, what="image %s set %d" % (im, i))
            rec.trans()
    # a mask that is not square
    from lenstronomy.Data.kinematic_bin_2D import KinBin

    m = np.arange(12).reshape(3, 4)
    kb = KinBin(np.arange(12.0) + 0.5, np.eye(12), m, 1.0, 2.0, np.array([[0.1, 0.02], [-0.03, 0.2]]), None, ra_shift=0.5, dec_shift=-0.2)
    gx, gy = kb.kin_grid()
    yy, xx = np.mgrid[0:3, 0:4]
    rec.same("oblong-ra", gx, 0.1 * xx + 0.02 * yy + 1.5, 1e-12)
    rec.same("oblong-dec", gy, -0.03 * xx + 0.2 * yy + 1.8, 1e-12)
    rec.same("oblong-image", kb.kin_bin2kwargs()["image"], m + 0.5, 1e-14)
    rec.trace()
    rec.outcome(ref)


def cases(tier):
    out = ["subset|" + v for v in VARIANTS] + ["history|" + v for v in VARIANTS]
    out += ["nan|" + v for v in ("single", "nolinear", "tracer")]
    return out + ["bounds", "delay", "flux", "finite", "position", "prior"] + ["kinematic|" + x for x in ("00", "01", "10", "12")]


def run_case(case, tier, rec):
    t = case.split("|")
    {"nan": lambda: not_a_number_case(t[1], tier, rec), "subset": lambda: subset_case(t[1], tier, rec), "history": lambda: history_case(t[1], tier, rec), "bounds": lambda: bounds_case(tier, rec), "delay": lambda: delay_case(tier, rec),
     "flux": lambda: flux_case(tier, rec), "finite": lambda: finite_case(tier, rec), "position": lambda: position_case(tier, rec), "prior": lambda: prior_case(tier, rec), "kinematic": lambda: kinematic_case(t[1], tier, rec)}[t[0]]()
