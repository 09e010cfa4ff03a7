"""P30: COOLEST templates and lenstronomy models describe the same lens, in both directions.

Every profile of the interface with every combination of orientations, axis ratios, positions, missing values, fixed
parameters and ranges, every composition and order of the entities of a template, every posterior of a small set of samples,
every pixel ratio of data and kernel: templates are written to a scratch folder, read, updated and read again with the real
interface, and compared with the definitions of the COOLEST standard (its own profile evaluations) in the mirrored frame.
"""
import contextlib
import copy
import io
import itertools
import json
import os
import shutil
import tempfile
import types

import numpy as np
from astropy.io import fits
from coolest.api.profiles import light as clight
from coolest.api.profiles import mass as cmass
from coolest.template.classes.parameter import DefinitionRange, PointEstimate
from coolest.template.json import JSONSerializer
from coolest.template.lazy import *  # noqa: F401,F403
from coolest.template.standard import COOLEST

from lenstronomy.LensModel.lens_model import LensModel
from lenstronomy.LightModel.light_model import LightModel as LModel
from lenstronomy.PointSource.point_source import PointSource
from lenstronomy.Data.imaging_data import ImageData
from lenstronomy.Data.psf import PSF as LPSF
from lenstronomy.Sampling.parameters import Param
from lenstronomy.Util import class_creator
from lenstronomy.Util import coolest_read_util as read
from lenstronomy.Util import coolest_update_util as upd
from lenstronomy.Util.coolest_interface import create_kwargs_mcmc_from_chain_list, create_lenstronomy_from_coolest, update_coolest_from_lenstronomy

ZL, ZS = 0.5, 2.0
X, Y = np.meshgrid(np.array([-1.3, -0.4, 0.25, 0.9]), np.array([-1.1, -0.35, 0.3, 1.2]))
X, Y = X.ravel(), Y.ravel()
FINE = np.arange(-90, 90.1, 7.5)
Q = (1.0, 0.9, 0.6, 0.35)


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


class Folder:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="p30-")
        self.n = 0
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def path(self, name=None):
        self.n += 1
        return os.path.join(self.d, name or "t%d" % self.n)

    def dump(self, obj, mode="simple"):
        p = self.path()
        s = JSONSerializer(p, obj=copy.deepcopy(obj), check_external_files=False)
        s.dump_simple()
        if mode == "pickle":
            s.dump_jsonpickle()
        return p


def template(entities, pixels=None, noise=None, psf=None, pix=0.1, mode="MAP", cosmo=(70.0, 0.3)):
    pixels = pixels or PixelatedRegularGrid("obs.fits", field_of_view_x=[-0.5, 0.5], field_of_view_y=[-0.5, 0.5], num_pix_x=10, num_pix_y=10)
    noise = noise or NoiseMap(PixelatedRegularGrid("noise.fits", field_of_view_x=pixels.field_of_view_x, field_of_view_y=pixels.field_of_view_y, num_pix_x=pixels.num_pix_x, num_pix_y=pixels.num_pix_y))
    return COOLEST(mode, CoordinatesOrigin("00h11m20.244s", "-08d45m51.48s"), LensingEntityList(*entities), Observation(pixels=pixels, noise=noise), Instrument(pix, name="i", readout_noise=4, band="b", psf=psf or PixelatedPSF(PixelatedRegularGrid("psf.fits", field_of_view_x=[-0.15, 0.15], field_of_view_y=[-0.15, 0.15], num_pix_x=3, num_pix_y=3))), Cosmology(H0=cosmo[0], Om0=cosmo[1]))


def load(path, **kw):
    return quiet(create_lenstronomy_from_coolest, path, check_external_files=False, **kw)


def fill(profile, values, fixed=(), ranges=None):
    for k, v in values.items():
        if v is not None:
            profile.parameters[k].set_point_estimate(PointEstimate(v))
        if k in fixed:
            profile.parameters[k].fix()
        if ranges and k in ranges:
            profile.parameters[k].definition_range = DefinitionRange(*ranges[k])
    return profile


MASS = ("PEMD", "SIE", "ExternalShear", "ConvergenceSheet")
LIGHT = ("Sersic", "Shapelets", "LensedPS")
NAMES = dict(PEMD="EPL", SIE="SIE", ExternalShear="SHEAR", ConvergenceSheet="CONVERGENCE", Sersic="SERSIC_ELLIPSE", Shapelets="SHAPELETS", LensedPS="LENSED_POSITION")


def values_of(kind, i=0):
    """i-th set of COOLEST values of a profile"""
    q, phi = Q[i % 3 + 1], FINE[(5 * i + 3) % 25]
    c = dict(center_x=0.11 - 0.07 * i, center_y=-0.06 + 0.04 * i)
    if kind == "PEMD":
        return dict(theta_E=1.0 + 0.1 * i, gamma=1.8 + 0.15 * i, q=q, phi=phi, **c)
    if kind == "SIE":
        return dict(theta_E=0.8 + 0.1 * i, q=q, phi=phi, **c)
    if kind == "ExternalShear":
        return dict(gamma_ext=0.03 + 0.02 * i, phi_ext=phi)
    if kind == "ConvergenceSheet":
        return dict(kappa_s=-0.05 + 0.04 * i)
    if kind == "Sersic":
        return dict(I_eff=2.0 + i, theta_eff=0.4 + 0.1 * i, n=1.0 + i, q=q, phi=phi, **c)
    if kind == "Shapelets":
        n = i % 3 + 1
        return dict(n_max=n, beta=0.2 + 0.05 * i, amps=[1.0 + 0.3 * j - 0.1 * i * j for j in range((n + 1) * (n + 2) // 2)], **c)
    return dict(ra_list=[0.9, -0.8 - 0.1 * i, 0.1][: 2 + i % 2], dec_list=[0.2, -0.3, 0.7][: 2 + i % 2], amps=[3.0 + i, 2.0, 1.5][: 2 + i % 2])


def entities_for(kind, fields=False):
    if kind in ("ExternalShear", "ConvergenceSheet"):
        return [MassField("f", ZL, mass_model=MassModel(kind)), Galaxy("s", ZS, light_model=LightModel("Sersic"))]
    if kind in ("PEMD", "SIE"):
        return [Galaxy("l", ZL, light_model=LightModel(), mass_model=MassModel(kind)), Galaxy("s", ZS, light_model=LightModel("Sersic"), mass_model=MassModel())]
    return [Galaxy("l", ZL, light_model=LightModel(), mass_model=MassModel("SIE")), Galaxy("s", ZS, light_model=LightModel(kind), mass_model=MassModel())]


def profile_in(ents, kind):
    for e in ents:
        for m in list(e.mass_model) + (list(e.light_model) if e.type == "Galaxy" else []):
            if m.type == kind:
                return m


def fold(phi):
    phi = (np.asarray(phi, float) + 90) % 180 - 90
    return np.where(phi == -90, 90.0, phi)


def angle_same(rec, key, a, b, tol, what):
    d = (np.asarray(a, float) - np.asarray(b, float) + 90) % 180 - 90
    rec.true(key, np.all(np.abs(d) < tol), "%s: orientation %s instead of %s" % (what, a, b))


def check_physics(rec, key, kind, v, name, kw, what, tol=1e-9):
    """the lenstronomy component and the COOLEST profile are the same field, with the x-axis mirrored"""
    v = {k: x for k, x in v.items()}
    if kind in MASS:
        lm = LensModel([name])
        ax, ay = lm.alpha(-X, Y, [kw])
        if kind == "SIE":
            v["gamma"] = 2.0
            tol = 1e-4
        c = dict(PEMD=cmass.PEMD, SIE=cmass.PEMD, ExternalShear=cmass.ExternalShear, ConvergenceSheet=cmass.ConvergenceSheet)[kind]()
        cx, cy = c.deflection(X, Y, **v)
        rec.same(key + "-deflection", np.array([-ax, ay]), np.array([cx, cy]), tol, tol, what=what)
        rec.same(key + "-convergence", lm.kappa(-X, Y, [kw]), c.convergence(X, Y, **v), 10 * tol, 10 * tol, what=what)
    elif kind == "Sersic":
        got = LModel([name]).surface_brightness(-X, Y, [kw])
        # the normalisation b_n of the standard is approximate
        tol = 2e-3
        rec.same(key + "-light", got, clight.Sersic().evaluate_surface_brightness(X, Y, **v), tol, 1e-6, what=what)
        # elliptical coordinates exactly: points on one isophote of the standard
        t = np.linspace(0, 2 * np.pi, 9)[:-1]
        p = np.deg2rad(v["phi"])
        u, w = v["theta_eff"] / np.sqrt(v["q"]) * np.cos(t), v["theta_eff"] * np.sqrt(v["q"]) * np.sin(t)
        px = v["center_x"] - u * np.sin(p) - w * np.cos(p)
        py = v["center_y"] + u * np.cos(p) - w * np.sin(p)
        rec.same(key + "-isophote", LModel([name]).surface_brightness(-px, py, [kw]), np.full(8, v["I_eff"]), 1e-8, 1e-9, what=what)
    elif kind == "Shapelets":
        got = LModel([name]).surface_brightness(-X, Y, [dict(kw, amp=np.array(kw["amp"]))])
        want = LModel(["SHAPELETS"]).surface_brightness(X, Y, [dict(amp=np.array(v["amps"]), n_max=v["n_max"], beta=v["beta"], center_x=v["center_x"], center_y=v["center_y"])])
        rec.same(key + "-light", got, want, 1e-9, 1e-10, what=what)
    else:
        rec.same(key + "-ra", kw["ra_image"], -np.array(v["ra_list"]), 1e-12, 1e-12, what=what)
        rec.same(key + "-dec", kw["dec_image"], v["dec_list"], 1e-12, 1e-12, what=what)
        rec.same(key + "-amp", kw["point_amp"], v["amps"], 1e-12, 1e-12, what=what)


def part(kind):
    return "lens" if kind in MASS else "ps" if kind == "LensedPS" else "source"


def params_of(out, kind):
    k = dict(lens="lens_model", source="source_model", ps="point_source_model")[part(kind)]
    return dict(zip(("init", "sigma", "fixed", "lower", "upper"), out["kwargs_params"][k]))


# ----- conversions --------------------------------------------------------------------------------------------------------
def conv_case(rec, tier):
    for phi in np.arange(-90, 90.01, 2.5 if tier == "thorough" else 7.5):
        a = read.degree_coolest_to_radian_lenstronomy(phi)
        rec.true("angle-range", 0 <= a <= np.pi, "%s -> %s" % (phi, a))
        angle_same(rec, "angle", np.rad2deg(a), 90 - phi, 1e-9, "phi=%s" % phi)
        back = upd.radian_lenstronomy_to_degree_coolest(a)
        rec.true("angle-fold", -90 < back <= 90, "%s -> %s" % (phi, back))
        angle_same(rec, "angle-back", back, phi, 1e-9, "phi=%s" % phi)
        for q in Q:
            e1, e2 = read.qphi_coolest_to_e1e2_lenstronomy(q, phi)
            rec.same("ellipticity", [e1, e2], [(1 - q) / (1 + q) * -np.cos(2 * np.deg2rad(phi)), (1 - q) / (1 + q) * np.sin(2 * np.deg2rad(phi))], 1e-9, 1e-12, what="q=%s phi=%s" % (q, phi))
            q2, p2 = upd.e1e2_lenstronomy_to_qphi_coolest(e1, e2)
            rec.same("axis-ratio-back", q2, q, 1e-9, 1e-9, what="q=%s phi=%s" % (q, phi))
            if q < 1:
                angle_same(rec, "ellipticity-back", p2, phi, 1e-6, "q=%s phi=%s" % (q, phi))
        for g in (0.0, 0.02, 0.4, 1.0):
            g1, g2 = read.gamma_phi_coolest_to_g1_g2_lenstronomy(g, phi)
            rec.same("shear", [g1, g2], [-g * np.cos(2 * np.deg2rad(phi)), g * np.sin(2 * np.deg2rad(phi))], 1e-9, 1e-12, what="g=%s phi=%s" % (g, phi))
            h, p = upd.g1g2_lenstronomy_to_gamma_phi_coolest(g1, g2)
            rec.same("shear-back", h, g, 1e-9, 1e-12, what="g=%s phi=%s" % (g, phi))
            h2, p2 = upd.g1g2_lenstronomy_to_gamma_phi(g1, g2)
            rec.same("shear-back-unfolded", h2, g, 1e-9, 1e-12, what="g=%s phi=%s" % (g, phi))
            if g:
                angle_same(rec, "shear-angle-back", p, phi, 1e-6, "g=%s phi=%s" % (g, phi))
                angle_same(rec, "shear-angle-unfolded", p2, phi, 1e-6, "g=%s phi=%s" % (g, phi))
        rec.trans(1)
    arr = np.arange(-270, 270.1, 7.5)
    for v in arr:
        f = upd.folding_coolest(float(v))
        if -270 < v <= 270:
            rec.same("fold", f, fold(v), 0, 1e-9, what=str(v))
    a2 = arr[1:].copy()
    rec.same("fold-array", upd.folding_coolest(a2.copy()), fold(a2), 0, 1e-9, what="array")
    for f, n in ((read.qphi_coolest_to_e1e2_lenstronomy, 2), (read.gamma_phi_coolest_to_g1_g2_lenstronomy, 2)):
        for v in itertools.product((None, 0.5), repeat=2):
            if None in v:
                rec.true("missing", tuple(f(*v)) == (None, None), "%s" % (v,))
    for v in itertools.product((None, 0.2), (None, 0.9), (None, -90.0), (None, 90.0)):
        e = read.ellibounds_coolest_to_lenstronomy(*v)
        s = read.shearbounds_coolest_to_lenstronomy(*v)
        if None in v:
            rec.true("missing-bounds", tuple(e) == (None,) * 4 and tuple(s) == (None,) * 4, "%s" % (v,))
        else:
            m = 0.8 / 1.2
            rec.same("ellipticity-bounds", e, [-m, m, -m, m], 1e-12, 1e-12)
            rec.same("shear-bounds", s, [-0.9, 0.9, -0.9, 0.9], 1e-12, 1e-12)
    # bounds contain every ellipticity and shear of the range
    for lo in (0.2, 0.5, 0.9):
        a, b, c, d = read.ellibounds_coolest_to_lenstronomy(lo, 1.0, -90.0, 90.0)
        for q in (lo, (1 + lo) / 2, 1.0):
            for phi in FINE:
                e1, e2 = read.qphi_coolest_to_e1e2_lenstronomy(q, phi)
                rec.true("ellipticity-inside", a - 1e-12 <= e1 <= b + 1e-12 and c - 1e-12 <= e2 <= d + 1e-12, "q=%s phi=%s range from %s" % (q, phi, lo))
    for n in range(0, 6):
        m = (n + 1) * (n + 2) // 2
        amps = [1.0 + 0.37 * j * (-1) ** j for j in range(m)]
        v = read.shapelet_amp_coolest_to_lenstronomy(list(amps))
        rec.same("shapelet-amps-back", upd.shapelet_amp_lenstronomy_to_coolest(list(v)), amps, 0, 0, what="n=%d" % n)
        rec.same("shapelet-amps", LModel(["SHAPELETS"]).surface_brightness(-X, Y, [dict(amp=np.array(v), n_max=n, beta=0.4, center_x=-0.1, center_y=0.05)]), LModel(["SHAPELETS"]).surface_brightness(X, Y, [dict(amp=np.array(amps), n_max=n, beta=0.4, center_x=0.1, center_y=0.05)]), 1e-9, 1e-11, what="n=%d" % n)
    rec.true("shapelet-none", read.shapelet_amp_coolest_to_lenstronomy(None) is None and upd.shapelet_amp_lenstronomy_to_coolest(None) is None, "")
    rec.state("conversions")


# ----- one profile --------------------------------------------------------------------------------------------------------
def read_case(rec, tier, kind, mode):
    lens = part(kind)
    with Folder() as f:
        # values
        sets = []
        if kind in ("PEMD", "SIE", "Sersic"):
            for phi, q, c in itertools.product(FINE if tier == "thorough" else FINE[::2], Q, ((0.0, 0.0), (0.13, -0.21), (-0.3, 0.07))):
                sets.append(dict(values_of(kind, 1), q=q, phi=float(phi), center_x=c[0], center_y=c[1]))
        elif kind == "ExternalShear":
            sets = [dict(gamma_ext=g, phi_ext=float(p)) for g in (0.0, 0.05, 0.4) for p in FINE]
        elif kind == "ConvergenceSheet":
            sets = [dict(kappa_s=k) for k in (-0.3, 0.0, 0.2)]
        elif kind == "Shapelets":
            sets = [values_of(kind, i) for i in range(6)]
        else:
            sets = [values_of(kind, i) for i in range(4)] + [dict(ra_list=[0.3], dec_list=[0.4], amps=[1.0])]
        if mode == "pickle":
            sets = sets[:: max(1, len(sets) // 6)]
        for v in sets:
            ents = entities_for(kind)
            fill(profile_in(ents, kind), v)
            p = f.dump(template(ents), mode)
            for epl in (True, False) if kind == "PEMD" else (True,):
                out = load(p, use_epl=epl)
                name = out["kwargs_model"][dict(lens="lens_model_list", source="source_light_model_list", ps="point_source_model_list")[lens]]
                want = [NAMES[kind]] if epl else ["PEMD"]
                rec.true("name", name == want, "%s read as %s" % (kind, name))
                kw = out["kwargs_result"]["kwargs_" + lens]
                rec.true("count", len(kw) == 1, "%s" % kw)
                check_physics(rec, "value", kind, v, NAMES[kind], kw[0], "%s" % v)
                ini = params_of(out, kind)["init"][0]
                rec.true("initial", set(ini) == set(kw[0]) and all(np.all(np.asarray(ini[k]) == np.asarray(kw[0][k])) for k in ini), "initial values %s for the estimate %s" % (ini, kw[0]))
                # handing the result back and reading it again gives the same component
                files = sorted(os.listdir(f.d))
                before = open(p + ".json").read()
                res = copy.deepcopy(out["kwargs_result"])
                if kind not in LIGHT[:2]:
                    res["kwargs_source"] = [dict(amp=1.0, R_sersic=0.5, n_sersic=1.0, e1=0.1, e2=0.0, center_x=0.0, center_y=0.0)]
                if kind in LIGHT:
                    res["kwargs_lens"] = [dict(theta_E=1.0, e1=0.1, e2=0.0, center_x=0.0, center_y=0.0)]
                keep = copy.deepcopy(res)
                quiet(update_coolest_from_lenstronomy, p, res, check_external_files=False)
                rec.unchanged("arguments", keep, res, "arguments of the update")
                rec.true("input-kept", open(p + ".json").read() == before, "the template that was read is overwritten")
                rec.true("files", sorted(os.listdir(f.d)) == sorted(files + [os.path.basename(p) + "_update.json"]), "files of the update: %s" % sorted(os.listdir(f.d)))
                again = load(p + "_update", use_epl=epl)
                check_physics(rec, "again", kind, v, NAMES[kind], again["kwargs_result"]["kwargs_" + lens][0], "%s" % v)
                os.remove(p + "_update.json")
                rec.trans(1)
        rec.trace()
        rec.outcome((kind, mode, len(sets)))
        if mode == "simple":
            missing(rec, f, kind, tier)
        else:
            ranges(rec, f, kind, tier)
    rec.state("read %s %s" % (kind, mode))


def missing(rec, f, kind, tier):
    """every subset of values that are not given (orientation and axis ratio go together)"""
    base = values_of(kind, 1)
    keys = [k for k in base if not (kind == "LensedPS" and k != "amps")]
    if kind == "LensedPS":
        return
    for drop in itertools.chain.from_iterable(itertools.combinations(keys, r) for r in range(1, len(keys) + 1)):
        if len(drop) > 3 and tier != "thorough" and len(drop) < len(keys):
            continue
        v = dict(base, **{k: None for k in drop})
        ents = entities_for(kind)
        fill(profile_in(ents, kind), v)
        if "amps" in drop:
            profile_in(ents, kind).parameters["amps"].point_estimate = PointEstimate(None)
        out = load(f.dump(template(ents)))
        kw = out["kwargs_result"]["kwargs_" + part(kind)][0]
        ini = params_of(out, kind)
        ref = load_ref(f, kind, base)
        mapped = dict(theta_E=["theta_E"], gamma=["gamma"], q=["e1", "e2"], phi=["e1", "e2"], center_x=["center_x"], center_y=["center_y"], gamma_ext=["gamma1", "gamma2"], phi_ext=["gamma1", "gamma2"], kappa_s=["kappa"], I_eff=["amp"], theta_eff=["R_sersic"], n=["n_sersic"], n_max=["n_max"], beta=["beta"], amps=["amp"])
        gone = set(sum((mapped[k] for k in drop), []))
        for k in kw:
            if k in gone:
                rec.true("missing-value", kw[k] is None, "%s is %s although %s are not given" % (k, kw[k], drop))
                rec.true("missing-initial", ini["init"][0][k] is not None, "no initial value of %s without %s" % (k, drop))
                lo, up = ini["lower"][0].get(k), ini["upper"][0].get(k)
                if lo is not None and up is not None:
                    rec.true("missing-inside", lo <= ini["init"][0][k] <= up, "initial %s=%s outside of %s..%s" % (k, ini["init"][0][k], lo, up))
            else:
                rec.same("missing-others", kw[k], ref[k], 0, 0, what="%s without %s" % (k, drop))
                rec.same("missing-others-initial", ini["init"][0][k], ref[k], 0, 0, what="%s without %s" % (k, drop))
        rec.trans(1)


def load_ref(f, kind, v):
    ents = entities_for(kind)
    fill(profile_in(ents, kind), v)
    return load(f.dump(template(ents)))["kwargs_result"]["kwargs_" + part(kind)][0]


def ranges(rec, f, kind, tier):
    """every subset of fixed parameters and every combination of ranges (templates of the python interface keep both)"""
    base = values_of(kind, 1)
    keys = [k for k in base if k not in ("amps", "n_max", "I_eff")]
    pair = dict(q="phi", phi="q", gamma_ext="phi_ext", phi_ext="gamma_ext")
    direct = dict(theta_E="theta_E", gamma="gamma", center_y="center_y", kappa_s="kappa", theta_eff="R_sersic", n="n_sersic", beta="beta", dec_list="dec_image", center_x="center_x", ra_list="ra_image")
    ref = load_ref(f, kind, base)
    subsets = list(itertools.chain.from_iterable(itertools.combinations(keys, r) for r in range(len(keys) + 1)))
    if len(subsets) > 40 and tier != "thorough":
        subsets = [s for s in subsets if len(s) <= 2 or len(s) >= len(keys) - 1]
    for fixed in subsets:
        ents = entities_for(kind)
        fill(profile_in(ents, kind), base, fixed=fixed)
        got = params_of(load(f.dump(template(ents), "pickle")), kind)["fixed"][0]
        want = {}
        for k in fixed:
            if k in direct:
                want[direct[k]] = ref[direct[k]]
            elif pair[k] in fixed:
                for c in ("e1", "e2") if k in ("q", "phi") else ("gamma1", "gamma2"):
                    want[c] = ref[c]
        if kind in ("ExternalShear", "ConvergenceSheet"):
            want.update(ra_0=0.0, dec_0=0.0)
        if kind == "Shapelets":
            want["n_max"] = base["n_max"]
        rec.true("fixed-names", set(got) == set(want), "fixing %s fixes %s instead of %s" % (fixed, sorted(got), sorted(want)))
        for k in set(got) & set(want):
            rec.same("fixed-values", got[k], want[k], 0, 0, what="%s with %s fixed" % (k, fixed))
        rec.trans(1)
    # ranges: the interval of the standard, seen in the frame of lenstronomy, is the interval of the parameter
    for k in keys:
        if k not in direct:
            continue
        v = base[k]
        arr = isinstance(v, list)
        for a, b in ((0.1, 0.4), (0.3, 0.2), (None, 0.3), (0.2, None), (None, None)):
            lo = None if a is None else ([x - a for x in v] if arr else v - a)
            up = None if b is None else ([x + b for x in v] if arr else v + b)
            ents = entities_for(kind)
            fill(profile_in(ents, kind), base)
            profile_in(ents, kind).parameters[k].definition_range = DefinitionRange(lo, up)
            par = params_of(load(f.dump(template(ents), "pickle")), kind)
            d = direct[k]
            glo, gup = par["lower"][0][d], par["upper"][0][d]
            if k in ("center_x", "ra_list"):
                lo, up = (None if up is None else -np.asarray(up)), (None if lo is None else -np.asarray(lo))
            what = "range %s .. %s of %s" % (lo, up, k)
            if lo is not None:
                rec.same("range-lower", glo, lo, 1e-12, 1e-12, what=what)
            if up is not None:
                rec.same("range-upper", gup, up, 1e-12, 1e-12, what=what)
            rec.true("range-order", np.all(np.asarray(glo) <= np.asarray(par["init"][0][d])) and np.all(np.asarray(par["init"][0][d]) <= np.asarray(gup)), "%s: initial value %s outside of %s .. %s" % (what, par["init"][0][d], glo, gup))
            rec.trans(1)


# ----- compositions -------------------------------------------------------------------------------------------------------
def mixes(tier):
    """mass of the lens, fields, light of the lens, light of the source"""
    masses = [(), ("PEMD",), ("SIE", "PEMD"), ("PEMD", "SIE", "PEMD")]
    fields = [(), (("ExternalShear",),), (("ConvergenceSheet", "ExternalShear"),), (("ExternalShear",), ("ConvergenceSheet",))]
    llight = [(), ("Sersic",), ("Sersic", "Sersic")]
    slight = [("Sersic",), ("Shapelets", "Sersic"), ("LensedPS", "Sersic", "LensedPS"), ("LensedPS",)]
    for m in itertools.product(range(4), range(4), range(3), range(4)):
        if tier != "thorough" and (sum(m) + m[0] * m[3]) % 2:
            continue
        yield m, (masses[m[0]], fields[m[1]], llight[m[2]], slight[m[3]])


def build(mix):
    mass, fields, llight, slight = mix
    n = dict.fromkeys(NAMES, 0)
    vals = []

    def put(model):
        for p in model:
            v = values_of(p.type, n[p.type])
            n[p.type] += 1
            fill(p, v)
            vals.append((p.type, v))

    lens = Galaxy("lens", ZL, light_model=LightModel(*llight), mass_model=MassModel(*mass))
    src = Galaxy("source", ZS, light_model=LightModel(*slight), mass_model=MassModel())
    fl = [MassField("field%d" % i, ZL, mass_model=MassModel(*x)) for i, x in enumerate(fields)]
    for g in fl:
        put(g.mass_model)
    put(lens.mass_model)
    put(lens.light_model)
    put(src.light_model)
    return lens, src, fl


def listed(ents):
    """profiles of the lists of lenstronomy in the order of the template"""
    out = dict(lens=[], lens_light=[], source=[], ps=[])
    for e in ents:
        for p in e.mass_model if e.redshift < ZS else []:
            out["lens"].append(p)
        if e.type == "Galaxy":
            for p in e.light_model:
                out["lens_light" if e.redshift == ZL else "ps" if p.type == "LensedPS" else "source"].append(p)
    return out


def estimate(p):
    return {k: x.point_estimate.value for k, x in p.parameters.items()}


LISTS = dict(lens="lens_model_list", lens_light="lens_light_model_list", source="source_light_model_list", ps="point_source_model_list")
PARS = dict(lens="lens_model", lens_light="lens_light_model", source="source_model", ps="point_source_model")


def check_out(rec, key, out, ents, what, tol=1e-9):
    want = listed(ents)
    for g, ps in want.items():
        rec.true(key + "-models", out["kwargs_model"][LISTS[g]] == [NAMES[p.type] for p in ps], "%s: %s instead of %s" % (what, out["kwargs_model"][LISTS[g]], [NAMES[p.type] for p in ps]))
        kws = out["kwargs_result"]["kwargs_" + g]
        rec.true(key + "-number", len(kws) == len(ps) and all(len(x) == len(ps) for x in out["kwargs_params"][PARS[g]]), "%s: %s" % (what, g))
        for p, kw in zip(ps, kws):
            check_physics(rec, key + "-" + g, p.type, estimate(p), NAMES[p.type], kw, what + " " + p.type, tol)
    rec.true(key + "-redshifts", out["redshift_list"] == [e.redshift for e in ents], "%s: %s" % (what, out["redshift_list"]))


def sample(p, rng):
    """a sample of the posterior of a profile in the parameters of lenstronomy, and its parameters in the standard"""
    v = {}
    for k, x in estimate(p).items():
        if k in ("phi", "phi_ext"):
            v[k] = float(fold(x + rng.normal() * 3.0))
        elif k == "n_max":
            v[k] = x
        elif isinstance(x, list):
            v[k] = [a + 0.05 * rng.normal() for a in x]
        elif k == "q":
            v[k] = min(0.95, max(0.2, x + 0.02 * rng.normal()))
        elif k == "gamma_ext":
            v[k] = x * np.exp(0.1 * rng.normal())
        else:
            v[k] = x + 0.02 * rng.normal()
    r = {}
    if "phi" in v:
        e = (1 - v["q"]) / (1 + v["q"])
        r.update(e1=-e * np.cos(2 * np.deg2rad(v["phi"])), e2=e * np.sin(2 * np.deg2rad(v["phi"])))
    if "phi_ext" in v:
        r.update(gamma1=-v["gamma_ext"] * np.cos(2 * np.deg2rad(v["phi_ext"])), gamma2=v["gamma_ext"] * np.sin(2 * np.deg2rad(v["phi_ext"])), ra_0=0.0, dec_0=0.0)
    for a, b in (("theta_E", "theta_E"), ("gamma", "gamma"), ("center_y", "center_y"), ("kappa_s", "kappa"), ("I_eff", "amp"), ("theta_eff", "R_sersic"), ("n", "n_sersic"), ("beta", "beta"), ("n_max", "n_max")):
        if a in v:
            r[b] = v[a]
    if "center_x" in v:
        r["center_x"] = -v["center_x"]
    if p.type == "Shapelets":
        amp, i = [], 0
        for n in range(v["n_max"] + 1):
            for k in range(n + 1):
                amp.append(v["amps"][i] * (-1) ** (n - k))
                i += 1
        r["amp"] = np.array(amp)
    if p.type == "LensedPS":
        r = dict(ra_image=-np.array(v["ra_list"]), dec_image=np.array(v["dec_list"]), point_amp=np.array(v["amps"]))
    return v, r


def stats(name, s, center):
    s = np.array(s, float)
    if name in ("phi", "phi_ext"):
        # orientations are periodic: statistics around the orientation of the model
        s = center + (s - center + 90) % 180 - 90
    return [np.mean(s, axis=0)] + list(np.quantile(s, [0.5, 0.16, 0.84], axis=0))


def check_posterior(rec, key, p, vs, center, what):
    for k, x in p.parameters.items():
        ps = x.posterior_stats
        got = [ps.mean, ps.median, ps.percentile_16th, ps.percentile_84th]
        want = stats(k, [v[k] for v in vs], center.get(k, 0.0))
        for g, w, n in zip(got, want, ("mean", "median", "16th percentile", "84th percentile")):
            if k in ("phi", "phi_ext"):
                angle_same(rec, key + "-angle", g, w, 1e-6, "%s of %s, %s" % (n, k, what))
                rec.true(key + "-angle-range", -90 - 1e-9 <= g <= 90 + 1e-9, "%s of %s is %s, %s" % (n, k, g, what))
            else:
                rec.same(key + "-" + k, g, w, 1e-9, 1e-10, what="%s of %s, %s" % (n, k, what))


def mix_case(rec, tier, m, mix):
    with Folder() as f:
        lens, src, fl = build(mix)
        orders = list(itertools.permutations([lens, src] + fl))
        if tier != "thorough":
            orders = orders[:6] + orders[-2:] if len(orders) > 8 else orders
        for o in orders:
            ents = copy.deepcopy(list(o))
            t = template(ents)
            p = f.dump(t)
            out = load(p)
            what = "order %s" % [e.name for e in ents]
            check_out(rec, "read", out, ents, what)
            rec.same("cosmology", [out["Cosmo"].H0.value, out["Cosmo"].Om0], [70.0, 0.3], 0, 0)
            # samples and results written back
            rng = np.random.RandomState(3)
            groups = listed(ents)
            new = {g: [sample(x, rng) for x in ps] for g, ps in groups.items()}
            res = {"kwargs_" + g: [r for _, r in x] for g, x in new.items()}
            chain = [{g: [sample(x, rng) for x in ps] for g, ps in groups.items()} for _ in range(7)]
            mc = {"args_" + g: [[r for _, r in c[g]] for c in chain] for g in groups}
            keep = copy.deepcopy((res, mc))
            for with_mc in (False, True):
                quiet(update_coolest_from_lenstronomy, p, res, kwargs_mcmc=mc if with_mc else None, ending="_u%d" % with_mc, check_external_files=False)
                rec.unchanged("arguments", keep, (res, mc), "results passed to the update")
                c = quiet(JSONSerializer(p + "_u%d" % with_mc, check_external_files=False).load)
                rec.true("written-order", [(e.type, e.name, e.redshift) for e in c.lensing_entities] == [(e.type, e.name, e.redshift) for e in ents], what)
                for g, ps in listed(c.lensing_entities).items():
                    for i, x in enumerate(ps):
                        v = new[g][i][0]
                        for k, w in estimate(x).items():
                            if k in ("phi", "phi_ext"):
                                angle_same(rec, "written-angle", w, v[k], 1e-6, "%s %s" % (what, x.type))
                            else:
                                rec.same("written-" + k, w, v[k], 1e-9, 1e-10, what="%s %s" % (what, x.type))
                        if with_mc:
                            check_posterior(rec, "posterior", x, [cc[g][i][0] for cc in chain], estimate(groups[g][i]), "%s %s %d" % (what, x.type, i))
                        else:
                            rec.true("no-posterior", all(y.posterior_stats.mean is None for y in x.parameters.values()), "posterior without samples")
                again = load(p + "_u%d" % with_mc)
                check_out(rec, "again", again, c.lensing_entities, what, 1e-8)
            rec.trans(2)
            rec.trace()
    rec.state("mix %s" % (m,))
    rec.outcome(("mix", tuple(len(x) for x in mix)))


# ----- posteriors of orientations -------------------------------------------------------------------------------------------
def angles_case(rec, tier):
    with Folder() as f:
        for kind in ("PEMD", "SIE", "Sersic", "ExternalShear"):
            name = "phi_ext" if kind == "ExternalShear" else "phi"
            for phi in FINE:
                for spread in (1.0, 12.0):
                    ents = entities_for(kind)
                    fill(profile_in(ents, kind), dict(values_of(kind, 1), **{name: float(phi)}))
                    for e in ents:
                        for x in list(e.mass_model) + (list(e.light_model) if e.type == "Galaxy" else []):
                            if x.type != kind:
                                fill(x, values_of(x.type, 0))
                    p = f.dump(template(ents))
                    groups = listed(ents)
                    rng = np.random.RandomState(1)
                    devs = np.array([-1.0, -0.6, -0.1, 0.0, 0.2, 0.5, 1.0]) * spread
                    chain = []
                    for d in devs:
                        row = {}
                        for g, ps in groups.items():
                            row[g] = []
                            for x in ps:
                                e = copy.deepcopy(x)
                                if x.type == kind:
                                    e.parameters[name].point_estimate = PointEstimate(float(fold(phi + d)))
                                row[g].append(sample(e, types.SimpleNamespace(normal=lambda: 0.0)))
                        chain.append(row)
                    res = {"kwargs_" + g: [r for _, r in chain[3][g]] for g in groups}
                    mc = {"args_" + g: [[r for _, r in c[g]] for c in chain] for g in groups}
                    quiet(update_coolest_from_lenstronomy, p, res, kwargs_mcmc=mc, check_external_files=False)
                    c = quiet(JSONSerializer(p + "_update", check_external_files=False).load)
                    x = profile_in(c.lensing_entities, kind)
                    g = dict(lens="lens", source="source")[part(kind)]
                    check_posterior(rec, "orientation", x, [r[g][0][0] for r in chain], {name: float(phi)}, "%s around %s, spread %s" % (kind, phi, spread))
                    os.remove(p + ".json")
                    os.remove(p + "_update.json")
                    rec.trans(1)
    rec.state("angles")


# ----- data ---------------------------------------------------------------------------------------------------------------
def data_case(rec, tier):
    rng = np.random.RandomState(5)
    for n, pix, off in itertools.product((4, 7), (0.05, 0.08, 0.1, 0.3), ((0.0, 0.0), (0.4, -0.25))):
        for ratio in range(1, 8):
            for present in (True, False):
                with Folder() as f:
                    fov = [[-n * pix / 2 + o, n * pix / 2 + o] for o in off]
                    img, noise, k = rng.normal(size=(n, n)), 1 + rng.uniform(size=(n, n)), rng.uniform(size=(2 * ratio + 1, 2 * ratio + 1))
                    if present:
                        for name, a in (("obs", img), ("noise", noise), ("psf", k)):
                            fits.writeto(os.path.join(f.d, name + ".fits"), a)
                    h = (2 * ratio + 1) * (pix / ratio) / 2
                    grid = PixelatedRegularGrid("obs.fits", field_of_view_x=fov[0], field_of_view_y=fov[1], num_pix_x=n, num_pix_y=n)
                    nm = NoiseMap(PixelatedRegularGrid("noise.fits", field_of_view_x=fov[0], field_of_view_y=fov[1], num_pix_x=n, num_pix_y=n))
                    psf = PixelatedPSF(PixelatedRegularGrid("psf.fits", field_of_view_x=[-h, h], field_of_view_y=[-h, h], num_pix_x=2 * ratio + 1, num_pix_y=2 * ratio + 1))
                    lens, src, fl = build((("SIE",), (), (), ("Sersic",)))
                    p = f.dump(template([lens, src], pixels=grid, noise=nm, psf=psf, pix=pix))
                    cwd = os.getcwd()
                    for where in ("there", "elsewhere"):
                        try:
                            os.chdir(f.d if where == "there" else "/")
                            out = load(p)
                        finally:
                            os.chdir(cwd)
                        what = "n=%d pix=%s ratio=%d from %s" % (n, pix, ratio, where)
                        d, s = out["kwargs_data"], out["kwargs_psf"]
                        if present:
                            for g, w, nme in ((d["image_data"], img, "image"), (d["noise_map"], noise, "noise"), (s["kernel_point_source"], k, "kernel")):
                                rec.true("file-read", isinstance(g, np.ndarray), "%s: %s is %s" % (what, nme, g if isinstance(g, str) else type(g)))
                                if isinstance(g, np.ndarray):
                                    rec.same("file-content", g, w, 0, 0, what=what + " " + nme)
                        else:
                            rec.true("file-name", (d["image_data"], d["noise_map"], s["kernel_point_source"]) == ("obs.fits", "noise.fits", "psf.fits"), what)
                        rec.same("supersampling", s["point_source_supersampling_factor"], ratio, 0, 0, what=what)
                        dd = dict(d, image_data=img, noise_map=noise)
                        I = ImageData(**dd)
                        gx, gy = I.pixel_coordinates
                        j, i = np.meshgrid(np.arange(n), np.arange(n))
                        rec.same("pixel-x", -gx, fov[0][0] + (j + 0.5) * pix, 1e-9, 1e-9, what=what)
                        rec.same("pixel-y", gy, fov[1][0] + (i + 0.5) * pix, 1e-9, 1e-9, what=what)
                        LPSF(**dict(s, kernel_point_source=k))
                        rec.trans(1)
                    if present and where == "elsewhere":
                        # a template that keeps python objects
                        p2 = f.dump(template([lens, src], pixels=grid, noise=nm, psf=psf, pix=pix), "pickle")
                        out = load(p2)
                        rec.same("pickle-supersampling", out["kwargs_psf"]["point_source_supersampling_factor"], ratio, 0, 0, what=what)
        rec.trace()
    rec.state("data")


def refuse_case(rec, tier):
    """what the interface cannot describe is refused, not read as something else"""
    with Folder() as f:
        good = build((("SIE",), (("ExternalShear",),), ("Sersic",), ("Sersic",)))
        lens, src, fl = good
        bad = dict(
            mass=[Galaxy("l", ZL, light_model=LightModel(), mass_model=MassModel("NFW")), src],
            lens_light=[Galaxy("l", ZL, light_model=LightModel("Chameleon"), mass_model=MassModel("SIE")), src],
            source_light=[lens, Galaxy("s", ZS, light_model=LightModel("Uniform"), mass_model=MassModel())],
            planes=[lens, Galaxy("m", 1.0, light_model=LightModel("Sersic"), mass_model=MassModel("SIE")), src],
            field=[lens, src, MassField("f", ZL, mass_model=MassModel("PEMD"))],
        )
        for k, ents in bad.items():
            p = f.dump(template(copy.deepcopy(ents)))
            rec.raises("refused-" + k, lambda: load(p), NotImplementedError, "template with unsupported " + k)
            if k in ("mass", "lens_light", "planes"):
                rec.raises("update-refused-" + k, lambda: quiet(update_coolest_from_lenstronomy, p, dict(kwargs_lens=[{}] * 4, kwargs_source=[dict(amp=1, R_sersic=1, n_sersic=1, e1=0, e2=0, center_x=0, center_y=0)] * 4, kwargs_lens_light=[{}] * 4, kwargs_ps=[{}] * 4), check_external_files=False), (NotImplementedError, KeyError), "update with unsupported " + k)
            rec.trans(1)
        p = f.dump(template(copy.deepcopy([lens, src] + fl), noise=UniformGaussianNoise(std_dev=0.1)))
        rec.raises("refused-noise", lambda: load(p), NotImplementedError, "noise")
        p = f.dump(template(copy.deepcopy([lens, src] + fl), psf=GaussianPSF(fwhm=0.8)))
        rec.raises("refused-psf", lambda: load(p), NotImplementedError, "psf")
        # modes
        for mode in ("MOCK", "MAP"):
            p = f.dump(template(copy.deepcopy([lens, src] + fl), mode=mode))
            out = load(p)
            quiet(update_coolest_from_lenstronomy, p, copy.deepcopy(out["kwargs_result"]), check_external_files=False)
            c = quiet(JSONSerializer(p + "_update", check_external_files=False).load)
            rec.true("mode", c.mode == "MAP", "mode %s after the update of a %s" % (c.mode, mode))
            a, b = json.load(open(p + ".json")), json.load(open(p + "_update.json"))
            for k in a:
                if k not in ("lensing_entities", "mode"):
                    rec.true("kept-" + k, a[k] == b[k], "%s changed by the update" % k)
        for h, o in itertools.product((60.0, 73.2), (0.2, 0.35)):
            out = load(f.dump(template(copy.deepcopy([lens, src] + fl), cosmo=(h, o))))
            rec.same("cosmology", [out["Cosmo"].H0.value, out["Cosmo"].Om0], [h, o], 0, 0)
    rec.state("refuse")


# ----- chains -------------------------------------------------------------------------------------------------------------
def chain_case(rec, tier):
    """samples of a chain above the threshold, with their linear amplitudes"""
    from lenstronomy.Util import param_util  # noqa: F401

    rng = np.random.RandomState(2)
    n = 20
    with Folder() as f:
        for mix in ((("SIE",), (("ExternalShear",),), ("Sersic",), ("Sersic",)), (("PEMD",), (), (), ("LensedPS", "Sersic"))):
            lens, src, fl = build(mix)
            out = load(f.dump(template([lens, src] + fl)))
            kd = dict(image_data=np.zeros((n, n)), background_rms=0.1, exposure_time=100.0, ra_at_xy_0=(n - 1) / 2 * 0.1, dec_at_xy_0=-(n - 1) / 2 * 0.1, transform_pix2angle=np.array([[-0.1, 0], [0, 0.1]]))
            kp, kn = dict(psf_type="GAUSSIAN", fwhm=0.2), dict(supersampling_factor=1)
            m, par = out["kwargs_model"], out["kwargs_params"]
            im = class_creator.create_image_model(kd, kp, kn, m)
            kd["image_data"] = im.image(**copy.deepcopy(out["kwargs_result"])) + 0.01 * rng.normal(size=(n, n))
            fx = [par[k][2] for k in ("lens_model", "source_model", "lens_light_model", "point_source_model")]
            P = Param(copy.deepcopy(m), *copy.deepcopy(fx), kwargs_lens_init=copy.deepcopy(par["lens_model"][0]))
            base = P.kwargs2args(**copy.deepcopy(out["kwargs_result"]))
            pos = [np.array(base) * (1 + 0.01 * rng.normal(size=len(base))) for _ in range(5)]
            for like in itertools.product((-10.0, -5.0), repeat=5 if tier == "thorough" else 4):
                for thr in (None, -20.0, -7.0, -10.0, -5.0, 0.0):
                    pp = pos[: len(like)]
                    other = ["PSO", [pos[0]] * 2, [], [-1.0, -1.0]]
                    for idx, lst in ((-1, [other, ["EMCEE", pp, [], list(like)]]), (0, [["EMCEE", pp, [], list(like)], other])):
                        got = quiet(create_kwargs_mcmc_from_chain_list, lst, copy.deepcopy(m), copy.deepcopy(par), kd, kp, kn, {}, idx_chain=idx, likelihood_threshold=thr)
                        use = [p for p, l in zip(pp, like) if thr is None or l >= thr]
                        if not use:
                            continue  # nothing above the threshold: there is no posterior to describe
                        what = "likelihoods %s threshold %s" % (like, thr)
                        rec.same("selected", [len(got[k]) for k in ("args_lens", "args_source", "args_lens_light", "args_ps")], [len(use)] * 4, 0, 0, what=what)
                        if len(got["args_lens"]) != len(use):
                            continue
                        for i, u in enumerate(use):
                            kw = P.args2kwargs(u)
                            kw.pop("kwargs_tracer_source", None)
                            im2 = class_creator.create_image_model(kd, kp, kn, m)
                            im2.image_linear_solve(**kw)
                            for g in ("lens", "source", "lens_light", "ps"):
                                for a, b in zip(got["args_" + g][i], kw["kwargs_" + g]):
                                    for k in b:
                                        rec.same("samples", a[k], b[k], 1e-9, 1e-11, what="%s sample %d %s" % (what, i, k))
                        if use and tier == "thorough" or (use and like == (-5.0,) * len(like)):
                            p = f.dump(template(copy.deepcopy([lens, src] + fl)))
                            quiet(update_coolest_from_lenstronomy, p, copy.deepcopy(out["kwargs_result"]), kwargs_mcmc=got, check_external_files=False)
                        rec.trans(1)
                        if thr is None and idx == -1 and tier != "thorough":
                            break
            rec.trace()
    rec.state("chain")


def cases(tier):
    out = ["conv", "angles", "data", "refuse", "chain"]
    out += ["read|%s|%s" % (k, m) for k in MASS + LIGHT for m in ("simple", "pickle")]
    out += ["mix|%d-%d-%d-%d" % m for m, _ in mixes(tier)]
    return out


def run_case(cid, tier, rec):
    p = cid.split("|")
    if p[0] == "read":
        read_case(rec, tier, p[1], p[2])
    elif p[0] == "mix":
        m = tuple(int(i) for i in p[1].split("-"))
        mix_case(rec, tier, m, dict(mixes("thorough"))[m])
    else:
        dict(conv=conv_case, angles=angles_case, data=data_case, refuse=refuse_case, chain=chain_case)[p[0]](rec, tier)
