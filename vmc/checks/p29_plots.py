"""P29: plots display the quantities of the model they are given, at their position on the sky.

Every plotting method is called on real matplotlib axes (Agg) for all frames, bands, options and ordered pairs of calls; the
arrays, extents, limits, lines, markers and texts found on the axes are compared with the quantities computed by hand.
"""
import copy
import itertools
import warnings

import matplotlib

matplotlib.use("Agg")
import matplotlib.pyplot as plt
import numpy as np

from lenstronomy.Data.imaging_data import ImageData
from lenstronomy.Data.psf import PSF
from astropy.cosmology import FlatLambdaCDM
from lenstronomy.ImSim.image_linear_solve import ImageLinearFit
from lenstronomy.ImSim.image_model import ImageModel
from lenstronomy.ImSim.MultiBand.single_band_multi_model import SingleBandMultiModel
from lenstronomy.LensModel.lens_model import LensModel
from lenstronomy.LightModel.light_model import LightModel
from lenstronomy.Plots import lens_plot, plot_util
from lenstronomy.Plots.chain_plot import plot_chain, plot_chain_list, plot_mcmc_behaviour, psf_iteration_compare
from lenstronomy.Plots.model_plot import ModelPlot
from lenstronomy.Plots.multi_patch_plot import MultiPatchPlot
from lenstronomy.Plots.tracer_plot import TracerPlot
from lenstronomy.PointSource.point_source import PointSource
from vmc.core import snap

warnings.filterwarnings("ignore")
np.seterr(all="ignore")
DP = 0.25


def rot(deg, flip):
    a = np.deg2rad(deg)
    m = np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])
    return m @ np.diag([-1.0, 1.0]) if flip else m


# name: (nx, ny, rotation, flip, centre)
FRAMES = {"plain": (12, 12, 0, False, (0.0, 0.0)), "turned": (12, 12, 30, False, (0.1, -0.05)), "east-left": (11, 11, 0, True, (0.0, 0.1)), "turned-flip": (12, 12, -50, True, (-0.1, 0.0))}
LENS = [dict(theta_E=0.8, gamma=2.1, e1=0.1, e2=-0.08, center_x=0.03, center_y=-0.02), dict(gamma1=0.04, gamma2=-0.03)]
MODEL = dict(lens_model_list=["EPL", "SHEAR"], source_light_model_list=["SERSIC", "SERSIC_ELLIPSE"], lens_light_model_list=["SERSIC"], point_source_model_list=["LENSED_POSITION"], index_source_light_model_list=[[0], [1]], index_lens_light_model_list=[[0], [0]])
PARAMS = dict(kwargs_lens=LENS, kwargs_source=[dict(amp=40.0, R_sersic=0.3, n_sersic=1.2, center_x=0.06, center_y=0.04), dict(amp=25.0, R_sersic=0.35, n_sersic=1.0, e1=0.1, e2=0.05, center_x=-0.04, center_y=0.05)], kwargs_lens_light=[dict(amp=20.0, R_sersic=0.5, n_sersic=2.0, center_x=0.03, center_y=-0.02)],
              kwargs_ps=[dict(ra_image=np.array([0.9, -0.62, 0.15]), dec_image=np.array([0.2, -0.4, 0.78]), point_amp=np.array([30.0, 20.0, 12.0]))])


def frame(name):
    nx, ny, deg, flip, c = FRAMES[name]
    t = rot(deg, flip) * DP
    ra0, dec0 = np.array(c) - t @ np.array([(nx - 1) / 2, (ny - 1) / 2])
    return nx, ny, t, ra0, dec0


def band(name, fwhm, scale=1.0):
    nx, ny, t, ra0, dec0 = frame(name)
    d = dict(image_data=np.ones((ny, nx)), background_rms=0.1, exposure_time=100.0, ra_at_xy_0=ra0, dec_at_xy_0=dec0, transform_pix2angle=t)
    psf = dict(psf_type="GAUSSIAN", fwhm=fwhm, pixel_size=DP, truncation=3)
    return [d, psf, dict(supersampling_factor=1)]


def scene(names):
    out = []
    for i, n in enumerate(names):
        b = band(n, 0.5 + 0.2 * i)
        im = ImageModel(ImageData(**b[0]), PSF(**b[1]), LensModel(MODEL["lens_model_list"]), LightModel([MODEL["source_light_model_list"][min(i, 1)]]), LightModel(MODEL["lens_light_model_list"]), PointSource(MODEL["point_source_model_list"]), kwargs_numerics=b[2])
        img = im.image(LENS, [PARAMS["kwargs_source"][min(i, 1)]], PARAMS["kwargs_lens_light"], PARAMS["kwargs_ps"])
        y, x = np.indices(img.shape)
        b[0]["image_data"] = img * (1 + 0.1 * i) + 0.2 * np.sin(1.3 * x + 0.7 * y + i) + 0.02 * x
        out.append(b)
    return out


def model_of(bands):
    m = copy.deepcopy(MODEL)
    m["index_source_light_model_list"] = [[min(i, 1)] for i in range(len(bands))]
    m["index_lens_light_model_list"] = [[0] for _ in bands]
    return m


class Reference(object):
    """the quantities of one band, computed by hand"""

    def __init__(self, bands, i, masks=None):
        self.bm = SingleBandMultiModel(copy.deepcopy(bands), model_of(bands), likelihood_mask_list=masks, band_index=i)
        p = copy.deepcopy(PARAMS)
        self.model, self.err, self.cov, par = self.bm.image_linear_solve(**p, inv_bool=True)
        p = copy.deepcopy(PARAMS)
        self.lens, self.source, self.light, self.ps = self.bm.update_linear_kwargs(par, p["kwargs_lens"], p["kwargs_source"], p["kwargs_lens_light"], p["kwargs_ps"])
        self.data = bands[i][0]["image_data"]
        self.t = bands[i][0]["transform_pix2angle"]
        self.o = np.array([bands[i][0]["ra_at_xy_0"], bands[i][0]["dec_at_xy_0"]])
        ny, nx = self.data.shape
        c, r = np.meshgrid(np.arange(nx), np.arange(ny))
        self.ra, self.dec = self.sky(c, r)
        self.lm = LensModel(MODEL["lens_model_list"])
        self.mask = np.ones_like(self.data) if masks is None else masks[i]

    def sky(self, c, r):
        return self.o[0] + self.t[0, 0] * c + self.t[0, 1] * r, self.o[1] + self.t[1, 0] * c + self.t[1, 1] * r

    def part(self, source, light, ps, unconvolved=False):
        return ImageModel.image(self.bm, self.lens, self.source, self.light, self.ps, unconvolved=unconvolved, source_add=source, lens_light_add=light, point_source_add=ps)

    def residuals(self):
        return (self.model - self.data) / np.sqrt(self.bm.Data.C_D_model(self.model) + np.abs(self.err)) * self.mask * -1

    def source_grid(self, n, dp, center=None):
        c, r = np.meshgrid(np.arange(n), np.arange(n))
        t = self.t * dp / DP
        if center is None:
            center = (self.source[0]["center_x"], self.source[0]["center_y"])
        h = (n - 1) / 2
        return center[0] + t[0, 0] * (c - h) + t[0, 1] * (r - h), center[1] + t[1, 0] * (c - h) + t[1, 1] * (r - h)

    def source_image(self, n, dp, center=None):
        x, y = self.source_grid(n, dp, center)
        lm = LightModel([MODEL["source_light_model_list"][0 if "e1" not in self.source[0] else 1]])
        return lm.surface_brightness(x, y, self.source) * dp**2


def new_ax():
    return plt.subplots(1, 1, figsize=(4, 4))[1]


def shown(ax):
    im = ax.images[0]
    a = np.ma.filled(np.ma.masked_invalid(np.ma.asarray(im.get_array(), float)), np.nan)
    ext = np.array(im.get_extent(), float)
    if im.origin == "upper":
        a = a[::-1]
    return a, ext, im.get_clim()


def raw(x):
    x = np.array(x, float)
    x[~np.isfinite(x)] = np.nan
    return x


def to_pix(ax, x, y):
    """axes coordinates -> pixel coordinates of the image shown"""
    a, e, _ = shown(ax)
    ny, nx = a.shape
    return (np.asarray(x) - e[0]) / (e[1] - e[0]) * nx - 0.5, (np.asarray(y) - e[2]) / (e[3] - e[2]) * ny - 0.5


def check_image(rec, key, ax, want, dp, what, rtol=1e-8, clim=None, atol=1e-9):
    a, e, lim = shown(ax)
    want = raw(want)
    rec.same(key + "-shape", a.shape, want.shape, 0, 0, what=what)
    if a.shape != want.shape:
        return
    rec.same(key, np.nan_to_num(a, nan=1e9), np.nan_to_num(want, nan=1e9), rtol, atol + 1e-9 * np.nanmax(np.abs(want), initial=0), what=what)
    ny, nx = a.shape
    rec.same(key + "-scale", [(e[1] - e[0]) / nx, (e[3] - e[2]) / ny], [dp, dp], 1e-9, 1e-9, what=what)
    if clim is not None and np.all(np.isfinite(clim)):
        rec.same(key + "-limits", lim, clim, 1e-9, 1e-9, what=what)


def title(ax):
    return [t.get_text() for t in ax.texts if len(t.get_text()) > 2 and '"' not in t.get_text()]


def check_decor(rec, key, ax, t, dp, what, text=None, bar=1.0):
    """title, scale bar and compass of a panel"""
    a, e, _ = shown(ax)
    ny, nx = a.shape
    texts = [x.get_text() for x in ax.texts]
    if text is not None:
        rec.true(key + "-title", text in texts, "%s: %s" % (what, texts))
    lines = [l for l in ax.lines if len(l.get_xdata()) == 2 and l.get_ydata()[0] == l.get_ydata()[1]]
    rec.true(key + "-scale-bar", any(abs(abs(l.get_xdata()[1] - l.get_xdata()[0]) - bar) < 1e-9 for l in lines), what)
    arrows = [p for p in ax.patches if type(p).__name__ == "FancyArrow"]
    rec.true(key + "-compass", len(arrows) == 2 and "N" in texts and "E" in texts, "%s: %s %s" % (what, len(arrows), texts))
    inv = np.linalg.inv(t)
    for name, v in (("E", inv @ [1.0, 0.0]), ("N", inv @ [0.0, 1.0])):
        v = v / np.hypot(*v)
        lab = [x for x in ax.texts if x.get_text() == name]
        if not lab:
            continue
        p = np.array(lab[0].get_position(), float)
        best = [w for w in arrows if np.allclose(np.array([w._dx, w._dy]) / np.hypot(w._dx, w._dy), v, atol=1e-6)]
        rec.true(key + "-compass-" + name, len(best) >= 1, "%s: %s expected %s" % (what, [(w._dx, w._dy) for w in arrows], v))
        for w in best[:1]:
            d = p - [w._x, w._y]
            rec.true(key + "-label-" + name, np.dot(d, v) > 0 and abs(d[0] * v[1] - d[1] * v[0]) < 1e-6 * max(nx, ny) * dp + 1e-9, "%s: label %s of the arrow at %s" % (what, p, (w._x, w._y)))
            rec.true(key + "-compass-inside", e[0] - dp <= w._x <= e[0] + (max(nx, ny) + 1) * dp and e[2] - dp <= w._y <= e[2] + (max(nx, ny) + 1) * dp, "%s: arrow at %s of %s" % (what, (w._x, w._y), e))


def markers(ax, kinds):
    out = []
    for l in ax.lines:
        if l.get_marker() in kinds:
            out += list(zip(np.atleast_1d(l.get_xdata()), np.atleast_1d(l.get_ydata())))
    return np.array(out, float).reshape(-1, 2)


def names_at(ax, names):
    d = {}
    for t in ax.texts:
        if t.get_text() in names:
            d[t.get_text()] = t.get_position()
    return d


def check_names(rec, key, ax, ref, want, names, what):
    """want: sky positions in order; those inside the frame are labelled"""
    ny, nx = shown(ax)[0].shape
    inv = np.linalg.inv(ref.t)
    got = names_at(ax, names)
    mark = markers(ax, "o")
    n_in = 0
    for nm, (ra, dec) in zip(names, want):
        c, r = inv @ (np.array([ra, dec]) - ref.o)
        inside = 1 < c < nx - 2 and 1 < r < ny - 2
        outside = c < -1 or r < -1 or c > nx or r > ny
        if inside:
            n_in += 1
            ok = nm in got
            rec.true(key + "-named", ok, "%s: %s not shown" % (what, nm))
            if ok:
                rec.same(key + "-position", to_pix(ax, *got[nm]), (c, r), 1e-7, 1e-7, what="%s %s" % (what, nm))
                rec.true(key + "-marked", len(mark) > 0 and np.min(np.hypot(*(mark - got[nm]).T)) < 1e-9, "%s %s" % (what, nm))
        elif outside:
            rec.true(key + "-outside", nm not in got, "%s: %s shown outside" % (what, nm))


_CURVES = {}


def curves():
    """critical curve and caustic of the scene, by root finding along rays (fine)"""
    if not _CURVES:
        lm = LensModel(MODEL["lens_model_list"])
        xs = []
        for phi in np.linspace(0, 2 * np.pi, 721)[:-1]:
            lo, hi = 0.3, 2.0
            f = lambda r: 1.0 / lm.magnification(0.03 + r * np.cos(phi), -0.02 + r * np.sin(phi), LENS)
            for _ in range(50):
                mid = (lo + hi) / 2
                if f(mid) < 0:
                    lo = mid
                else:
                    hi = mid
            xs.append((0.03 + lo * np.cos(phi), -0.02 + lo * np.sin(phi)))
        xs = np.array(xs)
        _CURVES["crit"] = xs
        _CURVES["caustic"] = np.array(lm.ray_shooting(xs[:, 0], xs[:, 1], LENS)).T
    return _CURVES["crit"], _CURVES["caustic"]


def spread(points, curve):
    """largest distance of the points to the curve, and of the curve to the points"""
    d = np.hypot(points[:, None, 0] - curve[None, :, 0], points[:, None, 1] - curve[None, :, 1])
    return d.min(1).max(), d.min(0).max()


def line_points(ax, colour):
    import matplotlib.colors as mc

    out = []
    for l in ax.lines:
        if mc.to_rgba(l.get_color()) == mc.to_rgba(colour) and len(np.atleast_1d(l.get_xdata())) > 4:
            out.append(np.array([l.get_xdata(), l.get_ydata()], float).T)
    return np.concatenate(out) if out else np.zeros((0, 2))


def check_curve(rec, key, ax, pts, sky, want, tol, what):
    if len(pts) < 5:
        rec.true(key, False, "%s: no curve" % what)
        return
    c, r = to_pix(ax, pts[:, 0], pts[:, 1])
    p = np.array(sky(c, r)).T
    a, b = spread(p, want)
    rec.true(key, a < tol and b < 3 * tol, "%s: curve is off by %.3f, %.3f" % (what, a, b))


LETTERS = list("ABCDEFGHIJKL")


def image_positions(ref):
    return list(zip(PARAMS["kwargs_ps"][0]["ra_image"], PARAMS["kwargs_ps"][0]["dec_image"]))


def panel(rec, ax, ref, text, what, src=None):
    """the array that belongs to the title of a panel"""
    k2 = lambda f: f(ref.ra.ravel(), ref.dec.ravel(), LENS).reshape(ref.ra.shape)
    table = {
        "Observed": lambda: np.log10(ref.data), "Reconstructed": lambda: np.log10(ref.model), "Normalized Residuals": ref.residuals,
        "Convergence": lambda: np.log10(k2(ref.lm.kappa)), "Magnification model": lambda: k2(ref.lm.magnification),
        "Lens light": lambda: np.log10(ref.part(False, True, False, True)), "Lens light convolved": lambda: np.log10(ref.part(False, True, False)),
        "Source light": lambda: np.log10(ref.part(True, False, False, True)), "Source light convolved": lambda: np.log10(ref.part(True, False, False)),
        "All components": lambda: np.log10(ref.part(True, True, False, True)), "All components convolved": lambda: np.log10(ref.part(True, True, True)),
        "Data": lambda: np.log10(ref.data), "Data - Point Source": lambda: np.log10(ref.data - ref.part(False, False, True)), "Data - Lens Light": lambda: np.log10(ref.data - ref.part(False, True, False)),
        "Data - Source Light": lambda: np.log10(ref.data - ref.part(True, False, False)), "Data - Source Light - Point Source": lambda: np.log10(ref.data - ref.part(True, False, True)),
        "Data - Lens Light - Point Source": lambda: np.log10(ref.data - ref.part(False, True, True)),
    }
    if text == "Reconstructed source":
        a, e, _ = shown(ax)
        dp = (e[1] - e[0]) / a.shape[1]
        check_image(rec, "source-panel", ax, np.log10(ref.source_image(a.shape[0], dp)), dp, what)
    elif text in table:
        check_image(rec, "panel", ax, table[text](), DP, "%s [%s]" % (what, text))
    else:
        rec.true("panel-title", False, "%s: unknown panel %s" % (what, text))


BARE = dict(kwargs_colorbar=None, kwargs_title=None, kwargs_scale_bar=None, kwargs_coordinate_arrows=None)


def band_case(name, kind, rec, tier):
    """kind: single, second, first-off, second-off, joint"""
    frames = [name] if kind == "single" else [name, "plain" if name != "plain" else "turned"]
    bands = scene(frames)
    compute = {"first-off": [False, True], "second-off": [True, False]}.get(kind)
    i = {"single": 0, "second": 1, "first-off": 1, "second-off": 0, "mask": 0}[kind]
    masks = None
    if kind == "mask":
        masks = [np.ones_like(b[0]["image_data"]) for b in bands]
        masks[0][:3, 2:] = 0
    ref = Reference(bands, i, masks)
    what = "%s %s" % (name, kind)
    p0 = copy.deepcopy(bands)
    mp = ModelPlot(copy.deepcopy(bands), model_of(bands), copy.deepcopy(PARAMS), bands_compute=compute, multi_band_type="multi-linear", image_likelihood_mask_list=masks)
    kap = lambda f: f(ref.ra.ravel(), ref.dec.ravel(), LENS).reshape(ref.ra.shape)
    logm = np.log10(ref.model)
    logm[np.isnan(logm)] = -5
    lim = (np.nanpercentile(logm, 1), np.nanpercentile(logm, 99))

    def both(key, fn, want, text, clim=None, bar=1.0, dp=DP, t=None, **kw):
        """decorated and bare panels show the same array"""
        for bare in (False, True):
            ax = new_ax()
            fn(band_index=i, ax=ax, **kw, **(BARE if bare else {}))
            check_image(rec, key, ax, want, dp, "%s %s %s" % (what, key, kw), clim=clim)
            if not bare:
                check_decor(rec, key, ax, ref.t if t is None else t, dp, what, text, bar)
            else:
                rec.true(key + "-bare", not [p for p in ax.patches] and not title(ax), "%s %s" % (what, title(ax)))
            rec.trans(1)
            keep = ax
            if bare:
                plt.close("all")
        return keep

    both("data", mp.data_plot, np.log10(ref.data), "Observed", lim)
    both("data-limits", mp.data_plot, np.log10(ref.data), "Observed", (-1.0, 2.0), vmin=-1.0, vmax=2.0)
    both("model", mp.model_plot, logm if np.isnan(np.log10(ref.model)).sum() == 0 else np.log10(ref.model), "Reconstructed", lim)
    both("residuals", mp.normalized_residual_plot, ref.residuals(), "Normalized Residuals", (-5, 5))
    both("absolute", mp.absolute_residual_plot, ref.data - ref.model, "Residuals")
    both("convergence", mp.convergence_plot, np.log10(kap(ref.lm.kappa)), "Convergence")
    both("magnification", mp.magnification_plot, kap(ref.lm.magnification), "Magnification model", (-10, 10))
    for axis in (0, 1):
        al = ref.lm.alpha(ref.ra.ravel(), ref.dec.ravel(), LENS)[axis].reshape(ref.ra.shape)
        both("deflection", mp.deflection_plot, al, "Deflection model", axis=axis)
    for so, li, po, un in itertools.product((False, True), repeat=4):
        both("decomposition", mp.decomposition_plot, np.log10(ref.part(so, li, po, un)), "Reconstructed", source_add=so, lens_light_add=li, point_source_add=po, unconvolved=un)
        if not un:
            both("subtract", mp.subtract_from_data_plot, np.log10(ref.data - ref.part(so, li, po)), "Subtracted", subtract_source=so, subtract_lens_light=li, subtract_point_source=po)
    for idx, mean in itertools.product([(), (0,), (1,), (1, 0)], (False, True)):
        sub = LensModel([MODEL["lens_model_list"][j] for j in idx])
        k = kap(ref.lm.kappa) - (sub.kappa(ref.ra.ravel(), ref.dec.ravel(), [LENS[j] for j in idx]).reshape(ref.ra.shape) if idx else 0)
        both("substructure", mp.substructure_plot, k - (np.mean(k) if mean else 0), "Substructure convergence", (-0.05, 0.05), index_macromodel=idx, subtract_mean=mean)
    for n, dp, center, scale in ((9, 0.1, None, "log"), (8, 0.12, (0.02, -0.03), "linear"), (7, 0.15, None, "linear")):
        s = ref.source_image(n, dp, center)
        for where in (False, True):
            both("source", mp.source_plot, np.log10(s) if scale == "log" else s, "Reconstructed source", lim if scale == "log" else None, bar=0.1, dp=dp, num_pix=n, delta_pix_source=dp, center=center, plot_scale=scale, point_source_position=where)
        arr, coords = mp.source(band_index=i, num_pix=n, delta_pix=dp, center=center)
        rec.same("source-array", arr, s, 1e-9, 1e-12, what=what)
        gx, gy = ref.source_grid(n, dp, center)
        c, r = coords.map_coord2pix(gx.ravel(), gy.ravel())
        rec.same("source-coords", [c, r], [np.tile(np.arange(n), n), np.repeat(np.arange(n), n)], 1e-7, 1e-7, what=what)
    # overlays
    ax = new_ax()
    mp.model_plot(band_index=i, ax=ax, image_names=True)
    check_names(rec, "images", ax, ref, image_positions(ref), LETTERS, what)
    ax = new_ax()
    nl = ["one", "two", "three", "four"]
    mp.magnification_plot(band_index=i, ax=ax, image_name_list=nl, **BARE)
    check_names(rec, "mag-images", ax, ref, image_positions(ref), nl, what)
    ax = new_ax()
    mp.deflection_plot(band_index=i, ax=ax, kwargs_caustics=dict(color="c", critical_curve_color="m"), **BARE)
    crit, cau = curves()
    if name in ("plain", "turned", "turned-flip"):
        check_curve(rec, "deflection-caustic", ax, line_points(ax, "c"), ref.sky, cau, 0.06, what)
        check_curve(rec, "deflection-critical", ax, line_points(ax, "m"), ref.sky, crit, 0.06, what)
    check_names(rec, "defl-images", ax, ref, image_positions(ref), LETTERS, what)
    ax = new_ax()
    mp.source_plot(band_index=i, ax=ax, num_pix=12, delta_pix_source=0.1, kwargs_caustics=dict(color="r"), **BARE)
    sgx, sgy = ref.source_grid(12, 0.1)
    t = ref.t * 0.1 / DP
    sky = lambda c, r: (sgx[0, 0] + t[0, 0] * c + t[0, 1] * r, sgy[0, 0] + t[1, 0] * c + t[1, 1] * r)
    if name in ("plain", "turned", "turned-flip"):
        check_curve(rec, "source-caustic", ax, line_points(ax, "r"), sky, cau, 0.06, what)
    m = markers(ax, "*")
    bx, by = ref.lm.ray_shooting(PARAMS["kwargs_ps"][0]["ra_image"], PARAMS["kwargs_ps"][0]["dec_image"], LENS)
    got = np.array(sky(*to_pix(ax, m[:, 0], m[:, 1]))).T if len(m) else np.zeros((0, 2))
    rec.same("source-points", np.sort(got.ravel()), np.sort([bx.mean(), by.mean()]), 1e-6, 1e-7, what=what)
    ax = new_ax()
    mp.error_map_source_plot(band_index=i, ax=ax, num_pix=6, delta_pix_source=0.12)
    ex, ey = ref.source_grid(6, 0.12)
    want = ImageLinearFit.error_map_source(ref.bm, ref.source, ex.ravel(), ey.ravel(), ref.cov).reshape(6, 6)
    check_image(rec, "source-error", ax, want, 0.12, what)
    check_decor(rec, "source-error", ax, ref.t, 0.12, what, "Error map in source", 0.1)
    plt.close("all")
    # composed figures: each panel shows what its title says
    for fn in (mp.plot_main, mp.plot_separate, mp.plot_subtract_from_data_all):
        f, axes = fn(band_index=i)
        seen = []
        for ax in np.ravel(axes):
            tt = title(ax)
            rec.true("panel-one-title", len(tt) == 1, "%s %s" % (what, tt))
            if len(tt) == 1:
                panel(rec, ax, ref, tt[0], what)
                seen.append(tt[0])
        rec.true("panels-distinct", len(set(seen)) == 6, "%s %s" % (what, seen))
        plt.close("all")
        rec.trans(6)
    f, axes = mp.reconstruction_all_bands()
    on = [j for j in range(len(bands)) if compute is None or compute[j]]
    rec.true("all-bands-rows", axes.shape == (len(on), 3), "%s %s" % (what, axes.shape))
    for row, j in zip(axes, on):
        rj = Reference(bands, j, masks)
        for ax in row:
            panel(rec, ax, rj, title(ax)[0], "%s all bands %d" % (what, j))
        rec.true("all-bands-title", str(j) in row[0].get_title(), "%s %s" % (what, row[0].get_title()))
    plt.close("all")
    if compute is not None:
        rec.raises("band-off", lambda: mp.data_plot(band_index=1 - i, ax=new_ax()), Exception, what)
    rec.unchanged("bands", p0, bands, "the bands of the caller")
    rec.trace()
    rec.state((name, kind))


def multi_case(rec, tier):
    """substructure of multi-plane models and on finer grids, all selections of the macro model, conventions and cosmologies"""
    bands = scene(["turned"])
    ref = Reference(bands, 0)
    names = ["EPL", "SHEAR", "SIS", "SIS"]
    kl = LENS + [dict(theta_E=0.1, center_x=0.4, center_y=0.3), dict(theta_E=0.15, center_x=-0.4, center_y=0.5)]
    for conv, cosmo, planes in itertools.product((None, 3.0), (None, FlatLambdaCDM(H0=70, Om0=0.6)), (True, False)):
        m = model_of(bands)
        m["lens_model_list"] = names
        extra = dict(lens_redshift_list=[0.5, 0.5, 0.3, 0.9], z_source=1.5, z_source_convention=conv, multi_plane=True)
        if planes:
            m.update(extra)
            if cosmo:
                m.update(cosmo=cosmo)
        elif conv or cosmo:
            continue
        p = copy.deepcopy(PARAMS)
        p["kwargs_lens"] = copy.deepcopy(kl)
        mp = ModelPlot(copy.deepcopy(bands), m, p)
        for r in range(5):
            for idx in itertools.combinations(range(4), r):
                if planes and not idx:
                    continue
                for ss in (None, 2):
                    if planes:
                        kw = dict(extra, lens_redshift_list=[extra["lens_redshift_list"][j] for j in idx])
                        full = LensModel(names, cosmo=cosmo, **extra)
                        macro = LensModel([names[j] for j in idx], cosmo=cosmo, **kw)
                    else:
                        full, macro = LensModel(names), LensModel([names[j] for j in idx])
                    s = ss or 1
                    n = ref.data.shape[0] * s
                    c, w = np.meshgrid((np.arange(n) - (s - 1) / 2) / s, (np.arange(n) - (s - 1) / 2) / s)
                    gx, gy = ref.sky(c, w)
                    want = full.kappa(gx.ravel(), gy.ravel(), copy.deepcopy(kl)) - macro.kappa(gx.ravel(), gy.ravel(), [kl[j] for j in idx])
                    ax = new_ax()
                    mp.substructure_plot(ax=ax, index_macromodel=idx, subtract_mean=False, super_sample_factor=ss, **BARE)
                    check_image(rec, "multi-substructure", ax, want.reshape(n, n), DP / s, "%s conv=%s cosmo=%s planes=%s ss=%s" % (idx, conv, bool(cosmo), planes, ss), rtol=1e-4, atol=1e-6)
                    plt.close("all")
                    rec.trans(1)
        ax = new_ax()
        mp.convergence_plot(ax=ax, **BARE)
        check_image(rec, "multi-convergence", ax, np.log10(full.kappa(ref.ra.ravel(), ref.dec.ravel(), copy.deepcopy(kl))).reshape(ref.ra.shape), DP, "conv=%s cosmo=%s planes=%s" % (conv, bool(cosmo), planes), rtol=1e-5)
        plt.close("all")
        rec.trace()
    rec.state("multi")


def pairs_case(rec, tier):
    """plots do not depend on earlier plots made with the same arguments, and do not modify them"""
    bands = scene(["turned"])
    ref = Reference(bands, 0)
    mp = ModelPlot(copy.deepcopy(bands), model_of(bands), copy.deepcopy(PARAMS))
    meth = {"data_plot": {}, "model_plot": {}, "convergence_plot": {}, "normalized_residual_plot": {}, "absolute_residual_plot": {}, "magnification_plot": {}, "deflection_plot": {}, "decomposition_plot": dict(source_add=True), "subtract_from_data_plot": dict(subtract_source=True), "source_plot": dict(num_pix=6, delta_pix_source=0.1), "error_map_source_plot": dict(num_pix=5, delta_pix_source=0.1), "substructure_plot": dict(index_macromodel=(0,))}
    history(rec, mp, meth, "model", tier)


def look(ax):
    f = ax.figure
    out = [shown(ax)[0], shown(ax)[1], np.array(shown(ax)[2])]
    txt = sorted(t.get_text() + str(t.get_color()) for a in f.axes for t in a.texts)
    lab = sorted(a.get_ylabel() + a.get_xlabel() for a in f.axes)
    lines = [np.array([l.get_xdata(), l.get_ydata()], float) for l in ax.lines]
    return out, txt, lab, lines


def history(rec, obj, meth, key, tier):
    first = {}
    for m, kw in meth.items():
        ax = new_ax()
        getattr(obj, m)(ax=ax, **copy.deepcopy(kw))
        first[m] = look(ax)
        plt.close("all")
    for a, b in itertools.product(meth, meth):
        shared = dict(kwargs_colorbar={}, kwargs_title={}, kwargs_scale_bar={}, kwargs_coordinate_arrows={})
        s0 = snap(shared)
        for m in (a, b):
            ax = new_ax()
            getattr(obj, m)(ax=ax, **copy.deepcopy(meth[m]), **shared)
            rec.unchanged(key + "-arguments", s0, shared, "arguments of %s" % m)
        got, want = look(ax), first[b]
        plt.close("all")
        what = "%s after %s" % (b, a)
        rec.true(key + "-text", got[1] == want[1] and got[2] == want[2], "%s: %s %s instead of %s %s" % (what, got[1], got[2], want[1], want[2]))
        for x, y in zip(got[0], want[0]):
            rec.same(key + "-image", np.nan_to_num(x, nan=1e9), np.nan_to_num(y, nan=1e9), 1e-12, 1e-12, what=what)
        rec.true(key + "-lines", len(got[3]) == len(want[3]) and all(np.allclose(x, y, equal_nan=True) for x, y in zip(got[3], want[3])), what)
        rec.trans(2)
        rec.trace()
    rec.state((key, len(meth)))


def lens_case(inverse, fast, rec, tier):
    """lens_plot: axes are sky coordinates"""
    lm = LensModel(["EPL", "SHEAR"])
    crit, cau = curves()
    for (n, dp, c) in ((40, 0.1, (0.0, 0.0)), (48, 0.09, (0.2, -0.1))):
        for src in ((0.05, 0.02), (0.3, -0.2)):
            for conv, point in itertools.product((True, False), repeat=2):
                ax = new_ax()
                kps, kc = {}, dict(color="b", critical_curve_color="m")
                k0 = snap((kps, kc, LENS))
                lens_plot.lens_model_plot(ax, lm, LENS, num_pix=n, delta_pix=dp, source_pos_x=src[0], source_pos_y=src[1], point_source=point, with_convergence=conv, coord_center_ra=c[0], coord_center_dec=c[1], coord_inverse=inverse, fast_caustic=fast, kwargs_caustics=kc, kwargs_point_source=kps)
                what = "inverse=%s fast=%s n=%d src=%s" % (inverse, fast, n, src)
                rec.unchanged("lens-arguments", k0, (kps, kc, LENS), "arguments of lens_model_plot")
                g = np.arange(n) - (n - 1) / 2
                xs, ys = c[0] + (-1 if inverse else 1) * g * dp, c[1] + g * dp
                if conv:
                    a, e, _ = shown(ax)
                    gx, gy = np.meshgrid(xs, ys)
                    rec.same("lens-kappa", a, np.log10(lm.kappa(gx.ravel(), gy.ravel(), LENS).reshape(n, n)), 1e-8, 1e-9, what=what)
                    cx = e[0] + (np.arange(n) + 0.5) * (e[1] - e[0]) / n
                    cy = e[2] + (np.arange(n) + 0.5) * (e[3] - e[2]) / n
                    rec.same("lens-extent", [cx, cy], [xs, ys], 1e-7, 1e-7, what=what)
                rec.same("lens-limits", [ax.get_xlim(), ax.get_ylim()], [(xs[0] - (xs[1] - xs[0]) / 2, xs[-1] + (xs[1] - xs[0]) / 2), (ys[0] - dp / 2, ys[-1] + dp / 2)], 1e-7, 1e-7, what=what)
                p = line_points(ax, "m")
                p = p[np.all(np.abs(p) < 100, axis=1)]
                a, b = spread(p, crit) if len(p) else (9, 9)
                rec.true("lens-critical", a < 0.04 and b < 0.12, "%s %s %s" % (what, a, b))
                p = line_points(ax, "b")
                p = p[np.all(np.abs(p) < 100, axis=1)]
                a, b = spread(p, cau) if len(p) else (9, 9)
                rec.true("lens-caustic", a < 0.05 and b < 0.15, "%s %s %s" % (what, a, b))
                labels = [l.get_label() for l in ax.lines]
                rec.true("lens-legend", "caustics" in labels and "critical curves" in labels, "%s %s" % (what, labels))
                import matplotlib.colors as mc

                for lab, col in (("caustics", "b"), ("critical curves", "m")):
                    rec.true("lens-legend-colour", all(mc.to_rgba(l.get_color()) == mc.to_rgba(col) for l in ax.lines if l.get_label() == lab), "%s %s" % (what, lab))
                got = names_at(ax, LETTERS)
                if point:
                    n_img = len(got)
                    rec.true("lens-images", n_img >= 2, "%s: %d images" % (what, n_img))
                    pts = np.array([got[k] for k in sorted(got)]).reshape(-1, 2)
                    bx, by = lm.ray_shooting(pts[:, 0], pts[:, 1], LENS)
                    rec.same("lens-image-position", [bx, by], [np.full(n_img, src[0]), np.full(n_img, src[1])], 0, 1e-4, what=what)
                    at = lm.fermat_potential(pts[:, 0], pts[:, 1], LENS)
                    rec.true("lens-image-order", bool(np.all(np.diff(at) >= -1e-7)), "%s %s" % (what, at))
                    m = markers(ax, "d")
                    rec.same("lens-image-marks", np.sort(m.ravel()), np.sort(pts.ravel()), 1e-9, 1e-9, what=what)
                    mu = np.abs(lm.magnification(pts[:, 0], pts[:, 1], LENS))
                    sz = {tuple(np.round((np.atleast_1d(l.get_xdata())[0], np.atleast_1d(l.get_ydata())[0]), 9)): l.get_markersize() for l in ax.lines if l.get_marker() == "d"}
                    order = [sz[k] for k in (tuple(np.round(q, 9)) for q in pts) if k in sz]
                    rec.true("lens-image-size", len(order) == n_img and list(np.argsort(order)) == list(np.argsort(mu)), "%s %s %s" % (what, order, mu))
                    s = markers(ax, "*")
                    rec.same("lens-source", s.ravel(), src, 1e-7, 1e-7, what=what)
                else:
                    rec.true("lens-no-images", not got and not len(markers(ax, "d*")), what)
                plt.close("all")
                rec.trans(1)
    # names
    for names, index in itertools.product((None, ["p", "q", "r", "s", "t"]), (None, 0, 2)):
        ax = new_ax()
        lens_plot.lens_model_plot(ax, lm, LENS, num_pix=40, delta_pix=0.1, source_pos_x=0.05, source_pos_y=0.02, point_source=True, with_convergence=False, coord_inverse=inverse, fast_caustic=fast, name_list=names, index=index)
        base = LETTERS if names is None else names
        want = [("" if index is None else str(index + 1)) + b for b in base]
        got = [t.get_text() for t in ax.texts]
        rec.true("lens-names", len(got) >= 2 and got == want[: len(got)], "%s %s: %s" % (names, index, got))
        plt.close("all")
    rec.trace()
    rec.state((inverse, fast))


def field_case(rec, tier):
    """arrival time surface, shear, stretch, distortions and arcs"""
    from lenstronomy.Data.pixel_grid import PixelGrid

    lm = LensModel(["EPL", "SHEAR"])
    crit, cau = curves()
    for src, point in itertools.product(((0.05, 0.02), (0.3, -0.2)), (False, True)):
        ax = new_ax()
        lens_plot.arrival_time_surface(ax, lm, LENS, num_pix=50, delta_pix=0.08, source_pos_x=src[0], source_pos_y=src[1], point_source=point, n_levels=7, kwargs_caustics=dict(color="b", critical_curve_color="m"))
        what = "surface %s %s" % (src, point)
        p = line_points(ax, "m")
        a, b = spread(p, crit) if len(p) else (9, 9)
        rec.true("surface-critical", a < 0.05 and b < 0.12, "%s %s %s" % (what, a, b))
        p = line_points(ax, "b")
        a, b = spread(p, cau) if len(p) else (9, 9)
        rec.true("surface-caustic", a < 0.06 and b < 0.15, "%s %s %s" % (what, a, b))
        cs = ax.collections
        levels, on = [], []
        for coll in cs:
            if hasattr(coll, "levels"):
                levels = np.array(coll.levels)
                for lev, path in zip(coll.levels, coll.get_paths()):
                    v = path.vertices
                    if len(v):
                        f = lm.fermat_potential(v[:, 0], v[:, 1], LENS, src[0], src[1])
                        on.append(np.max(np.abs(f - lev)))
        rec.true("surface-contours", len(on) > 0 and max(on) < 0.05, "%s %s" % (what, on))
        if point:
            got = names_at(ax, LETTERS)
            m = markers(ax, "x")
            rec.true("surface-images", len(m) == len(got) >= 2, "%s %d %d" % (what, len(m), len(got)))
            bx, by = lm.ray_shooting(m[:, 0], m[:, 1], LENS)
            rec.same("surface-image-position", [bx, by], [np.full(len(m), src[0]), np.full(len(m), src[1])], 0, 1e-3, what=what)
            rec.same("surface-levels", levels, np.unique(np.sort(lm.fermat_potential(m[:, 0], m[:, 1], LENS, src[0], src[1]))), 1e-4, 1e-4, what=what)
            rec.same("surface-source", markers(ax, "*").ravel(), src, 1e-7, 1e-7, what=what)
        else:
            g = (np.arange(50) - 24.5) * 0.08
            gx, gy = np.meshgrid(g, g)
            f = lm.fermat_potential(gx.ravel(), gy.ravel(), LENS, src[0], src[1])
            rec.same("surface-levels", levels, np.linspace(f.min(), f.max(), 7), 1e-6, 1e-7, what=what)
        plt.close("all")
        rec.trans(1)
    for grid, mx, scale in itertools.product((PixelGrid(5, 4, np.eye(2) * 0.3, -0.6, -0.5), PixelGrid(4, 4, rot(30, False) * 0.3, -0.6, -0.5)), (np.inf, 0.2, 1.4), (1, 5)):
        x, y = grid.pixel_coordinates
        what = "grid %s max=%s scale=%s" % (x.shape, mx, scale)
        ax = new_ax()
        lens_plot.shear_plot(ax, lm, LENS, plot_grid=grid, scale=scale, max_stretch=mx)
        q = [c for c in ax.collections if hasattr(c, "U")][0]
        g1, g2 = lm.gamma(x.ravel(), y.ravel(), LENS)
        size = np.minimum(np.hypot(g1, g2), mx)
        phi = np.arctan2(g2, g1) / 2
        rec.same("shear-grid", [q.X, q.Y], [x.ravel(), y.ravel()], 1e-9, 1e-9, what=what)
        rec.same("shear-size", np.hypot(q.U, q.V), size, 1e-7, 1e-9, what=what)
        rec.same("shear-angle", q.U * np.sin(phi) - q.V * np.cos(phi), 0 * phi, 0, 1e-7, what=what)
        ax = new_ax()
        lens_plot.stretch_plot(ax, lm, LENS, plot_grid=grid, scale=scale, max_stretch=mx)
        ell = [p for p in ax.patches]
        rec.true("stretch-count", len(ell) == x.size, what)
        for k, el in enumerate(ell):
            f = lm.hessian(x.ravel()[k], y.ravel()[k], LENS)
            A = np.array([[1 - f[0], -f[1]], [-f[2], 1 - f[3]]])
            w, v = np.linalg.eigh((A + A.T) / 2)
            s = np.minimum(np.abs(1 / w), mx) * scale / 40
            want = v @ np.diag(s) @ v.T
            an = np.deg2rad(el.angle)
            R = np.array([[np.cos(an), -np.sin(an)], [np.sin(an), np.cos(an)]])
            rec.same("stretch-shape", R @ np.diag([el.width, el.height]) @ R.T, want, 1e-6, 1e-9, what="%s %d" % (what, k))
            rec.same("stretch-centre", el.center, (x.ravel()[k], y.ravel()[k]), 1e-9, 1e-9, what=what)
        plt.close("all")
        rec.trans(2)
    # arcs
    for cur, direction, tan, rad in itertools.product((0.5, 1.2), (0.0, 0.8, -2.0), (1.5, 6.0), (0.7, 1.3)):
        ax = new_ax()
        cx, cy = 0.3, -0.2
        lens_plot.plot_arc(ax, tangential_stretch=tan, radial_stretch=rad, curvature=cur, direction=direction, center_x=cx, center_y=cy, stretch_scale=0.1, color="k")
        ox, oy = cx - np.cos(direction) / cur, cy - np.sin(direction) / cur
        what = "arc %s" % ((cur, direction, tan, rad),)
        L = ax.lines
        s = markers(ax, "*")
        rec.same("arc-centroid", s.ravel(), (ox, oy), 1e-9, 1e-9, what=what)
        curve = [l for l in L if len(l.get_xdata()) == 50][0]
        r = np.hypot(curve.get_xdata() - ox, curve.get_ydata() - oy)
        rec.same("arc-radius", r, np.full(50, 1 / cur), 1e-9, 1e-9, what=what)
        length = np.sum(np.hypot(np.diff(curve.get_xdata()), np.diff(curve.get_ydata())))
        rec.same("arc-length", length, 2 * min(tan * 0.1, np.pi / cur), 1e-2, 1e-3, what=what)
        strips = [l for l in L if len(l.get_xdata()) == 2 and l.get_marker() in ("None", None, "") and abs(np.hypot(np.mean(l.get_xdata()) - cx, np.mean(l.get_ydata()) - cy)) < 1e-9]
        rec.true("arc-radial", len(strips) == 1, what)
        for l in strips:
            d = np.array([np.diff(l.get_xdata())[0], np.diff(l.get_ydata())[0]])
            rec.same("arc-radial-size", [np.hypot(*d), abs(d[0] * np.sin(direction) - d[1] * np.cos(direction))], [2 * rad * 0.1, 0], 1e-9, 1e-9, what=what)
        out = [l for l in L if len(l.get_xdata()) == 200][0]
        ro = np.hypot(out.get_xdata() - ox, out.get_ydata() - oy)
        rec.same("arc-outline", [ro.min(), ro.max()], [1 / cur - 0.1 * rad, 1 / cur + 0.1 * rad], 1e-3, 1e-3, what=what)
        plt.close("all")
        rec.trans(1)
    arcs = LensModel(["CURVED_ARC_SIS_MST", "SHEAR", "CURVED_ARC_SPT"])
    base = dict(tangential_stretch=3.0, radial_stretch=1.1, curvature=0.9, direction=0.4, center_x=0.5, center_y=0.1)
    kw = [base, dict(gamma1=0.1, gamma2=0.0), dict(base, center_x=-0.7, gamma1=0.0, gamma2=0.0)]
    try:
        ax = new_ax()
        lens_plot.curved_arc_illustration(ax, arcs, [kw[0], kw[1], {k: v for k, v in kw[2].items() if k not in ("gamma1", "gamma2")}])
        rec.true("arc-illustration", len(markers(ax, "*")) == 2, "two arcs of three components: %s" % len(markers(ax, "*")))
    finally:
        plt.close("all")
    rec.trace()
    rec.state("fields")


def distortion_case(rec, tier):
    """every panel of the distortion overview is the map its title names, each pixel at its place"""
    from scipy import ndimage
    from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions

    lm = LensModel(["EPL", "SHEAR"])
    for (n, dp), (cx, cy), smooth in itertools.product(((8, 0.3), (12, 0.17)), ((0, 0), (0.4, -0.3)), (None, 0.4)):
        what = "%d pixels of %g at %s, smoothed %s" % (n, dp, (cx, cy), smooth)
        k0 = copy.deepcopy(LENS)
        f, axes = lens_plot.distortions(lm, LENS, num_pix=n, delta_pix=dp, center_ra=cx, center_dec=cy, differential_scale=0.001, smoothing_scale=smooth)
        gx = cx + (np.arange(n) - (n - 1) / 2.0) * dp
        gy = cy + (np.arange(n) - (n - 1) / 2.0) * dp
        x, y = np.meshgrid(gx, gy)
        q = LensModelExtensions(lm).radial_tangential_differentials(x.ravel(), y.ravel(), kwargs_lens=LENS, center_x=cx, center_y=cy, smoothing_3rd=0.001, smoothing_2nd=None)
        lr, lt, phi, tt, tr, rr, rt, ptt, ptr, prr, prt = [np.array(v).reshape(n, n) for v in q]
        mag = lr * lt
        if smooth is not None:
            g = lambda v: ndimage.gaussian_filter(v, sigma=smooth / dp)
            lr, rr, phi, ptt = g(lr), g(rr), g(phi), g(ptt)
            lt = g(np.minimum(np.abs(lt), 100))
            tt = g(np.clip(tt, -100, 100))
        want = {"$\\lambda_{rad}$": lr, "$\\lambda_{tan}$": lt, "$\\phi$": phi, "magnification": mag, "dlambda_rad_drad": rr / lr,
                "dlambda_tan_dtan": tt / lt, "dlambda_tan_drad": tr / lt, "dlambda_rad_dtan": rt / lr, "dphi_rad_drad": prr,
                "dphi_tan_dtan: curvature radius": ptt, "dphi_tan_drad": ptr, "dphi_rad_dtan": prt}
        seen = []
        for ax in axes.ravel():
            t = title(ax)
            rec.true("distortion-title", len(t) == 1 and t[0] in want, "%s %s" % (what, t))
            if len(t) == 1 and t[0] in want:
                seen.append(t[0])
                check_image(rec, "distortion", ax, want[t[0]], dp, what + " " + t[0], rtol=1e-6, atol=1e-6)
            rec.trans()
        rec.true("distortion-panels", sorted(seen) == sorted(want), what)
        rec.unchanged("distortion-arguments", k0, LENS, what)
        rec.state(what)
        plt.close("all")
    rec.trace()


def patch_case(order, rec, tier):
    """patches in one frame"""
    offs = [(-1.0, -0.75), (1.0, 0.75), (0.75, -1.0)]
    bands = []
    for i in order:
        t = np.eye(2) * DP
        o = offs[i]
        d = dict(image_data=np.ones((6, 6)), background_rms=0.1, exposure_time=100.0, ra_at_xy_0=o[0] - 0.625, dec_at_xy_0=o[1] - 0.625, transform_pix2angle=t)
        y, x = np.indices((6, 6))
        d["image_data"] = 2.0 + np.sin(x + 2 * y + i) + 0.1 * i
        bands.append([d, dict(psf_type="GAUSSIAN", fwhm=0.4, pixel_size=DP, truncation=3), dict(supersampling_factor=1)])
    m = dict(lens_model_list=["EPL", "SHEAR"], source_light_model_list=["SERSIC"])
    par = dict(kwargs_lens=LENS, kwargs_source=[PARAMS["kwargs_source"][0]], kwargs_lens_light=[], kwargs_ps=[])
    mp = MultiPatchPlot(copy.deepcopy(bands), m, copy.deepcopy(par), multi_band_type="joint-linear", kwargs_likelihood={}, verbose=False)
    img, mod, res = mp.image_joint()
    kap, mag, _, _ = mp.lens_model_joint()
    src, coords = mp.source(num_pix=7, delta_pix=0.1)
    dp = DP
    what = "patches %s" % (order,)
    table = {"data_plot": (img, True, None), "model_plot": (mod, True, None), "normalized_residual_plot": (res, False, (-6, 6)), "convergence_plot": (kap, True, (-2, 0.2)), "magnification_plot": (mag, False, (-10, 10))}
    for name, (arr, log, clim) in table.items():
        for ls in (None, True, False):
            ax = new_ax()
            kw = {} if ls is None else dict(log_scale=ls)
            getattr(mp, name)(ax=ax, **kw)
            use = log if ls is None else ls
            check_image(rec, name, ax, np.log10(arr) if use else arr, dp, what, clim=clim)
            check_decor(rec, name, ax, np.eye(2) * DP, dp, what)
            plt.close("all")
            ax = new_ax()
            getattr(mp, name)(ax=ax, **kw, **BARE)
            check_image(rec, name + "-bare", ax, np.log10(arr) if use else arr, dp, what, clim=clim)
            rec.true(name + "-bare-text", not title(ax) and not ax.patches, "%s %s" % (what, title(ax)))
            plt.close("all")
            rec.trans(2)
    for ls in (True, False):
        ax = new_ax()
        mp.source_plot(ax=ax, delta_pix=0.1, num_pix=7, log_scale=ls)
        check_image(rec, "patch-source", ax, np.log10(src) if ls else src, 0.1, what)
        plt.close("all")
    if tier == "thorough" or order == (0, 1):
        history(rec, mp, {"data_plot": {}, "model_plot": {}, "normalized_residual_plot": {}, "convergence_plot": {}, "magnification_plot": {}, "source_plot": dict(delta_pix=0.1, num_pix=6)}, "patch", tier)
    for shared in ({}, dict(kwargs_colorbar={}, kwargs_title={}, kwargs_scale_bar={}, kwargs_coordinate_arrows={})):
        f, axes = mp.plot_main(**shared)
        labels = {}
        for ax, name in zip(np.ravel(axes), ("data_plot", "model_plot", "normalized_residual_plot", None, "convergence_plot", "magnification_plot")):
            if name:
                arr, log, clim = table[name]
                check_image(rec, "patch-main", ax, np.log10(arr) if log else arr, dp, "%s %s" % (what, name), clim=clim)
        lab = [a.get_ylabel() for a in f.axes if a not in list(np.ravel(axes))]
        rec.true("patch-main-labels", len(lab) == 6 and len(set(lab)) == 4, "%s %s" % (what, lab))
        rec.true("patch-main-titles", title(axes[1, 1]) == ["Convergence"] and title(axes[1, 2]) == ["Magnification"] and not title(axes[0, 0]), "%s %s" % (what, [title(a) for a in np.ravel(axes)]))
        plt.close("all")
    rec.trace()
    rec.state(order)


def tracer_case(name, rec, tier):
    bands = scene([name])
    nx, ny, t, ra0, dec0 = frame(name)
    y, x = np.indices((ny, nx))
    tr = [dict(image_data=5 + np.sin(x + 0.5 * y), background_rms=0.3, noise_map=0.3 + 0.05 * np.cos(x - y), ra_at_xy_0=ra0, dec_at_xy_0=dec0, transform_pix2angle=t), dict(psf_type="GAUSSIAN", fwhm=0.4, pixel_size=DP, truncation=3), dict(supersampling_factor=1)]
    m = model_of(bands)
    m.update(tracer_source_model_list=["LINEAR_ELLIPSE"], tracer_source_band=0)
    par = copy.deepcopy(PARAMS)
    par["kwargs_tracer_source"] = [dict(amp=10.0, k=-0.5, e1=0.1, e2=0.0, center_x=0.02, center_y=0.01)]
    mask = np.ones((ny, nx))
    mask[2, :4] = 0
    for use_mask in (False, True):
        tp = TracerPlot(dict(multi_band_list=copy.deepcopy(bands), multi_band_type="single-band", tracer_data=copy.deepcopy(tr)), copy.deepcopy(m), copy.deepcopy(par), dict(tracer_likelihood_mask=mask.copy()) if use_mask else {})
        ref = Reference(bands, 0)
        from lenstronomy.Util import class_creator

        tm = class_creator.create_tracer_model(copy.deepcopy(tr), copy.deepcopy(m))
        mod = tm.tracer_model(kwargs_tracer_source=par["kwargs_tracer_source"], kwargs_lens=LENS, kwargs_source=ref.source)
        data = tr[0]["image_data"]
        kap = lambda f: f(ref.ra.ravel(), ref.dec.ravel(), LENS).reshape(ref.ra.shape)
        what = "tracer %s mask=%s" % (name, use_mask)
        res = (data - mod) / tr[0]["noise_map"] * (mask if use_mask else 1)
        logm = np.log10(mod)
        table = [("data_plot", {}, np.log10(data), None, "Observed"), ("data_plot", dict(vmin=-1.0, vmax=1.0), np.log10(data), (-1, 1), "Observed"), ("model_plot", {}, logm, None, "Reconstructed"), ("convergence_plot", {}, np.log10(kap(ref.lm.kappa)), None, "Convergence"), ("normalized_residual_plot", {}, res, None, "Normalized Residuals"), ("magnification_plot", {}, kap(ref.lm.magnification), None, "Magnification model"),
                 ("deflection_plot", dict(axis=0), ref.lm.alpha(ref.ra.ravel(), ref.dec.ravel(), LENS)[0].reshape(ref.ra.shape), None, "Deflection model"), ("deflection_plot", dict(axis=1), ref.lm.alpha(ref.ra.ravel(), ref.dec.ravel(), LENS)[1].reshape(ref.ra.shape), None, "Deflection model")]
        for fn, kw, want, clim, text in table:
            ax = new_ax()
            getattr(tp, fn)(ax=ax, **kw)
            check_image(rec, "tracer-" + fn, ax, want, DP, what, clim=clim)
            check_decor(rec, "tracer-" + fn, ax, t, DP, what, text)
            if fn in ("magnification_plot", "deflection_plot"):
                check_names(rec, "tracer-images-" + fn, ax, ref, image_positions(ref) if tm.PointSource.point_source_type_list else [], LETTERS, what)
            plt.close("all")
            rec.trans(1)
        ax = new_ax()
        tp.absolute_residual_plot(ax=ax)
        a, e, _ = shown(ax)
        rec.same("tracer-absolute", np.abs(a), np.abs(data - mod), 1e-9, 1e-9, what=what)
        plt.close("all")
        for n, dp, scale in ((9, 0.1, "linear"), (8, 0.12, "log")):
            gx, gy = ref.source_grid(n, dp, (0.02, 0.01))
            s = LightModel(["LINEAR_ELLIPSE"]).surface_brightness(gx, gy, par["kwargs_tracer_source"])
            ax = new_ax()
            tp.source_plot(ax=ax, num_pix=n, delta_pix_source=dp, center=(0.02, 0.01), plot_scale=scale)
            check_image(rec, "tracer-source", ax, np.log10(s) if scale == "log" else s, dp, what)
            plt.close("all")
        if name in ("plain", "turned-flip"):
            crit, cau = curves()
            ax = new_ax()
            tp.deflection_plot(ax=ax, kwargs_caustics=dict(color="c", critical_curve_color="m"), **BARE)
            check_curve(rec, "tracer-caustic", ax, line_points(ax, "c"), ref.sky, cau, 0.06, what)
            check_curve(rec, "tracer-critical", ax, line_points(ax, "m"), ref.sky, crit, 0.06, what)
            plt.close("all")
    rec.trace()
    rec.state(name)


def chain_case(rec, tier):
    rng = np.random.RandomState(3)
    for n, p in itertools.product((4, 7, 20), (1, 2, 3)):
        chi, pos, vel = -np.abs(rng.rand(n)) - 0.1, rng.rand(n, p), rng.rand(n, p)
        names = ["p%d" % i for i in range(p)]
        f, axes = plot_chain([list(chi), list(pos), list(vel)], names)
        rec.same("chain-logl", axes[0].lines[0].get_ydata(), np.log10(-chi), 1e-9, 1e-9)
        for i in range(p):
            rec.same("chain-pos", axes[1].lines[i].get_ydata(), (pos[:, i] - pos[-1, i]) / (pos[-1, i] + 1), 1e-9, 1e-9)
            rec.same("chain-vel", axes[2].lines[i].get_ydata(), vel[:, i] / (pos[-1, i] + 1), 1e-9, 1e-9)
            rec.true("chain-label", axes[1].lines[i].get_label() == names[i] and axes[2].lines[i].get_label() == names[i], str(i))
        plt.close("all")
        for avg in (1, 2, 3):
            s = rng.rand(n, p)
            s0 = s.copy()
            ax = new_ax()
            plot_mcmc_behaviour(ax, s, names, num_average=avg)
            k = n // avg
            for i in range(p):
                a = s0[: k * avg, i].reshape(k, avg).mean(1)
                rec.same("mcmc", ax.lines[i].get_ydata(), (a - a.mean()) / a.std(), 1e-7, 1e-9)
                rec.true("mcmc-label", ax.lines[i].get_label() == names[i], str(i))
            rec.unchanged("mcmc-samples", s0, s, "samples")
            plt.close("all")
            rec.trans(1)
    for typ, ok in (("PSO", True), ("MCMC", True), ("emcee", True), ("zeus", True), ("dynesty", True), ("MultiNest", True), ("SIMPLEX", False)):
        s = rng.rand(8, 2)
        lst = [["PSO", [list(-np.ones(3)), list(rng.rand(3, 2)), list(rng.rand(3, 2))], ["a", "b"]], [typ, s, ["u", "v"], rng.rand(8)] if typ != "PSO" else ["PSO", [list(-np.ones(4)), list(rng.rand(4, 2)), list(rng.rand(4, 2))], ["u", "v"]]]
        if not ok:
            rec.raises("chain-type", lambda: plot_chain_list(lst, index=1), ValueError, typ)
            continue
        f, axes = plot_chain_list(lst, index=1, num_average=2)
        ax = axes[1] if typ == "PSO" else axes
        rec.true("chain-list", [l.get_label() for l in ax.lines][:2] == ["u", "v"], typ)
        plt.close("all")
    # kernels
    y, x = np.indices((5, 5)) - 2
    k1, k2 = np.exp(-(x**2 + y**2) / 2.0), np.exp(-(x**2 + 0.5 * y**2) / 2.0)
    k1, k2 = k1 / k1.sum(), k2 / k2.sum()
    for var in (None, 0.01 * np.abs(x + 2 * y) + 0.01):
        kw = dict(psf_type="PIXEL", kernel_point_source=k2.copy(), kernel_point_source_init=k1.copy(), pixel_size=0.1)
        if var is not None:
            kw["psf_variance_map"] = var.copy()
        k0 = snap(kw)
        f, axes = psf_iteration_compare(kw)
        want = [np.log10(k1), np.log10(k2), k2 - k1] + ([np.log10(var * k2**2)] if var is not None else [])
        rec.true("psf-panels", len([a for a in axes if a.images]) >= len(want), str(len(axes)))
        for ax, w in zip(axes, want):
            rec.same("psf", shown(ax)[0], w, 1e-9, 1e-12)
        rec.same("psf-limits", shown(axes[0])[2], shown(axes[1])[2], 1e-9, 1e-9)
        rec.unchanged("psf-arguments", k0, kw, "psf arguments")
        plt.close("all")
    rec.trace()
    rec.state("chains")


def util_case(rec, tier):
    """elements of plots: positions, line sets, scale bar, compass, stretch of the intensity, and quoted results"""
    from lenstronomy.Data.pixel_grid import PixelGrid

    for name in FRAMES:
        nx, ny, t, ra0, dec0 = frame(name)
        g = PixelGrid(nx, ny, t, ra0, dec0)
        inv = np.linalg.inv(t)
        pts = np.array([(0.1, 0.2), (-0.4, 0.3), (5.0, 0.0), (0.3, -0.5)])
        pix = np.array([inv @ (p - [ra0, dec0]) for p in pts])
        for flip, origin, out, aslist in itertools.product((False, True), (None, [0.3, -0.2]), (False, True), (False, True)):
            what = "%s %s" % (name, (flip, origin, out, aslist))
            o = [0, 0] if origin is None else origin
            want = np.array([(p[0] * DP * (-1 if flip else 1) + o[0], p[1] * DP + o[1]) for p in pix])
            ax = new_ax()
            ra, dec = pts[:, 0], pts[:, 1]
            plot_util.image_position_plot(ax, g, [ra] if aslist else ra, [dec] if aslist else dec, origin=origin, flipped_x=flip, plot_out_of_image=out)
            got = names_at(ax, LETTERS)
            for i, nm in enumerate("ABCD"):
                if i == 2 and not out:
                    rec.true("outside", nm not in got, what)
                else:
                    rec.true("shown", nm in got, "%s: %s missing" % (what, nm))
                    if nm in got:
                        rec.same("position", got[nm], want[i], 1e-8, 1e-8, what=what)
            ax = new_ax()
            plot_util.plot_line_set(ax, g, [ra, ra[:2]] if aslist else ra, [dec, dec[:2]] if aslist else dec, origin=origin, flipped_x=flip, points_only=out, label="L", color="r")
            rec.same("line", np.array([ax.lines[0].get_xdata(), ax.lines[0].get_ydata()]).T, want, 1e-8, 1e-8, what=what)
            if aslist:
                rec.same("line2", np.array([ax.lines[1].get_xdata(), ax.lines[1].get_ydata()]).T, want[:2], 1e-8, 1e-8, what=what)
            rec.true("line-count", len(ax.lines) == (2 if aslist else 1) + 1 and ax.lines[-1].get_label() == "L", what)
            rec.true("line-style", (ax.lines[0].get_linestyle() in ("None", "", " ")) == out, "%s %s" % (what, ax.lines[0].get_linestyle()))
            plt.close("all")
            rec.trans(2)
        ax = new_ax()
        plot_util.source_position_plot(ax, g, [pts[:2, 0], pts[2:, 0]], [pts[:2, 1], pts[2:, 1]])
        got = markers(ax, "*")
        rec.same("source", got, pix * DP, 1e-8, 1e-8, what=name)
        for length, org in itertools.product((0.05, 0.2), (None, (0.3, 0.4))):
            ax = new_ax()
            d = max(nx, ny) * DP
            kw = {} if org is None else dict(arrow_origin_x=org[0], arrow_origin_y=org[1])
            plot_util.show_coordinate_arrows(ax, d, g, arrow_length=length, **kw)
            ar = [p for p in ax.patches]
            v = [inv @ [1.0, 0.0], inv @ [0.0, 1.0]]
            rec.same("compass", [(a._dx, a._dy) for a in ar], [length * d * w * DP for w in v], 1e-7, 1e-8, what=name)
            if org is not None:
                rec.same("compass-origin", [(a._x, a._y) for a in ar], [(org[0] * d, org[1] * d)] * 2, 1e-7, 1e-8, what=name)
            plt.close("all")
    for size, flip, text in itertools.product((0.1, 0.5, 1.0, 2.0), (False, True), (None, "bar")):
        ax = new_ax()
        plot_util.show_scale_bar(ax, 4.0, scale_size=size, flipped=flip, text=text)
        l = ax.lines[0]
        rec.same("bar", [np.diff(l.get_xdata())[0], np.diff(l.get_ydata())[0]], [size, 0], 1e-9, 1e-9)
        rec.true("bar-inside", 0 < min(l.get_xdata()) and max(l.get_xdata()) < 4, str((size, flip)))
        tx = ax.texts[0].get_text()
        rec.true("bar-text", tx == "bar" if text else float(tx.strip('"')) == size, tx)
        plt.close("all")
    img = np.arange(12.0).reshape(3, 4) - 3
    for lo, hi in itertools.product((None, -2.0, 1.0), (None, 5.0)):
        i0 = img.copy()
        got = plot_util.sqrt(img, lo, hi)
        a, b = img.min() if lo is None else lo, img.max() if hi is None else hi
        rec.same("sqrt", got, np.sqrt((np.clip(img, a, b) - a) / (b - a)), 1e-9, 1e-12)
        rec.unchanged("sqrt-input", i0, img, "image")
    for tx, flip, pos in itertools.product(("t", None), (False, True), (None, (0.3, 0.4))):
        ax = new_ax()
        plot_util.show_title_text(ax, text=tx, flipped=flip, **({} if pos is None else dict(x_position=pos[0], y_position=pos[1])))
        rec.true("title", len(ax.texts) == (1 if tx else 0), str(tx))
        if tx and pos:
            rec.same("title-position", ax.texts[0].get_position(), pos, 1e-9, 1e-9)
        plt.close("all")
    rec.trace()
    rec.state("elements")


def quasar_case(rec, tier):
    from lenstronomy.LensModel.lens_model_extensions import LensModelExtensions
    from lenstronomy.Plots.plot_quasar_images import plot_quasar_images

    lm = LensModel(["EPL", "SHEAR"])
    size, res = 0.02, 0.002
    for pts in ([(0.9, 0.2), (-0.62, -0.4)], [(0.9, 0.2), (0.15, 0.78), (-0.62, -0.4)], [(-0.62, -0.4)]):
        x, y = np.array(pts).T
        bx, by = lm.ray_shooting(x, y, LENS)
        src = [dict(amp=1.0, sigma=0.05, center_x=bx[0] + 0.01, center_y=by[0])]
        plt.close("all")
        plot_quasar_images(lm, x, y, LENS, LightModel(["GAUSSIAN"]), src, res, size)
        f = plt.gcf()
        axes = [a for a in f.axes if a.images]
        rec.true("quasar-panels", len(axes) == len(pts), "%d of %d" % (len(axes), len(pts)))
        mags = []
        for ax, (px, py) in zip(axes, pts):
            a, e, _ = shown(ax)
            dp = (e[1] - e[0]) / a.shape[1]
            tx = [t.get_text() for t in ax.texts]
            mag = float([t for t in tx if t.startswith("magnification")][0].split(":")[1])
            mags.append(a.sum() * res**2)
            g = np.linspace(-size, size, a.shape[0])
            gx, gy = np.meshgrid(g, g)
            sx, sy = lm.ray_shooting(px + gx.ravel(), py + gy.ravel(), LENS)
            want = LightModel(["GAUSSIAN"]).surface_brightness(sx, sy, src).reshape(a.shape)
            inside = np.hypot(gx, gy) < 0.97 * size
            rec.same("quasar-image", a[inside], want[inside], 1e-9, 1e-12)
            rec.same("quasar-scale", e, [-size, size, -size, size], 1e-9, 1e-12)
            rec.same("quasar-mag", mag, a.sum() * res**2, 1e-3, 1e-3)
        for ax, mg in zip(axes, mags):
            fr = float([t.get_text() for t in ax.texts if t.get_text().startswith("flux")][0].split(":")[1])
            rec.same("quasar-ratio", fr, mg / max(mags), 1e-3, 1e-3)
        plt.close("all")
        rec.trans(1)
    rec.trace()
    rec.state("quasars")


def cases(tier):
    out = []
    for n in FRAMES:
        for k in ("single", "second", "first-off", "second-off", "mask"):
            if tier == "thorough" or k in ("single", "first-off") or n == "turned-flip":
                out.append("band|%s|%s" % (n, k))
        out.append("tracer|" + n)
    out += ["pairs", "multi", "fields", "chains", "elements", "quasars", "distortions"]
    out += ["lens|%s|%s" % x for x in itertools.product((False, True), repeat=2)]
    out += ["patch|" + "".join(map(str, o)) for k in (1, 2, 3) for o in itertools.permutations(range(3), k) if tier == "thorough" or o in ((0,), (0, 1), (2, 1), (1, 2, 0))]
    return out


def run_case(cid, tier, rec):
    p = cid.split("|")
    if p[0] == "band":
        band_case(p[1], p[2], rec, tier)
    elif p[0] == "tracer":
        tracer_case(p[1], rec, tier)
    elif p[0] == "lens":
        lens_case(p[1] == "True", p[2] == "True", rec, tier)
    elif p[0] == "patch":
        patch_case(tuple(map(int, p[1])), rec, tier)
    else:
        dict(pairs=pairs_case, multi=multi_case, fields=field_case, chains=chain_case, elements=util_case, quasars=quasar_case, distortions=distortion_case)[p[0]](rec, tier)
