"""P21: stellar kinematics solve the spherical Jeans equation, whatever aperture, PSF, anisotropy and call history.

Every anisotropy law, aperture, PSF, mass/light/anisotropy combination of an alphabet is evaluated and compared with direct
quadrature of the Jeans equation and direct geometry; random draws are replaced by an exhaustive lattice of quantiles or stars;
all histories of calls with different parameter sets are compared with fresh instances.
"""
import copy
import itertools
import warnings

import numpy as np

from lenstronomy.Analysis.kinematics_api import KinematicsAPI
from lenstronomy.Cosmo.lens_cosmo import LensCosmo
from lenstronomy.GalKin.anisotropy import Anisotropy
from lenstronomy.GalKin.aperture import Aperture
from lenstronomy.GalKin.galkin import Galkin
from lenstronomy.GalKin.galkin_model import GalkinModel
from lenstronomy.GalKin.galkin_multiobservation import GalkinMultiObservation
from lenstronomy.GalKin.galkin_shells import GalkinShells
from lenstronomy.GalKin.light_profile import LightProfile
from lenstronomy.GalKin.psf import PSF
from lenstronomy.GalKin import velocity_util
from lenstronomy.LensModel.lens_model import LensModel
from lenstronomy.LightModel.light_model import LightModel
from lenstronomy.Util import constants as const
from vmc.core import snap

warnings.simplefilter("ignore")

COSMO = dict(d_d=1000.0, d_s=1500.0, d_ds=800.0)
GX, GW = np.polynomial.legendre.leggauss(60)

ANI = {
    "isotropic": [dict()],
    "radial": [dict()],
    "const": [dict(beta=b) for b in (0.0, 0.1, 0.3, -0.2, -0.4, 0.7, 0.9)],
    "OM": [dict(r_ani=r) for r in (0.3, 1.0, 4.0)],
    "GOM": [dict(r_ani=r, beta_inf=b) for r in (0.5, 2.0) for b in (0.2, 0.8, 1.0, -0.3)],
    "Colin": [dict(r_ani=r) for r in (0.3, 1.0, 4.0)],
    "logistic": [dict(r_ani=r, beta_0=b, beta_inf=c, alpha=a) for r in (0.5, 2.0) for b in (0.0, -0.2) for c in (0.4, 0.8) for a in (1.0, 2.0)],
}


def beta(kind, r, k):
    if kind == "isotropic":
        return 0.0 * r
    if kind == "radial":
        return 1.0 + 0.0 * r
    if kind == "const":
        return k["beta"] + 0.0 * r
    if kind == "OM":
        return r**2 / (r**2 + k["r_ani"] ** 2)
    if kind == "GOM":
        return k["beta_inf"] * r**2 / (r**2 + k["r_ani"] ** 2)
    if kind == "Colin":
        return 0.5 * r / (r + k["r_ani"])
    return k["beta_0"] + (k["beta_inf"] - k["beta_0"]) / (1 + (k["r_ani"] / r) ** k["alpha"])


def fsol(kind, r, k):
    """solution of dln f / dln r = 2 beta"""
    if kind == "isotropic":
        return 1.0 + 0.0 * r
    if kind == "radial":
        return r**2
    if kind == "const":
        return r ** (2 * k["beta"])
    if kind == "OM":
        return r**2 + k["r_ani"] ** 2
    if kind == "GOM":
        return (r**2 + k["r_ani"] ** 2) ** k["beta_inf"]
    return r + k["r_ani"]


def kernel(kind, s, R, k):
    """projection kernel by direct quadrature"""
    s = np.atleast_1d(s)
    T = np.sqrt(np.maximum(s**2 - R**2, 0.0))
    # t = R sinh(v) resolves the scale R for all s
    v = np.arcsinh(T / R)
    vv = 0.5 * v[:, None] * (GX[None] + 1)
    t = R * np.sinh(vv)
    w = 0.5 * v[:, None] * GW[None] * R * np.cosh(vv)
    r = np.sqrt(R**2 + t**2)
    out = np.sum(w * (1 - beta(kind, r, k) * R**2 / r**2) / fsol(kind, r, k), axis=1)
    return fsol(kind, s, k) / s * out


RS = np.array([0.05, 0.2, 0.7, 1.0, 2.3, 9.0])


def aniso_case(kind, tier, rec):
    for k in ANI[kind]:
        a = Anisotropy(kind)
        k0 = snap(k)
        r = np.geomspace(0.01, 50, 25)
        what = "%s %s" % (kind, k)
        rec.same("beta", a.beta_r(r, **k) + 0 * r, beta(kind, r, k), 1e-12, 1e-14, what=what)
        if kind not in ("const", "Colin", "logistic"):
            h = 1e-5
            d = (np.log(a.anisotropy_solution(r * (1 + h), **k) + 0 * r) - np.log(a.anisotropy_solution(r * (1 - h), **k) + 0 * r)) / (np.log(1 + h) - np.log(1 - h))
            rec.same("solution", d, 2 * beta(kind, r, k), 1e-6, 1e-8, what=what)
        if kind != "logistic":
            for R in RS:
                s = R * np.array([1.001, 1.05, 1.3, 2.0, 5.0, 30.0])
                tol = 2e-3 if kind == "GOM" else 1e-6
                rec.same("kernel", a.K(s, R, **k), kernel(kind, s, R, k), tol, 1e-7, what="%s R=%s" % (what, R))
                rec.trans()
        # axisymmetric forms
        p = a.jampy_beta(k, symmetry="spherical")
        if a.use_logistic:
            ra, b0, bi, al = p
            rec.same("logistic", b0 + (bi - b0) / (1 + (ra / r) ** al), beta(kind, r, k), 1e-12, 1e-14, what=what)
        else:
            rec.same("constant", p + 0 * r, np.minimum(beta(kind, r, k), 0.999), 1e-12, 1e-14, what=what)
        b = np.minimum(beta(kind, r, k), 0.999)
        f = a.jampy_beta(k, symmetry="axi_sph")
        g = a.jampy_beta(k, symmetry="axi_cyl")
        if kind != "OM" and not (kind == "GOM" and k["beta_inf"] == 1.0):
            for th in np.linspace(0, np.pi, 9):
                got = f(r, th + 0 * r) if callable(f) else (f + 0 * r, 0.0)
                rec.same("axi-spherical", [got[0], got[1] + 0 * r], [b, 0 * r], 1e-10, 1e-12, what="%s theta %.2f" % (what, th))
                # sigma_z / sigma_R is the same ratio at every polar angle on the axes
                got = g(r, th + 0 * r)
                h = 1e-6
                num = (g(r, th + h + 0 * r)[0] - g(r, th - h + 0 * r)[0]) / (2 * h)
                rec.same("axi-cyl-derivative", got[1] + 0 * r, num, 1e-5, 1e-5, what="%s theta %.2f" % (what, th))
                rec.trans(3)
            rec.same("axi-cyl-equator", g(r, np.pi / 2 + 0 * r)[0], b, 1e-9, 1e-9, what=what)
            rec.same("axi-cyl-axis", (1 - g(r, 0 * r)[0]) * (1 - b), 1 + 0 * r, 1e-9, 1e-9, what=what)
        rec.raises("symmetry", lambda: a.jampy_beta(k, symmetry="nosuch"), ValueError, "unknown symmetry")
        rec.unchanged("args", k0, k, what)
        rec.state(what)
    # answers do not depend on the parameters asked before
    if kind != "logistic":
        ks = ANI[kind][:4] + ANI[kind][-1:]
        for seq in itertools.product(range(len(ks)), repeat=2):
            a = Anisotropy(kind)
            for i in seq:
                # the caller drops the tables kept for one anisotropy, as documented
                a.delete_anisotropy_cache()
                got = a.K(np.array([0.8, 1.5, 4.0]), 0.6, **ks[i])
            rec.same("kernel-history", got, Anisotropy(kind).K(np.array([0.8, 1.5, 4.0]), 0.6, **ks[seq[-1]]), 1e-10, what="%s %s" % (kind, [ks[i] for i in seq]))
            rec.trans(2)
            rec.trace()
    rec.trace()


# ---- apertures
def rot(x, y, a):
    return np.cos(a) * x - np.sin(a) * y, np.sin(a) * x + np.cos(a) * y


def ifu(nx, ny, d, cx, cy, angle, flip):
    x = (np.arange(nx) - (nx - 1) / 2) * d * (-1 if flip else 1) + cx
    y = (np.arange(ny) - (ny - 1) / 2) * d + cy
    X, Y = np.meshgrid(x, y)
    return rot(X, Y, angle)


APERTURES = {}
for c, ang in itertools.product(((0, 0), (0.31, -0.17)), (0.0, 0.4, -1.1)):
    n = "c%d-a%g" % (c != (0, 0), ang)
    APERTURES["slit-" + n] = dict(aperture_type="slit", length=2.0, width=0.8, center_ra=c[0], center_dec=c[1], angle=ang)
    APERTURES["frame-" + n] = dict(aperture_type="frame", width_outer=2.0, width_inner=0.8, center_ra=c[0], center_dec=c[1], angle=ang)
    for flip in (0, 1):
        X, Y = ifu(5, 4, 0.4, c[0], c[1], ang, flip)
        B = np.array([[0, 0, 1, 1, -1], [0, 2, 2, 1, 1], [3, 2, 2, -1, 4], [3, 3, 3, 4, 4]])
        APERTURES["grid-%s-f%d" % (n, flip)] = dict(aperture_type="IFU_grid", x_grid=X, y_grid=Y, angle=ang)
        APERTURES["binned-%s-f%d" % (n, flip)] = dict(aperture_type="IFU_binned", x_grid=X, y_grid=Y, bins=B, angle=ang)
    if ang == 0:
        APERTURES["shell-" + n] = dict(aperture_type="shell", r_in=0.4, r_out=1.2, center_ra=c[0], center_dec=c[1])
        APERTURES["shells-" + n] = dict(aperture_type="IFU_shells", r_bins=np.array([0.0, 0.3, 0.7, 1.2]), center_ra=c[0], center_dec=c[1])
        APERTURES["shells-many-" + n] = dict(aperture_type="IFU_shells", r_bins=np.array([0.0, 0.2, 0.4, 0.6, 0.8, 1.0, 1.1, 1.2]), center_ra=c[0], center_dec=c[1])
        APERTURES["shells-hole-" + n] = dict(aperture_type="IFU_shells", r_bins=np.array([0.2, 0.7, 1.2]), center_ra=c[0], center_dec=c[1])
APERTURES["general"] = dict(aperture_type="general_aperture", x_cords=np.array([0.1, 0.5, -0.4, 0.9]), y_cords=np.array([0.2, -0.6, 0.3, 0.8]), bins=np.array([0, 1, 1, 2]), delta_pix=0.2)


def where(k, x, y):
    """(inside, segment, margin to the next border)"""
    t = k["aperture_type"]
    if t in ("slit", "frame"):
        u, v = rot(x - k["center_ra"], y - k["center_dec"], -k["angle"])
        u, v = abs(u), abs(v)
        if t == "slit":
            a, b = k["length"] / 2, k["width"] / 2
            return (u < a and v < b), 0, min(abs(u - a), abs(v - b))
        a, b = k["width_outer"] / 2, k["width_inner"] / 2
        m = max(u, v)
        return (b <= m < a), 0, min(abs(m - a), abs(m - b))
    if t in ("shell", "IFU_shells"):
        r = np.hypot(x - k["center_ra"], y - k["center_dec"])
        e = [k["r_in"], k["r_out"]] if t == "shell" else list(k["r_bins"])
        mar = min(abs(r - q) for q in e if q > 0)
        for i in range(len(e) - 1):
            if e[i] <= r < e[i + 1]:
                return True, i, mar
        return False, None, mar
    if t == "general_aperture":
        d = k["delta_pix"] / 2
        for i in range(len(k["bins"])):
            if abs(x - k["x_cords"][i]) < d and abs(y - k["y_cords"][i]) < d:
                return True, k["bins"][i], min(abs(abs(x - k["x_cords"][i]) - d), abs(abs(y - k["y_cords"][i]) - d))
        return False, None, min(max(abs(x - a) - d, abs(y - b) - d) for a, b in zip(k["x_cords"], k["y_cords"]))
    u, v = rot(x, y, -k["angle"])
    gx, gy = rot(k["x_grid"], k["y_grid"], -k["angle"])
    d = abs(gx[0, 1] - gx[0, 0])
    du, dv = np.abs(gx - u), np.abs(gy - v)
    i, j = np.unravel_index(np.argmin(np.maximum(du, dv)), gx.shape)
    m = max(du[i, j], dv[i, j])
    mar = min(abs(du[i, j] - d / 2), abs(dv[i, j] - d / 2))
    if m >= d / 2:
        return False, None, mar
    if t == "IFU_grid":
        return True, (i, j), mar
    b = k["bins"][i, j]
    return (b >= 0), (b if b >= 0 else None), mar


def aperture_case(name, tier, rec):
    k = copy.deepcopy(APERTURES[name])
    k0 = snap(k)
    a = Aperture(**k)
    t = k["aperture_type"]
    g = np.linspace(-1.9, 1.9, 31 if tier == "quick" else 81)
    for x, y in itertools.product(g, g):
        ins, seg, mar = where(k, x, y)
        if mar < 1e-6:
            continue
        got, s = a.aperture_select(x, y)
        rec.same("select", bool(got), bool(ins), what="%s at (%.3f, %.3f)" % (name, x, y))
        if got and ins:
            rec.same("segment", np.asarray(s), np.asarray(seg), what="%s at (%.3f, %.3f)" % (name, x, y))
        rec.trans()
    rec.unchanged("args", k0, k, name)
    if t == "general_aperture":
        rec.same("general-sample", a.aperture_sample(1), (k["x_cords"], k["y_cords"]), 1e-12)
        rec.same("general-bins", a.aperture_downsample(np.array([1.0, 2.0, 4.0, 8.0]), 1), [1.0, 3.0, 8.0], 1e-12)
        rec.raises("general-super", lambda: a.aperture_sample(2), ValueError, "supersampling of a general aperture")
        rec.state(name)
        rec.trace()
        return
    nseg = {"slit": 1, "frame": 1, "shell": 1, "IFU_shells": len(k.get("r_bins", [0])) - 1, "IFU_grid": (4, 5), "IFU_binned": 5}[t]
    rec.same("segments", np.asarray(a.num_segments), np.asarray(nseg), what=name)
    for sup, pad in itertools.product((1, 2, 3), (0, 0.25)):
        k2 = dict(k, padding_arcsec=pad)
        if t not in ("IFU_grid", "IFU_binned"):
            k2["delta_pix"] = 0.1
        a = Aperture(**k2)
        x, y = a.aperture_sample(sup)
        what = "%s supersampling %d padding %g" % (name, sup, pad)
        d = (a.delta_pix if t in ("IFU_grid", "IFU_binned") else 0.1) / sup
        npad = int(pad / d)
        # regular grid of the requested spacing
        rec.same("spacing", [np.hypot(np.diff(x, axis=1), np.diff(y, axis=1)), ], [d + 0 * np.diff(x, axis=1)], 1e-6, what=what)
        rec.same("constant", a.aperture_downsample(np.full(x.shape, 2.5), sup), np.full(nseg, 2.5), 1e-12, what=what)
        # the averages over the segments are averages over the samples in them
        core = (slice(npad, x.shape[0] - npad), slice(npad, x.shape[1] - npad))
        xs, ys = x[core], y[core]
        nyy, nxx = xs.shape[0] // sup, xs.shape[1] // sup
        px, py = [q.reshape(nyy, sup, nxx, sup).mean(axis=(1, 3)) for q in (xs, ys)]
        seg = {}
        border = False
        for i, j in itertools.product(range(nyy), range(nxx)):
            ins, s, mar = where(k, px[i, j], py[i, j])
            border = border or mar < 1e-9
            if ins:
                seg.setdefault(tuple(np.atleast_1d(s)), []).append((i, j))
        if border:
            continue
        for f in (x, y, x * y, (np.arange(x.size).reshape(x.shape) % 7).astype(float)):
            fp = f[core].reshape(nyy, sup, nxx, sup).mean(axis=(1, 3))
            exp = np.zeros(nseg)
            for s, l in seg.items():
                exp[s if t == "IFU_grid" else s[0]] = np.mean([fp[q] for q in l])
            rec.same("average", a.aperture_downsample(f, sup), exp, 1e-9, 1e-11, what=what)
            rec.trans()
        rec.state(what)
    rec.trace()


# ---- PSF and draws
class Draws:
    """np.random.uniform/normal replaced by a fixed list of values"""

    def __init__(self, uniform=(), normal=()):
        self.u, self.n = list(uniform), list(normal)

    def __enter__(self):
        self.save = np.random.uniform, np.random.normal

        def uni(low=0.0, high=1.0, size=None):
            if size is None:
                return low + (high - low) * self.u.pop(0)
            return low + (high - low) * np.array([self.u.pop(0) for _ in range(int(np.prod(size)))]).reshape(size)

        def nor(loc=0.0, scale=1.0, size=None):
            if size is None:
                return loc + scale * self.n.pop(0)
            return loc + scale * np.array([self.n.pop(0) for _ in range(int(np.prod(size)))]).reshape(size)
        np.random.uniform, np.random.normal = uni, nor
        return self

    def __exit__(self, *a):
        np.random.uniform, np.random.normal = self.save


def psf_case(tier, rec):
    from scipy.special import erf
    for fwhm in (0.3, 0.7, 1.2):
        sg = fwhm / (2 * np.sqrt(2 * np.log(2)))
        for d, n in itertools.product((0.05, 0.1), (21, 41)):
            x = (np.arange(n) - (n - 1) / 2) * d
            X, Y = np.meshgrid(x, x)
            r2 = X**2 + Y**2
            for name, kw in (("GAUSSIAN", dict(fwhm=fwhm)), ("MOFFAT", dict(fwhm=fwhm, moffat_beta=2.6)), ("MULTI_GAUSSIAN", dict(amplitudes=np.array([3.0, 1.0]), sigmas=np.array([sg, 2 * sg])))):
                p = PSF(name, **kw)
                if name == "GAUSSIAN":
                    f = np.exp(-r2 / 2 / sg**2)
                elif name == "MOFFAT":
                    al = fwhm / 2 / np.sqrt(2 ** (1 / 2.6) - 1)
                    f = (1 + r2 / al**2) ** -2.6
                else:
                    f = 0.75 * np.exp(-r2 / 2 / sg**2) / sg**2 + 0.25 * np.exp(-r2 / 8 / sg**2) / (4 * sg**2)
                what = "%s fwhm %g pixel %g x %d" % (name, fwhm, d, n)
                rec.same("kernel-grid", p.convolution_kernel_grid(X, Y), f / f.sum(), 1e-8, 1e-14, what=what)
                k = p.convolution_kernel(d, n)
                rec.same("kernel-norm", k.sum(), 1.0, 1e-10, what=what)
                if name != "GAUSSIAN":
                    rec.same("kernel", k, f / f.sum(), 1e-8, 1e-14, what=what)
                else:
                    rec.same("kernel", k, f / f.sum(), 0.05, 1e-3 * k.max(), what=what)  # pixel-integrated
                if name != "MULTI_GAUSSIAN":
                    rec.same("fwhm", p.psf_fwhm, fwhm, what=what)
                else:
                    half = np.geomspace(0.01, 3, 4000)
                    prof = 0.75 * np.exp(-half**2 / 2 / sg**2) / sg**2 + 0.25 * np.exp(-half**2 / 8 / sg**2) / (4 * sg**2)
                    rec.same("fwhm-multi", p.psf_fwhm, 2 * np.interp(-0.5 * (0.75 + 0.0625) / sg**2, -prof, half), 0.06, what=what)
                amp, sig = np.atleast_1d(p.psf_multi_gauss_amplitudes), np.atleast_1d(p.psf_multi_gauss_sigmas)
                rec.same("mge-norm", amp.sum(), 1.0, 1e-10, what=what)
                rr = np.array([0.0, 0.3, 0.6, 1.0]) * fwhm
                mg = np.sum(amp[:, None] / (2 * np.pi * sig[:, None] ** 2) * np.exp(-rr**2 / 2 / sig[:, None] ** 2), axis=0)
                if name == "MOFFAT":
                    ex = 1.6 / np.pi / al**2 * (1 + rr**2 / al**2) ** -2.6
                    rec.same("mge-moffat", mg, ex, 0.1, 0.05 * ex[0], what=what)
                elif name == "GAUSSIAN":
                    rec.same("mge-gauss", mg, np.exp(-rr**2 / 2 / sg**2) / (2 * np.pi * sg**2), 1e-10, what=what)
                rec.trans(4)
                rec.state(what)
        # displacements: every pair of quantiles
        q = (np.arange(40) + 0.5) / 40
        for a, b in itertools.product(q[::4], q[::4]):
            with Draws(normal=[a, b]):
                x, y = PSF("GAUSSIAN", fwhm=fwhm).displace_psf(0.3, -0.2)
            rec.same("displace-gauss", [x, y], [0.3 + a * sg, -0.2 + b * sg], 1e-12, what="%s %s" % (a, b))
            with Draws(uniform=[a, b]):
                x, y = PSF("MOFFAT", fwhm=fwhm, moffat_beta=2.6).displace_psf(0.3, -0.2)
            al = fwhm / 2 / np.sqrt(2 ** (1 / 2.6) - 1)
            r = np.hypot(x - 0.3, y + 0.2)
            cdf = 1 - (1 + r**2 / al**2) ** (1 - 2.6)
            rec.true("displace-moffat", abs(cdf - a) < 1e-9 or abs(cdf - b) < 1e-9 or abs(cdf - 1 + a) < 1e-9 or abs(cdf - 1 + b) < 1e-9, "cdf %s for quantiles %s %s" % (cdf, a, b))
            rec.trans(2)
    k = np.outer([1, 2, 1.5], [1, 3, 0.5])
    p = PSF("PIXEL", kernel=k / k.sum(), delta_pix=0.1, supersampling_factor=2, fwhm=0.2)
    rec.same("pixel", p.convolution_kernel(0.1, 3), k / k.sum(), 1e-12)
    rec.raises("pixel-size", lambda: p.convolution_kernel(0.1, 5), ValueError, "size")
    rec.raises("pixel-scale", lambda: p.convolution_kernel(0.2, 3), ValueError, "scale")
    rec.raises("pixel-even", lambda: PSF("PIXEL", kernel=np.ones((4, 4)), delta_pix=0.1, supersampling_factor=1), ValueError, "even")
    rec.raises("psf-type", lambda: PSF("NOSUCH", fwhm=1), ValueError, "type")
    rec.trace()


LIGHTS = {
    "hernquist": (["HERNQUIST"], [dict(Rs=0.5, amp=1.0)]),
    "hernquist2": (["HERNQUIST"], [dict(Rs=0.9, amp=2.0)]),
    "multigauss": (["MULTI_GAUSSIAN"], [dict(amp=np.array([1.0, 0.6, 0.2]), sigma=np.array([0.2, 0.6, 1.5]))]),
    "pjaffe-ell": (["PJAFFE_ELLIPSE"], [dict(Rs=0.7, Ra=0.2, amp=1.0, e1=0.0, e2=0.0)]),
    "two": (["HERNQUIST", "PJAFFE"], [dict(Rs=0.5, amp=1.0), dict(Rs=1.5, Ra=0.3, amp=0.4)]),
}


def light_case(name, tier, rec):
    l, kw = LIGHTS[name]
    kw = copy.deepcopy(kw)
    lp = LightProfile(l, interpol_grid_num=1000, max_interpolate=200, min_interpolate=1e-4)
    lm = LightModel(l)
    r = np.geomspace(0.01, 20, 12)
    rec.same("light3d", lp.light_3d(r, kw), lm.light_3d(r, kw), 1e-12, what=name)
    rec.same("light3d-interp", lp.light_3d_interp(r, kw), lm.light_3d(r, kw), 2e-3, what=name)
    rec.same("light2d", lp.light_2d(r, kw), lm.surface_brightness(r, 0 * r, kw), 1e-10, what=name)
    t = np.geomspace(1e-6, 200, 20001)

    def proj(R):
        T = t[t < np.sqrt(200.0**2 - R**2)]
        return 2 * np.trapezoid(lm.light_3d(np.sqrt(R**2 + T**2), kw) * T, np.log(T))
    rec.same("projected", lp.light_2d_finite(r, kw), [proj(R) for R in r], 1e-2, what=name)
    rec.same("projected-single", [lp.light_2d_finite(R, kw) for R in r], lp.light_2d_finite(r, kw), 1e-12, what=name)
    # draws: all quantiles
    q = (np.arange(50) + 0.5) / 50
    rr = np.geomspace(1e-4, 200, 40001)
    c3 = np.concatenate([[0], np.cumsum(0.5 * (lm.light_3d(rr[1:], kw) * rr[1:] ** 3 + lm.light_3d(rr[:-1], kw) * rr[:-1] ** 3) * np.diff(np.log(rr)))])
    c2 = np.concatenate([[0], np.cumsum(0.5 * (lm.surface_brightness(rr[1:], 0, kw) * rr[1:] ** 2 + lm.surface_brightness(rr[:-1], 0, kw) * rr[:-1] ** 2) * np.diff(np.log(rr)))])
    for fn, c, tol in (("draw_light_3d", c3, 0.02), ("draw_light_2d", c2, 0.02)):
        with Draws(uniform=q):
            got = getattr(LightProfile(l, interpol_grid_num=2000, max_interpolate=200, min_interpolate=1e-4), fn)(kw, n=len(q))
        # compare in probability: the drawn radius encloses the requested fraction of the light
        rec.same(fn, np.interp(np.sort(got), rr, c / c[-1]), q, 0, tol, what=name)
        rec.trans()
    with Draws(uniform=q):
        got = LightProfile(l, interpol_grid_num=20000, max_interpolate=200, min_interpolate=1e-4).draw_light_2d_linear(kw, n=len(q))
    rec.same("draw_light_2d_linear", np.interp(np.sort(got), rr, c2 / c2[-1]), q, 0, 0.02, what=name)
    rec.state(name)
    rec.trace()


def light_history(tier, rec):
    """all histories of evaluations of two light distributions on one object"""
    A, B = LIGHTS["hernquist"][1], LIGHTS["hernquist2"][1]
    q = [0.1, 0.5, 0.9]
    ops = {}
    for n, kw in (("A", A), ("B", B)):
        ops["l2d" + n] = lambda o, kw=kw: o.light_2d(np.array([0.3, 1.0]), kw)
        ops["fin" + n] = lambda o, kw=kw: o.light_2d_finite(np.array([0.3, 1.0]), kw)
        ops["l3d" + n] = lambda o, kw=kw: o.light_3d(np.array([0.3, 1.0]), kw)
        for f in ("draw_light_2d", "draw_light_3d", "draw_light_2d_linear"):
            ops[f + n] = lambda o, kw=kw, f=f: getattr(o, f)(kw, n=3, new_compute=True)
        ops["int" + n] = lambda o, kw=kw: o.light_3d_interp(np.array([0.3, 1.0]), kw, new_compute=True)
        # after the cache has been dropped no trace of other parameters is left
        ops["drop" + n] = lambda o, kw=kw: (o.delete_cache(), o.light_3d_interp(np.array([0.3, 1.0]), kw), o.draw_light_3d(kw, n=3), o.light_2d(0.4, kw))[1:]
    new = lambda: LightProfile(["HERNQUIST"], interpol_grid_num=100, max_interpolate=50, min_interpolate=1e-3)
    depth = 2 if tier == "quick" else 3
    for seq in itertools.product(sorted(ops), repeat=depth):
        o = new()
        for s in seq:
            with Draws(uniform=list(q)):
                got = ops[s](o)
        with Draws(uniform=list(q)):
            exp = ops[seq[-1]](new())
        rec.same("light-history:" + seq[-1][:-1], got, exp, 1e-10, what=str(seq))
        rec.trans(depth)
        rec.trace()
    rec.state("light-history")
    # elementary draws
    for P in np.linspace(0.02, 0.98, 25):
        with Draws(uniform=[P]):
            r = velocity_util.draw_hernquist(0.7)
        rec.same("hernquist", (r / (r + 0.7)) ** 2, P, 1e-10)
        for P2 in np.linspace(0.02, 0.98, 25):
            with Draws(uniform=[P, P2]):
                R, x, y = velocity_util.project2d_random(2.0)
            rec.same("sphere", [np.hypot(x, y), np.sqrt(max(1 - (R / 2.0) ** 2, 0))], [R, abs(2 * P - 1)], 1e-7, 1e-7)
            rec.trans()


# ---- Jeans equation
MASSES = {
    "spp": (["SPP"], [dict(theta_E=1.2, gamma=2.1)]),
    "sis": (["SIS"], [dict(theta_E=1.0)]),
    "epl": (["EPL"], [dict(theta_E=1.1, gamma=1.9, e1=0.0, e2=0.0)]),
    "nfw-hern": (["NFW", "HERNQUIST"], [dict(Rs=5.0, alpha_Rs=0.8), dict(Rs=0.6, sigma0=0.8)]),
}
NUM = dict(interpol_grid_num=1000, log_integration=True, max_integrate=100.0, min_integrate=1e-4)


def mass_kg(mname, r, kw=None):
    l, k = MASSES[mname]
    lm = LensModel(l).lens_model
    m = lm.mass_3d(r, kw or k)
    return m * const.arcsec**2 * COSMO["d_d"] * COSMO["d_s"] / COSMO["d_ds"] * const.Mpc * const.c**2 / (4 * np.pi * const.G)


def jeans(R, M, nu, kind, ka, rmax=100.0):
    """(I sigma^2, I) at projected radius R"""
    T = np.sqrt(rmax**2 - R**2)
    t = np.geomspace(R * 1e-5, T, 6001)
    r = np.sqrt(R**2 + t**2)
    K = kernel(kind, r, R, ka)
    n = nu(r)
    i2 = 2 * np.trapezoid(K * n * M(r) * t**2 / r**2, np.log(t)) * const.G / (const.arcsec * COSMO["d_d"] * const.Mpc)
    i0 = 2 * np.trapezoid(n * t, np.log(t))
    return i2, i0


def sigma_r2(r, M, nu, kind, ka, rmax=100.0):
    s = np.geomspace(r, rmax, 6001)
    f = fsol(kind, s, ka)
    return np.trapezoid(f * nu(s) * M(s) / s, np.log(s)) / (fsol(kind, r, ka) * nu(r)) * const.G / (const.arcsec * COSMO["d_d"] * const.Mpc)


JEANS_ANI = [("isotropic", dict()), ("const", dict(beta=0.3)), ("const", dict(beta=-0.2)), ("OM", dict(r_ani=0.8)), ("GOM", dict(r_ani=1.0, beta_inf=0.6)), ("Colin", dict(r_ani=0.7)), ("radial", dict())]


def jeans_case(mname, lname, tier, rec):
    ml, mk = MASSES[mname]
    ll, lk = LIGHTS[lname]
    lm = LightModel(ll)
    M = lambda r: mass_kg(mname, r)
    nu = lambda r: lm.light_3d(r, lk)
    Rs = (0.05, 0.3, 1.0, 3.0) if tier == "quick" else (0.02, 0.05, 0.1, 0.3, 0.6, 1.0, 2.0, 3.0, 6.0)
    for kind, ka in JEANS_ANI:
        for log in (True, False):
            num = dict(NUM, log_integration=log) if log else dict(NUM, log_integration=False, max_integrate=20.0, interpol_grid_num=4000)
            if not log and (kind, mname) not in (("OM", "spp"), ("const", "sis")):
                continue
            rmax = num["max_integrate"]
            model = GalkinModel(dict(mass_profile_list=ml, light_profile_list=ll, anisotropy_model=kind), COSMO, kwargs_numerics=dict(num))
            n = model.numerics
            args = (copy.deepcopy(mk), copy.deepcopy(lk), dict(ka))
            a0 = snap(args)
            what = "%s %s %s %s log %s" % (mname, lname, kind, ka, log)
            tol = 0.02 if log else 0.04
            for R in Rs:
                if not log:
                    # single radius, without the interpolation table
                    i2, i0 = n._I_R_sigma2(R, *args) if hasattr(n, "_I_R_sigma2") else n.I_R_sigma2_and_IR(R, *args)
                else:
                    i2, i0 = n.I_R_sigma2_and_IR(R, *args)
                e2, e0 = jeans(R, M, nu, kind, ka, rmax)
                rec.same("jeans-projected", np.sqrt(i2 / i0), np.sqrt(e2 / e0), tol, what="%s R=%g" % (what, R))
                if log:
                    s2, w = n.sigma_s2(R * 1.2, R, *args)
                    rec.same("jeans-sigma", np.sqrt(s2 / w), np.sqrt(e2 / e0), tol, what="%s R=%g" % (what, R))
                    # (beyond the largest Gaussian the steep tail is only sampled coarsely)
                    if kind not in ("const", "Colin") and not (lname == "multigauss" and R > 3):
                        rec.same("jeans-radial", np.sqrt(n.sigma_r2(R, *args)), np.sqrt(sigma_r2(R, M, nu, kind, ka)), tol, what="%s r=%g" % (what, R))
                        rec.same("jeans-los", n.sigma_s2_r(R * 1.3, R, *args), (1 - beta(kind, R * 1.3, ka) / 1.69) * sigma_r2(R * 1.3, M, nu, kind, ka), (5 if lname == "multigauss" else 2) * tol, 1.0, what=what)
                rec.trans(2)
            rec.same("mass", n.mass_3d(np.array(Rs), args[0]), M(np.array(Rs)), 1e-10, what=what)
            if log:
                # luminosity-weighted dispersion inside a radius
                for R in (0.5, 1.5):
                    rr = np.linspace(1e-4, R, 50)
                    i2, i0 = np.array([jeans(q, M, nu, kind, ka) for q in rr]).T
                    rec.same("jeans-weighted", n.lum_weighted_vel_disp(R, *args), np.sqrt(np.sum(i2 * rr) / np.sum(i0 * rr)) / 1000, tol, what=what)
            rec.unchanged("args", a0, args, what)
            rec.state(what)
    rec.trace()


def analytic_case(tier, rec):
    """power law in a Hernquist tracer population: closed form = numerical solution = quadrature"""
    for th, g, reff, ra in itertools.product((0.8, 1.3), (1.8, 2.0, 2.2), (0.6, 1.4), (0.5, 3.0)):
        mk, lk, ak = dict(theta_E=th, gamma=g), dict(r_eff=reff), dict(r_ani=ra)
        Rs_h = 0.551 * reff
        lm = LightModel(["HERNQUIST"])
        nu = lambda r: lm.light_3d(r, [dict(Rs=Rs_h, amp=1.0)])
        sp = LensModel(["SPP"]).lens_model
        M = lambda r: sp.mass_3d(r, [mk]) * const.arcsec**2 * COSMO["d_d"] * COSMO["d_s"] / COSMO["d_ds"] * const.Mpc * const.c**2 / (4 * np.pi * const.G)
        model = GalkinModel(dict(anisotropy_model="OM"), COSMO, kwargs_numerics=dict(interpol_grid_num=300, log_integration=True, max_integrate=100, min_integrate=1e-4), analytic_kinematics=True)
        what = "%s %s %s" % (mk, lk, ak)
        a0 = snap((mk, lk, ak))
        for r in (0.1, 0.5, 1.5):
            rec.same("analytic-radial", np.sqrt(float(model.numerics.sigma_r2(r, mk, lk, ak))), np.sqrt(sigma_r2(r, M, nu, "OM", ak, 1e4)), 2e-3, what=what)
            s2, w = model.numerics.sigma_s2(r * 1.2, r, mk, lk, ak)
            rec.same("analytic-los", s2 / w, (1 - beta("OM", 1.2 * r, ak) / 1.44) * sigma_r2(1.2 * r, M, nu, "OM", ak, 1e4), 1e-2, what=what)
            i2, i0 = model.numerics.I_R_sigma2_and_IR(r, mk, lk, ak)
            e2, e0 = jeans(r, M, nu, "OM", ak)
            rec.same("analytic-projected", np.sqrt(i2 / i0), np.sqrt(e2 / e0), 0.05, what=what)
            rec.trans(3)
        rec.unchanged("args", a0, (mk, lk, ak), what)
        rec.state(what)
    rec.raises("analytic-om", lambda: GalkinModel(dict(anisotropy_model="GOM"), COSMO, analytic_kinematics=True), ValueError, "only OM")
    rec.trace()


# ---- maps
def grid_case(flip, nx, ny, cx, cy, psf, tier, rec):
    """dispersion map of a pixel grid = PSF-convolved, luminosity-weighted average over each pixel"""
    kind, ka = "OM", dict(r_ani=1.0)
    ml, ll = ["EPL"], ["HERNQUIST"]
    mk = [dict(theta_E=1.1, gamma=2.0, e1=0.0, e2=0.0, center_x=cx, center_y=cy)]
    lk = [dict(Rs=0.6, amp=1.0)]
    lm = LightModel(ll)
    M = lambda r: mass_kg("epl", r, [dict(theta_E=1.1, gamma=2.0, e1=0.0, e2=0.0)])
    nu = lambda r: lm.light_3d(r, lk)
    d = 0.4
    X, Y = ifu(nx, ny, d, 0.0, 0.0, 0.0, flip)
    X, Y = X + 0.05, Y - 0.07
    B = (np.arange(nx * ny).reshape(ny, nx) * 3 // (nx * ny)).astype(int)
    B[0, 0] = -1
    for sup in (1, 2, 3):
        ds = d / sup
        if psf == "PIXEL":
            kern = np.outer([1, 2, 4, 2, 0.5], [0.5, 3, 4, 1, 1])
            kern = kern / kern.sum()
            pk = dict(psf_type="PIXEL", kernel=kern, delta_pix=ds, supersampling_factor=sup, fwhm=5 * ds / 6.1)
        else:
            pk = dict(psf_type="GAUSSIAN", fwhm=0.5) if psf == "GAUSSIAN" else dict(psf_type="MOFFAT", fwhm=0.4, moffat_beta=3.5)
        for ap in ("IFU_grid", "IFU_binned"):
            ka_ = dict(aperture_type=ap, x_grid=X, y_grid=Y)
            if ap == "IFU_binned":
                ka_["bins"] = B
            g = Galkin(dict(mass_profile_list=ml, light_profile_list=ll, anisotropy_model=kind), ka_, pk, COSMO, kwargs_numerics=dict(NUM, interpol_grid_num=400))
            what = "flip %d %dx%d centre %s psf %s supersampling %d %s" % (flip, nx, ny, (cx, cy), psf, sup, ap)
            args = (mk, lk, ka)
            a0 = snap(args)
            try:
                got = g.dispersion_map_grid_convolved(mk, lk, ka, supersampling_factor=sup)
            except Exception as e:
                rec.true("map", False, "%s: %r" % (what, e))
                continue
            rec.unchanged("args", a0, args, what)
            # reference: sub-pixel centres, kernel applied with the light continuing outside of the grid
            xs = X[0, 0] + np.sign(X[0, 1] - X[0, 0]) * ((np.arange(nx * sup) + 0.5) / sup - 0.5) * d
            ys = Y[0, 0] + np.sign(Y[1, 0] - Y[0, 0]) * ((np.arange(ny * sup) + 0.5) / sup - 0.5) * d
            tab = np.geomspace(1e-3, 12, 60)
            i2, i0 = np.log(np.array([jeans(R, M, nu, kind, ka) for R in tab]).T)
            if psf == "PIXEL":
                kk, h = kern, 2
            else:
                h = int(np.ceil(3 * pk["fwhm"] / ds))
                o = np.arange(-h, h + 1) * ds
                kx, ky = np.meshgrid(o, o)
                if psf == "GAUSSIAN":
                    kk = np.exp(-(kx**2 + ky**2) / 2 / (0.5 / 2.35482) ** 2)
                else:
                    al = 0.4 / 2 / np.sqrt(2 ** (1 / 3.5) - 1)
                    kk = (1 + (kx**2 + ky**2) / al**2) ** -3.5
                kk = kk / kk.sum()
            # the map is the field inside the grid only (documented behaviour: no padding)
            F = []
            XX, YY = np.meshgrid(xs, ys)
            lr = np.log(np.maximum(np.hypot(XX - cx, YY - cy), 1e-3))
            for tt in (i2, i0):
                f = np.exp(np.interp(lr, np.log(tab), tt))
                P = np.zeros((f.shape[0] + 2 * h, f.shape[1] + 2 * h))
                P[h:-h, h:-h] = f
                out = np.zeros_like(f)
                for i, j in itertools.product(range(2 * h + 1), repeat=2):
                    # convolution: the kernel is flipped
                    out += kk[2 * h - i, 2 * h - j] * P[i:i + f.shape[0], j:j + f.shape[1]]
                F.append(out)
            if ap == "IFU_grid":
                S = [q.reshape(ny, sup, nx, sup).sum(axis=(1, 3)) for q in F]
                exp = np.sqrt(S[0] / S[1]) / 1000
            else:
                BB = B.repeat(sup, 0).repeat(sup, 1)
                exp = np.array([np.sqrt(F[0][BB == b].sum() / F[1][BB == b].sum()) / 1000 for b in range(3)])
            rec.same("map", np.asarray(got), exp, 0.02, what=what)
            rec.trans()
            rec.state(what)
    rec.trace()


def shells_case(tier, rec):
    kind, ka = "OM", dict(r_ani=1.0)
    mk, lk = [dict(theta_E=1.1, gamma=2.0)], [dict(Rs=0.6, amp=1.0)]
    lm = LightModel(["HERNQUIST"])
    sp = LensModel(["SPP"]).lens_model
    M = lambda r: sp.mass_3d(r, mk) * const.arcsec**2 * COSMO["d_d"] * COSMO["d_s"] / COSMO["d_ds"] * const.Mpc * const.c**2 / (4 * np.pi * const.G)
    nu = lambda r: lm.light_3d(r, lk)
    tab = np.geomspace(1e-3, 30, 80)
    i2, i0 = np.log(np.array([jeans(R, M, nu, kind, ka) for R in tab]).T)
    # fine reference map
    h = 0.03
    g = (np.arange(-133, 134)) * h
    X, Y = np.meshgrid(g, g)
    lr = np.log(np.maximum(np.hypot(X, Y), 0.3 * h))
    from scipy.ndimage import gaussian_filter
    for fwhm in (0.3, 0.7):
        F = [gaussian_filter(np.exp(np.interp(lr, np.log(tab), t)), fwhm / 2.35482 / h, mode="nearest", truncate=8) for t in (i2, i0)]
        for bins in ([0.0, 0.5, 1.0, 2.0], [0.3, 1.0, 2.0], [0.0, 2.0]):
            for c in ((0.0, 0.0), (0.4, -0.3)):
                r = np.hypot(X - c[0], Y - c[1])
                gal = GalkinShells(dict(mass_profile_list=["SPP"], light_profile_list=["HERNQUIST"], anisotropy_model=kind), dict(aperture_type="IFU_shells", r_bins=np.array(bins), center_ra=c[0], center_dec=c[1]),
                                   dict(psf_type="GAUSSIAN", fwhm=fwhm), COSMO, kwargs_numerics=dict(NUM, interpol_grid_num=400))
                got = gal.dispersion_map(mk, lk, ka)
                exp = [np.sqrt(F[0][(r >= a) & (r < b)].sum() / F[1][(r >= a) & (r < b)].sum()) / 1000 for a, b in zip(bins[:-1], bins[1:])]
                what = "bins %s fwhm %g centre %s" % (bins, fwhm, c)
                rec.same("shells" if c == (0.0, 0.0) else "shells-offset", got, exp, 0.02, what=what)
                rec.trans()
                rec.state(what)
    rec.trace()


STARS = [(r, r * c, r * c * np.cos(p), r * c * np.sin(p)) for r in (0.1, 0.3, 0.7, 1.2, 2.0, 3.5) for c in (0.2, 0.6, 0.95) for p in np.arange(7) * 0.9 + 0.1]
SHIFTS = [(a * 0.11, b * 0.13) for a in (-2, -1, 0, 1, 2) for b in (-2, -1, 0, 1, 2)]


def montecarlo_case(name, tier, rec):
    """with every star and every displacement of a lattice drawn once, the estimators are plain averages over the aperture"""
    k = copy.deepcopy(APERTURES[name])
    kind, ka = "OM", dict(r_ani=1.0)
    mk, lk = [dict(theta_E=1.1, gamma=2.0)], [dict(Rs=0.6, amp=1.0)]
    model = dict(mass_profile_list=["SPP"], light_profile_list=["HERNQUIST"], anisotropy_model=kind)
    num = dict(NUM, interpol_grid_num=300)
    ref = GalkinModel(model, COSMO, kwargs_numerics=dict(num)).numerics
    s2 = np.array([float(ref.sigma_s2(s[0], s[1], mk, lk, ka)[0]) for s in STARS])
    args0 = snap((mk, lk, ka))

    def patch(obj, inner, psf=True):
        it = itertools.chain.from_iterable(itertools.repeat(STARS, 60))

        def draw(*_, **__):
            for star in it:
                return star
            raise RuntimeError("no star of the lattice is ever selected by the aperture")
        obj.numerics.draw_light = draw
        return obj
    # one displacement per star (dispersion), all displacements per star (dispersion_map)
    sums, cnt = {}, {}
    for i, s in enumerate(STARS):
        for dx, dy in SHIFTS:
            ins, seg, mar = where(k, s[2] + dx, s[3] + dy)
            if mar < 1e-9:
                return
            if ins:
                key = tuple(np.atleast_1d(seg))
                sums[key] = sums.get(key, 0) + s2[i]
                cnt[key] = cnt.get(key, 0) + 1
    g = patch(Galkin(model, k, dict(psf_type="GAUSSIAN", fwhm=0.3), COSMO, kwargs_numerics=dict(num)), None)
    sh = itertools.cycle(SHIFTS)
    g.displace_psf = lambda x, y: (lambda d: (x + d[0], y + d[1]))(next(sh))
    got = np.asarray(g.dispersion_map(mk, lk, ka, num_kin_sampling=len(STARS), num_psf_sampling=len(SHIFTS)))
    exp = np.full(np.zeros(g.num_segments).shape, np.nan)
    for key in sums:
        exp[key] = np.sqrt(sums[key] / cnt[key]) / 1000
    rec.same("mc-map", got, exp, 1e-9, what=name)
    # single dispersion: stars in order until the wanted number lies in the aperture
    sel = []
    sh = itertools.cycle(SHIFTS)
    st = itertools.cycle(range(len(STARS)))
    want = 60
    while len(sel) < want:
        i = next(st)
        d = next(sh)
        ins, seg, mar = where(k, STARS[i][2] + d[0], STARS[i][3] + d[1])
        if ins:
            sel.append(s2[i])
    g = patch(Galkin(model, k, dict(psf_type="GAUSSIAN", fwhm=0.3), COSMO, kwargs_numerics=dict(num)), None)
    sh2 = itertools.cycle(SHIFTS)
    g.displace_psf = lambda x, y: (lambda d: (x + d[0], y + d[1]))(next(sh2))
    rec.same("mc-dispersion", g.dispersion(mk, lk, ka, sampling_number=want), np.sqrt(np.mean(sel)) / 1000, 1e-9, what=name)
    rec.unchanged("args", args0, (mk, lk, ka), name)
    rec.trans(len(STARS) * len(SHIFTS))
    rec.trace()
    rec.state(name)


def history_case(which, only, tier, rec):
    """the same object asked for different parameters in any order answers like a fresh object"""
    X, Y = ifu(4, 4, 0.5, 0.0, 0.0, 0.0, 0)
    num = dict(interpol_grid_num=40, log_integration=True, max_integrate=50.0, min_integrate=1e-3)
    if which == "analytic":
        model = dict(anisotropy_model="OM")
        P = {"A": (dict(theta_E=1.0, gamma=2.0), dict(r_eff=0.8), dict(r_ani=1.0)), "B": (dict(theta_E=1.4, gamma=2.0), dict(r_eff=0.8), dict(r_ani=1.0)), "C": (dict(theta_E=1.0, gamma=1.8), dict(r_eff=1.3), dict(r_ani=0.4))}
    else:
        model = dict(mass_profile_list=["SPP"], light_profile_list=["HERNQUIST"], anisotropy_model="GOM")
        P = {"A": ([dict(theta_E=1.0, gamma=2.0)], [dict(Rs=0.5, amp=1.0)], dict(r_ani=1.0, beta_inf=0.5)), "B": ([dict(theta_E=1.4, gamma=2.0)], [dict(Rs=0.5, amp=1.0)], dict(r_ani=1.0, beta_inf=0.9)),
             "C": ([dict(theta_E=1.0, gamma=1.8)], [dict(Rs=0.9, amp=1.0)], dict(r_ani=0.4, beta_inf=0.5))}

    def new(ap):
        kap = dict(aperture_type="IFU_grid", x_grid=X, y_grid=Y) if ap == "grid" else dict(aperture_type="IFU_shells", r_bins=np.array([0, 0.7, 1.5]), center_ra=0, center_dec=0)
        cls = GalkinShells if ap == "shells" else Galkin
        return cls(model, kap, dict(psf_type="GAUSSIAN", fwhm=0.4), COSMO, kwargs_numerics=dict(num), analytic_kinematics=which == "analytic")

    def multi():
        return GalkinMultiObservation(model, [dict(aperture_type="slit", length=2, width=1, center_ra=0, center_dec=0, angle=0), dict(aperture_type="shell", r_in=0, r_out=1, center_ra=0, center_dec=0)],
                                      [dict(psf_type="GAUSSIAN", fwhm=0.4), dict(psf_type="GAUSSIAN", fwhm=0.8)], COSMO, kwargs_numerics=dict(num), analytic_kinematics=which == "analytic")
    methods = {"grid": (lambda: new("grid"), lambda g, p: g.dispersion_map_grid_convolved(*p, supersampling_factor=1)),
               "disp": (lambda: new("grid"), lambda g, p: g.dispersion(*p, sampling_number=20)),
               "map": (lambda: new("mcshells"), lambda g, p: g.dispersion_map(*p, num_kin_sampling=20, num_psf_sampling=5)),
               "df": (lambda: new("grid"), lambda g, p: g.check_df(0.7, *p)),
               "multi": (multi, lambda g, p: g.dispersion_map(*p, num_kin_sampling=20, num_psf_sampling=5))}
    if which != "analytic":
        methods["shells"] = (lambda: new("shells"), lambda g, p: g.dispersion_map(*p))
    groups = {only: only.split("+")}
    depth = 2 if tier == "quick" else 3
    fresh = {}
    for grp, ms in groups.items():
        ms = [m for m in ms if m in methods]
        if not ms:
            continue
        for seq in itertools.product(itertools.product(ms, "ABC"), repeat=depth):
            g = methods[ms[0]][0]()
            Q = copy.deepcopy(P)
            for m, p in seq:
                np.random.seed(11)
                q0 = snap(Q)
                got = methods[m][1](g, Q[p])
                rec.unchanged("args", q0, Q, "%s %s" % (which, seq))
            m, p = seq[-1]
            if (m, p) not in fresh:
                np.random.seed(11)
                fresh[m, p] = methods[m][1](methods[m][0](), copy.deepcopy(P[p]))
            rec.same("history:" + m, np.asarray(got, dtype=float), np.asarray(fresh[m, p], dtype=float), 1e-8, what="%s %s" % (which, seq))
            rec.trans(depth)
            rec.trace()
            rec.state("%s %s" % (which, seq))


# ---- the interface that selects profiles, apertures and back ends
ZL, ZS = 0.5, 1.5
CEN = dict(center_x=0.15, center_y=-0.1)
API_LENS = ["EPL", "SHEAR", "SIS", "POINT_MASS"]
API_LIGHT = ["HERNQUIST_ELLIPSE", "HERNQUIST"]
API_NUM = dict(interpol_grid_num=150, log_integration=True, max_integrate=100.0, min_integrate=1e-3)
API_SEE = dict(psf_type="GAUSSIAN", fwhm=0.4)


def api_kwargs(theta=1.0, rs=0.5):
    return ([dict(theta_E=theta, gamma=1.9, e1=0.1, e2=-0.05, **CEN), dict(gamma1=0.03, gamma2=-0.02), dict(theta_E=0.4, **CEN), dict(theta_E=0.1, **CEN)],
            [dict(Rs=rs, amp=2.0, e1=0.1, e2=0.05, **CEN), dict(Rs=1.4 * rs, amp=0.7, **CEN)])


def api_grid(nx=3, ny=3, d=0.5, off=(0.15, -0.1)):
    X, Y = np.meshgrid((np.arange(nx) - (nx - 1) / 2) * d + off[0], (np.arange(ny) - (ny - 1) / 2) * d + off[1])
    return dict(aperture_type="IFU_grid", x_grid=X, y_grid=Y)


def api_new(**over):
    kw = dict(z_lens=ZL, z_source=ZS, kwargs_model=dict(lens_model_list=API_LENS, lens_light_model_list=API_LIGHT), kwargs_aperture=api_grid(), kwargs_seeing=dict(API_SEE), anisotropy_model="OM",
              lens_model_kinematics_bool=[True, False, True, False], light_model_kinematics_bool=[True, True], kwargs_numerics_galkin=dict(API_NUM), kinematics_backend="galkin")
    kw.update(over)
    return KinematicsAPI(**kw)


def api_reference(kl, kll, ka, mb, lb, ap, see=API_SEE, kind="OM", kappa_ext=0.0):
    """the selected profiles, circularised and centred, straight in the Jeans solver"""
    cosmo = LensCosmo(ZL, ZS)
    ml = [n for n, b in zip(API_LENS, mb) if b]
    mk = [{k: (0.0 if k in ("e1", "e2") else v) for k, v in q.items()} for q, b in zip(kl, mb) if b]
    ll = [n for n, b in zip(API_LIGHT, lb) if b]
    lk = [{k: (0.0 if k in ("e1", "e2") else v) for k, v in q.items() if not k.startswith("center")} for q, b in zip(kll, lb) if b]
    g = Galkin(dict(mass_profile_list=ml, light_profile_list=ll, anisotropy_model=kind), ap, dict(see), dict(d_d=cosmo.dd, d_s=cosmo.ds, d_ds=cosmo.dds), kwargs_numerics=dict(API_NUM))
    return np.sqrt(1 - kappa_ext) * np.asarray(g.dispersion_map_grid_convolved(mk, lk, ka, supersampling_factor=4)).flatten()


MB = {"both": [True, False, True, False], "epl": [True, False, False, False], "sis": [False, False, True, False]}
LB = {"both": [True, True], "ell": [True, False], "round": [False, True]}


def api_select(tier, rec):
    ka = dict(r_ani=1.2)
    for (mn, mb), (ln, lb) in itertools.product(MB.items(), LB.items()):
        kl, kll = api_kwargs()
        a0 = snap((kl, kll, ka))
        ref = api_reference(kl, kll, ka, mb, lb, api_grid())
        for kext in (0.0, 0.1):
            a = api_new(lens_model_kinematics_bool=list(mb), light_model_kinematics_bool=list(lb) if ln != "both" else None)
            got = a.velocity_dispersion_map(kl, kll, ka, kappa_ext=kext, supersampling_factor=4)
            rec.same("select", np.asarray(got), ref * np.sqrt(1 - kext), 1e-8, what="mass %s light %s kappa_ext %g" % (mn, ln, kext))
            rec.trans()
        # expansions into Gaussians leave the dispersion as it is
        for mm, lm in ((True, False), (False, True), (True, True)):
            a = api_new(lens_model_kinematics_bool=list(mb), light_model_kinematics_bool=list(lb), MGE_mass=mm, MGE_light=lm)
            got = a.velocity_dispersion_map(kl, kll, ka, supersampling_factor=4)
            rec.same("mge", np.asarray(got), ref, 0.03, what="mass %s light %s MGE mass %s light %s" % (mn, ln, mm, lm))
            rec.trans()
        rec.unchanged("args", a0, (kl, kll, ka), "mass %s light %s" % (mn, ln))
        rec.state("%s %s" % (mn, ln))
    rec.trace()


def api_jampy(tier, rec):
    """both back ends answer alike for spherical models"""
    for (mn, mb), (ln, lb), (kind, ka) in itertools.product(MB.items(), LB.items(), (("isotropic", {}), ("OM", dict(r_ani=1.2)), ("const", dict(beta=0.3)))):
        if tier == "quick" and (mn == "both") != (ln == "both") and kind != "OM":
            continue
        kl, kll = api_kwargs()
        ref = api_reference(kl, kll, ka, mb, lb, api_grid(7, 7), kind=kind).reshape(7, 7)[2:5, 2:5]
        a = api_new(lens_model_kinematics_bool=list(mb), light_model_kinematics_bool=list(lb), anisotropy_model=kind, kinematics_backend="jampy")
        got = np.asarray(a.velocity_dispersion_map(kl, kll, ka, supersampling_factor=4)).reshape(3, 3)
        rec.same("backends", got, ref, 0.05, what="mass %s light %s %s" % (mn, ln, kind))
        rec.trans()
        rec.state("%s %s %s" % (mn, ln, kind))
        if kind == "isotropic":
            # a flattened model seen as spherical limit
            kr = [dict(q, **({"e1": 0.0, "e2": 0.0} if "e1" in q else {})) for q in kl]
            lr = [dict(q, **({"e1": 0.0, "e2": 0.0} if "e1" in q else {})) for q in kll]
            for sym in ("axi_sph", "axi_cyl"):
                a = api_new(lens_model_kinematics_bool=list(mb), light_model_kinematics_bool=list(lb), anisotropy_model=kind, kinematics_backend="jampy", axial_symmetry=sym)
                rec.same("axi-limit", np.asarray(a.velocity_dispersion_map(kr, lr, ka, supersampling_factor=4)).reshape(3, 3), got, 0.02, what="%s mass %s light %s" % (sym, mn, ln))
                rec.trans()
    rec.trace()


def api_jampy_frame(tier, rec):
    """axisymmetric models: shifting and rotating galaxy and aperture together leaves the dispersions as they are"""
    model = dict(lens_model_list=["EPL"], lens_light_model_list=["HERNQUIST_ELLIPSE"])

    def run(sym, e, phi, cen, kind, ka, psf="GAUSSIAN"):
        x, y = np.meshgrid(np.array([-0.8, -0.3, 0.2, 0.7]), np.array([-0.6, -0.1, 0.4]))
        c, s = np.cos(phi), np.sin(phi)
        X, Y = c * x - s * y + cen[0], s * x + c * y + cen[1]
        e1, e2 = e * np.cos(2 * phi), e * np.sin(2 * phi)
        ap = dict(aperture_type="IFU_grid", x_grid=X, y_grid=Y, angle=phi)
        a = KinematicsAPI(ZL, ZS, model, ap, dict(API_SEE), kind, kinematics_backend="jampy", axial_symmetry=sym)
        k = dict(e1=e1, e2=e2, center_x=cen[0], center_y=cen[1])
        return np.asarray(a.velocity_dispersion_map([dict(theta_E=1.0, gamma=2.0, **k)], [dict(Rs=0.5, amp=1.0, **k)], ka, theta_E=1.0, r_eff=0.9, supersampling_factor=2, inclination=80.0)).reshape(3, 4)
    for sym, (kind, ka), e in itertools.product(("axi_sph", "axi_cyl"), (("isotropic", {}), ("const", dict(beta=0.2)), ("OM", dict(r_ani=1.0))), (0.1,) if tier == "quick" else (0.1, -0.15)):
        if sym == "axi_cyl" and kind == "OM":
            continue  # radial orbits at large radii have no cylindrically aligned counterpart
        ref = run(sym, e, 0.0, (0.0, 0.0), kind, ka)
        rec.true("finite", bool(np.all(np.isfinite(ref)) and np.all(ref > 50) and np.all(ref < 600)), "%s %s e=%g %s" % (sym, kind, e, ref[0]))
        for phi, cen in ((0.0, (0.3, -0.2)), (0.6, (0.0, 0.0)), (-1.1, (0.2, 0.4))):
            rec.same("frame", run(sym, e, phi, cen, kind, ka), ref, 0.01, what="%s %s e=%g rotation %g centre %s" % (sym, kind, e, phi, cen))
            rec.trans()
        # mirror images about the axes of the galaxy
        rec.state("%s %s %g" % (sym, kind, e))
    rec.trace()


def api_multi(tier, rec):
    ka = dict(r_ani=1.2)
    aps = {"a": api_grid(), "b": api_grid(4, 3, 0.3, (0.0, 0.1)), "s": dict(aperture_type="IFU_shells", r_bins=np.array([0, 0.5, 1.2]), center_ra=0.15, center_dec=-0.1)}
    sees = {"a": dict(API_SEE), "b": dict(psf_type="GAUSSIAN", fwhm=0.8), "s": dict(psf_type="MOFFAT", fwhm=0.5, moffat_beta=3.0)}
    kl, kll = api_kwargs()
    kl2, kll2 = api_kwargs(1.2, 0.8)
    for be in ("galkin", "jampy"):
        single = {}
        for n, lq in itertools.product("abs", (0, 1)):
            if be == "jampy" and n == "s":
                continue
            a = api_new(kwargs_aperture=aps[n], kwargs_seeing=sees[n], kinematics_backend=be)
            single[n, lq] = np.asarray(a.velocity_dispersion_map(kl, (kll, kll2)[lq], ka, supersampling_factor=2, r_eff=0.9))
        for seq in [s for r in (1, 2, 3) for s in itertools.product("abs" if be == "galkin" else "ab", repeat=r)]:
            if r_skip(seq, tier, be):
                continue
            over = dict(kwargs_aperture=[copy.deepcopy(aps[n]) for n in seq], kwargs_seeing=[dict(sees[n]) for n in seq], multi_observations=True, kinematics_backend=be)
            got = api_new(**over).velocity_dispersion_map(kl, kll, ka, supersampling_factor=2, r_eff=0.9)
            rec.same("multi", np.asarray(got), np.concatenate([single[n, 0] for n in seq]), 1e-8, what="%s %s" % (be, seq))
            if len(seq) > 1:
                lights = [i % 2 for i in range(len(seq))]
                got = api_new(multi_light_profile=True, **over).velocity_dispersion_map(kl, [(kll, kll2)[i] for i in lights], ka, supersampling_factor=2, r_eff=0.9)
                rec.same("multi-light", np.asarray(got), np.concatenate([single[n, i] for n, i in zip(seq, lights)]), 1e-8, what="%s %s" % (be, seq))
            rec.trans(2)
            rec.state("%s %s" % (be, seq))
    rec.trace()


def r_skip(seq, tier, be):
    return tier == "quick" and len(seq) == 3 and (be == "jampy" or seq not in (("a", "b", "s"), ("s", "a", "b"), ("b", "a", "a")))


def api_history(tier, rec):
    """one interface object asked for different models, with and without black hole, answers like a fresh one"""
    P = {"A": (api_kwargs(), dict(r_ani=1.2)), "B": (api_kwargs(1.3, 0.8), dict(r_ani=0.5)), "C": (api_kwargs(0.8, 0.3), dict(r_ani=3.0))}
    for be, mb in (("galkin", [True, False, True, False]), ("jampy", [True, False, True, True])):
        def new():
            return api_new(kinematics_backend=be, lens_model_kinematics_bool=list(mb))

        def call(a, n):
            (kl, kll), ka = copy.deepcopy(P[n])
            return np.asarray(a.velocity_dispersion_map(kl, kll, ka, supersampling_factor=1))
        fresh = {n: call(new(), n) for n in P}
        for seq in itertools.product("ABC", repeat=2 if tier == "quick" else 3):
            a = new()
            for n in seq:
                got = call(a, n)
            rec.same("history-api", got, fresh[seq[-1]], 1e-9, what="%s %s" % (be, seq))
            rec.trans(len(seq))
            rec.state("%s %s" % (be, seq))
        rec.trace()
    # the central point mass is mass like any other
    (kl, kll), ka = copy.deepcopy(P["A"])
    big = [dict(q) for q in kl]
    big[3]["theta_E"] = 0.6
    for q in (kl, big):
        r = [np.asarray(api_new(kinematics_backend=be, lens_model_kinematics_bool=[True, False, True, b]).velocity_dispersion_map(q, kll, ka, supersampling_factor=4)).reshape(3, 3) for be in ("galkin", "jampy") for b in (False, True)]
        # gain by the black hole in the outer pixels, the same in both back ends
        for i, j in ((0, 0), (0, 1), (2, 2)):
            rec.same("black-hole", (r[3][i, j] / r[2][i, j]) ** 2 - 1, (r[1][i, j] / r[0][i, j]) ** 2 - 1, 0.35, 0.003, what="theta_E %g pixel %d %d" % (q[3]["theta_E"], i, j))
        rec.trans(4)


def api_settings(tier, rec):
    ka = dict(r_ani=1.2)
    kl, kll = api_kwargs()
    # number of Gaussians asked for
    for nm, nl in itertools.product((None, 6, 12), repeat=2):
        for be in ("galkin", "jampy"):
            a = api_new(kinematics_backend=be, MGE_mass=True, MGE_light=True, kwargs_mge_mass=None if nm is None else dict(n_comp=nm), kwargs_mge_light=None if nl is None else dict(n_comp=nl))
            _, km, ks = a.jam_model_settings(kl, kll)
            rec.true("mge-number", len(km[0]["amp"]) <= (nm or 20) and len(ks[0]["amp"]) <= (nl or 20), "%s asked %s %s got %d %d" % (be, nm, nl, len(km[0]["amp"]), len(ks[0]["amp"])))
            rec.trans()
    # settings changed afterwards act as if given at the start
    S = {"mge": dict(MGE_mass=True, MGE_light=True), "hern": dict(Hernquist_approx=True), "plain": dict(), "const": dict(anisotropy_model="const"), "num": dict(kwargs_numerics_galkin=dict(API_NUM, interpol_grid_num=60)), "ana": dict(analytic_kinematics=True)}

    def call(a, n):
        k = dict(beta=0.2) if n == "const" else ka
        return np.asarray(a.velocity_dispersion_map(copy.deepcopy(kl), copy.deepcopy(kll), k, supersampling_factor=1))
    fresh = {n: call(api_new(**v), n) for n, v in S.items()}
    for seq in itertools.product(S, repeat=1 if tier == "quick" else 2):
        a = api_new()
        for n in seq:
            a.kinematics_modeling_settings(**dict(dict(anisotropy_model="OM", kwargs_numerics_galkin=dict(API_NUM)), **S[n]))
            got = call(a, n)
        rec.same("settings", got, fresh[seq[-1]], 1e-9, what=str(seq))
        rec.trans(len(seq))
        rec.state(str(seq))
    rec.same("hernquist-approx", fresh["hern"], fresh["plain"], 0.08, what="Hernquist approximation of two similar Hernquist profiles")
    for bad in (dict(kinematics_backend="nosuch"), dict(axial_symmetry="nosuch"), dict(axial_symmetry="axi_sph"), dict(kinematics_backend="jampy", analytic_kinematics=True), dict(kinematics_backend="jampy", MGE_mass=False), dict(Hernquist_approx=True, MGE_light=True)):
        rec.raises("refuse", lambda: api_new(**bad), ValueError, str(bad))
    rec.trace()


def api_derived(tier, rec):
    """radii and slopes that were not given are those of the selected profiles"""
    from lenstronomy.LensModel.lens_model import LensModel

    lens, light = LensModel(API_LENS), LightModel(API_LIGHT)
    ph = np.arange(360) / 360 * 2 * np.pi
    for (mn, mb), (ln, lb), theta in itertools.product(MB.items(), LB.items(), (1.0, 0.8)):
        kl, kll = api_kwargs(theta=theta)
        im, il = [i for i, b in enumerate(mb) if b], [i for i, b in enumerate(lb) if b]

        def al(r):
            a = [lens.alpha(CEN["center_x"] + r * np.cos(ph), CEN["center_y"] + r * np.sin(ph), kl, k=i) for i in im]
            return sum(q[0] for q in a), sum(q[1] for q in a)

        def inside(r):
            ax, ay = al(r)
            return np.mean(ax * np.cos(ph) + ay * np.sin(ph)) / r
        lo, hi = 0.05, 5.0
        for _ in range(50):
            mid = (lo + hi) / 2
            lo, hi = (mid, hi) if inside(mid) > 1 else (lo, mid)
        d = 1e-3
        gam = 2 - np.mean(np.log(np.hypot(*al(lo + d)) / np.hypot(*al(lo - d))) / np.log((lo + d) / (lo - d)))
        g = (np.arange(400) - 199.5) * 0.025
        X, Y = (q.flatten() for q in np.meshgrid(g, g))
        I = sum(light.surface_brightness(X + CEN["center_x"], Y + CEN["center_y"], kll, k=i) for i in il)
        R = np.hypot(X, Y)
        o = np.argsort(R)
        rh = R[o][np.searchsorted(np.cumsum(I[o]), I.sum() / 2)]
        what = "mass %s light %s theta %g" % (mn, ln, theta)
        for mode in ("analytic", "hernquist"):
            over = dict(analytic_kinematics=True) if mode == "analytic" else dict(Hernquist_approx=True)
            a = api_new(lens_model_kinematics_bool=list(mb), light_model_kinematics_bool=list(lb), **over)
            for given in itertools.product((False, True), repeat=3):
                kg = {k: v for k, v, b in zip(("r_eff", "theta_E", "gamma"), (0.77, 0.9, 2.2), given) if b}
                _, km, ks = a.jam_model_settings(kl, kll, **kg)
                if mode == "analytic":
                    rec.same("derived-theta", km["theta_E"], kg.get("theta_E", lo), 0, 0.03, what=what + " given %s" % kg)
                    if "theta_E" not in kg:
                        rec.same("derived-gamma", km["gamma"], kg.get("gamma", gam), 0, 0.03, what=what + " given %s" % kg)
                    rec.same("derived-reff", ks["r_eff"], kg.get("r_eff", rh), 0.03, 0.03, what=what + " given %s" % kg)
                else:
                    rec.same("derived-hernquist", ks[0]["Rs"], 0.551 * kg.get("r_eff", rh), 0.03, 0.03, what=what + " given %s" % kg)
                rec.trans()
        rec.state(what)
    rec.trace()


API_APS = {"slit": dict(aperture_type="slit", length=1.6, width=0.7, center_ra=0.15, center_dec=-0.1, angle=0.5),
           "shell": dict(aperture_type="shell", r_in=0.2, r_out=0.9, center_ra=0.15, center_dec=-0.1),
           "frame": dict(aperture_type="frame", width_inner=0.5, width_outer=1.4, center_ra=0.15, center_dec=-0.1, angle=0.3)}


def api_galkin(kl, kll, mb, lb, ap, see, kind="OM"):
    cosmo = LensCosmo(ZL, ZS)
    ml = [n for n, b in zip(API_LENS, mb) if b]
    mk = [{k: (0.0 if k in ("e1", "e2") else v) for k, v in q.items()} for q, b in zip(kl, mb) if b]
    ll = [n for n, b in zip(API_LIGHT, lb) if b]
    lk = [{k: (0.0 if k in ("e1", "e2") else v) for k, v in q.items() if not k.startswith("center")} for q, b in zip(kll, lb) if b]
    g = Galkin(dict(mass_profile_list=ml, light_profile_list=ll, anisotropy_model=kind), dict(ap), dict(see), dict(d_d=cosmo.dd, d_s=cosmo.ds, d_ds=cosmo.dds), kwargs_numerics=dict(API_NUM))
    return g, mk, lk


def api_single(tier, rec):
    """one number per aperture: the selected profiles, the right aperture and seeing for each observation"""
    from lenstronomy.Analysis.td_cosmography import TDCosmography
    from astropy.cosmology import FlatLambdaCDM
    import lenstronomy.Util.constants as const

    N = 300
    ka = dict(r_ani=1.2)
    sees = {"slit": dict(psf_type="GAUSSIAN", fwhm=0.4), "shell": dict(psf_type="MOFFAT", fwhm=0.5, moffat_beta=3.0), "frame": dict(psf_type="GAUSSIAN", fwhm=0.8)}
    kls = {0: api_kwargs(), 1: api_kwargs(1.2, 0.8)}

    def ref(n, mb, lb, ql=0, qm=0, seed=5):
        g, mk, lk = api_galkin(kls[qm][0], kls[ql][1], mb, lb, API_APS[n], sees[n])
        if seed is not None:
            np.random.seed(seed)
        return g.dispersion(mk, lk, ka, sampling_number=N)
    for n, (mn, mb), (ln, lb) in itertools.product(API_APS, MB.items(), LB.items()):
        if tier == "quick" and n != "slit" and (mn == "both") == (ln == "both"):
            continue
        kl, kll = copy.deepcopy(kls[0])
        a0 = snap((kl, kll, ka))
        r = ref(n, mb, lb)
        for kext in (0.0, 0.19):
            a = api_new(kwargs_aperture=dict(API_APS[n]), kwargs_seeing=dict(sees[n]), lens_model_kinematics_bool=list(mb), light_model_kinematics_bool=list(lb), sampling_number=N)
            np.random.seed(5)
            got = a.velocity_dispersion(kl, kll, ka, kappa_ext=kext)
            rec.same("single", np.asarray(got).flatten(), np.atleast_1d(r * np.sqrt(1 - kext)), 1e-8, what="%s mass %s light %s kappa_ext %g" % (n, mn, ln, kext))
            rec.trans()
        rec.unchanged("single-args", a0, (kl, kll, ka), n)
        rec.state("single %s %s %s" % (n, mn, ln))
    # several observations one after the other (random numbers drawn in their order)
    mb, lb = MB["both"], LB["both"]
    for seq in [s for r in (1, 2, 3) for s in itertools.product(API_APS, repeat=r)]:
        if tier == "quick" and len(seq) == 3 and seq[::2] != ("frame", "slit"):
            continue
        over = dict(kwargs_aperture=[dict(API_APS[n]) for n in seq], kwargs_seeing=[dict(sees[n]) for n in seq], multi_observations=True, sampling_number=N)
        for lights in ([0] * len(seq), [i % 2 for i in range(len(seq))], [1] * len(seq)):
            multi = len(set(lights)) > 1
            np.random.seed(5)
            want = np.array([ref(n, mb, lb, q, seed=None) for n, q in zip(seq, lights)])
            np.random.seed(5)
            light = [copy.deepcopy(kls[q][1]) for q in lights] if multi else copy.deepcopy(kls[lights[0]][1])
            got = api_new(multi_light_profile=multi, **over).velocity_dispersion(copy.deepcopy(kls[0][0]), light, ka, r_eff=None if multi else 0.9)
            rec.same("single-multi", np.asarray(got), want, 1e-8, what="%s lights %s" % (seq, lights))
            rec.trans()
        rec.state("single multi %s" % (seq,))
    # closed form for a power law in a Hernquist profile
    for n, (te, ga, re, ra), kext in itertools.product(API_APS, ((1.0, 2.0, 0.8, 1.0), (1.3, 1.8, 1.5, 0.6)), (0.0, 0.19)):
        cosmo = LensCosmo(ZL, ZS)
        g = Galkin(dict(anisotropy_model="OM"), dict(API_APS[n]), dict(sees[n]), dict(d_d=cosmo.dd, d_s=cosmo.ds, d_ds=cosmo.dds), kwargs_numerics={}, analytic_kinematics=True)
        np.random.seed(7)
        want = g.dispersion(dict(theta_E=te, gamma=ga), dict(r_eff=re), dict(r_ani=ra), sampling_number=N) * np.sqrt(1 - kext)
        np.random.seed(7)
        over = dict(kwargs_aperture=dict(API_APS[n]), kwargs_seeing=dict(sees[n]), sampling_number=N)
        got = api_new(**over).velocity_dispersion_analytical(te, ga, re, ra, kappa_ext=kext)
        rec.same("single-analytic", np.asarray(got).flatten(), np.atleast_1d(want), 1e-9, what="%s %s" % (n, (te, ga, re, ra)))
        np.random.seed(7)
        over["kwargs_aperture"] = {k: v for k, v in API_APS[n].items()}
        got = api_new(analytic_kinematics=True, **over).velocity_dispersion(*copy.deepcopy(kls[0]), dict(r_ani=ra), r_eff=re, theta_E=te, gamma=ga, kappa_ext=kext)
        # other limits of the radial integrals
        rec.same("single-analytic-mode", np.asarray(got).flatten(), np.atleast_1d(want), 1e-3, what="%s %s" % (n, (te, ga, re, ra)))
        rec.trans(2)
    # dimensionless dispersion: no dependence on the assumed cosmology
    model = dict(lens_model_list=API_LENS, lens_light_model_list=API_LIGHT)
    for n, H0 in itertools.product(API_APS, (50.0, 70.0) if tier != "quick" else (60.0,)):
        J = []
        for om in (0.3, 0.6):
            td = TDCosmography(ZL, ZS, kwargs_model=model, cosmo_fiducial=FlatLambdaCDM(H0=H0, Om0=om), lens_model_kinematics_bool=list(mb), light_model_kinematics_bool=list(lb), kwargs_seeing=dict(sees[n]), kwargs_aperture=dict(API_APS[n]), kinematics_backend="galkin")
            td.kinematics_modeling_settings("OM", kwargs_numerics_galkin=dict(API_NUM), sampling_number=N)
            np.random.seed(5)
            J.append(float(np.squeeze(td.velocity_dispersion_dimension_less(*copy.deepcopy(kls[0]), ka))))
            np.random.seed(5)
            s = float(np.squeeze(td.velocity_dispersion(*copy.deepcopy(kls[0]), ka)))
            lc = LensCosmo(ZL, ZS, cosmo=FlatLambdaCDM(H0=H0, Om0=om))
            rec.same("dimensionless", J[-1], (s * 1000 / const.c) ** 2 * lc.dds / lc.ds, 1e-8, what="%s H0 %g Om %g" % (n, H0, om))
            rec.same("dimensionless-inverse", td.ds_dds_from_kinematics(s, J[-1]), lc.ds / lc.dds, 1e-8, what="%s H0 %g Om %g" % (n, H0, om))
            rec.trans(2)
        rec.same("cosmology-free", J[1], J[0], 1e-6, what="%s H0 %g" % (n, H0))
    for be, H0 in itertools.product(("galkin", "jampy"), (50.0, 70.0)):
        J = []
        for om in (0.3, 0.6):
            lc = LensCosmo(ZL, ZS, cosmo=FlatLambdaCDM(H0=H0, Om0=om))
            td = TDCosmography(ZL, ZS, kwargs_model=model, cosmo_fiducial=FlatLambdaCDM(H0=H0, Om0=om), lens_model_kinematics_bool=list(mb), light_model_kinematics_bool=list(lb), kwargs_seeing=dict(API_SEE), kwargs_aperture=api_grid(), kinematics_backend=be, anisotropy_model="OM", kwargs_numerics_galkin=dict(API_NUM))
            s = np.asarray(td.velocity_dispersion_map(*copy.deepcopy(kls[0]), ka, supersampling_factor=2))
            J.append(np.asarray(td.velocity_dispersion_map_dimension_less(*copy.deepcopy(kls[0]), ka, supersampling_factor=2)))
            rec.same("dimensionless-map", J[-1], (s * 1000 / const.c) ** 2 * lc.dds / lc.ds, 1e-8, what="%s H0 %g Om %g" % (be, H0, om))
            rec.trans(2)
        rec.same("cosmology-free-map", J[1], J[0], 1e-6, what="%s H0 %g" % (be, H0))
    rec.trace()


def api_jampy_single(tier, rec):
    """the other back end on single apertures, on binned spectra and with a sampled seeing kernel"""
    ka = dict(r_ani=1.2)
    see = dict(psf_type="GAUSSIAN", fwhm=0.4)
    N = 4000 if tier == "quick" else 20000
    for n, (mn, mb), (ln, lb) in itertools.product(API_APS, MB.items(), LB.items()):
        if tier == "quick" and (mn == "both") != (ln == "both"):
            continue
        kl, kll = api_kwargs()
        g, mk, lk = api_galkin(kl, kll, mb, lb, API_APS[n], see)
        want = g.dispersion(mk, lk, ka, sampling_number=N)
        for kext in (0.0, 0.19):
            a = api_new(kwargs_aperture=dict(API_APS[n]), kwargs_seeing=dict(see), lens_model_kinematics_bool=list(mb), light_model_kinematics_bool=list(lb), kinematics_backend="jampy")
            got = a.velocity_dispersion(kl, kll, ka, kappa_ext=kext)
            rec.same("jampy-single", np.asarray(got).flatten(), np.atleast_1d(want * np.sqrt(1 - kext)), 0.06, what="%s mass %s light %s kappa_ext %g" % (n, mn, ln, kext))
            rec.trans()
        rec.state("jampy single %s %s %s" % (n, mn, ln))
    rec.trace()


API = {"single": api_single, "jampysingle": api_jampy_single, "derived": api_derived, "select": api_select, "jampy": api_jampy, "frame": api_jampy_frame, "multi": api_multi, "history": api_history, "settings": api_settings}


def cases(tier):
    out = ["aniso|" + k for k in ANI]
    out += ["aperture|" + a for a in sorted(APERTURES)]
    out += ["psf", "lighthistory", "analytic", "shells"]
    out += ["light|" + k for k in LIGHTS]
    out += ["jeans|%s|%s" % (m, l) for m in MASSES for l in ("hernquist", "multigauss", "two")]
    out += ["history|%s|%s" % (w, g) for w in ("numeric", "analytic") for g in ("grid+disp+df", "map", "multi", "shells")]
    out += ["api|" + a for a in API]
    out += ["mc|" + a for a in sorted(APERTURES) if a != "general"]
    for psf in ("GAUSSIAN", "MOFFAT", "PIXEL"):
        for flip, (nx, ny), (cx, cy) in itertools.product((0, 1), ((5, 5), (6, 4), (3, 5)), ((0.0, 0.0), (0.3, -0.2))):
            if tier == "quick" and psf == "MOFFAT" and (flip or cx):
                continue
            out.append("grid|%d|%d|%d|%g|%g|%s" % (flip, nx, ny, cx, cy, psf))
    return out


def run_case(cid, tier, rec):
    p = cid.split("|")
    if p[0] == "aniso":
        aniso_case(p[1], tier, rec)
    elif p[0] == "aperture":
        aperture_case(p[1], tier, rec)
    elif p[0] == "psf":
        psf_case(tier, rec)
    elif p[0] == "light":
        light_case(p[1], tier, rec)
    elif p[0] == "lighthistory":
        light_history(tier, rec)
    elif p[0] == "jeans":
        jeans_case(p[1], p[2], tier, rec)
    elif p[0] == "analytic":
        analytic_case(tier, rec)
    elif p[0] == "shells":
        shells_case(tier, rec)
    elif p[0] == "mc":
        montecarlo_case(p[1], tier, rec)
    elif p[0] == "history":
        history_case(p[1], p[2], tier, rec)
    elif p[0] == "api":
        API[p[1]](tier, rec)
    elif p[0] == "grid":
        grid_case(int(p[1]), int(p[2]), int(p[3]), float(p[4]), float(p[5]), p[6], tier, rec)
