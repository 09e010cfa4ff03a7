"""P08: point-spread-function kernels depend on the definition and the current pixel size, not on earlier queries.

All sequences of kernel queries (four supersampling factors, with and without caching) and pixel-size changes on one PSF object for
every way of defining one; each answer is compared with a newly built PSF and with an independent area-overlap rebinning.
"""
import itertools

import numpy as np

from lenstronomy.Data.psf import PSF
from lenstronomy.Util import kernel_util
from vmc.core import snap


def shape(n, s=2.1, e=0.3, tot=1.0):
    g = np.arange(n) - (n - 1) / 2.0
    x, y = np.meshgrid(g, g)
    k = np.exp(-(x ** 2 * (1 + e) + y ** 2 * (1 - e) + 0.4 * x * y) / (2 * s ** 2)) + 0.004 * np.exp(-np.abs(x - 1) / 2 - np.abs(y + 1) / 3)
    return k / k.sum() * tot


def rebin(k, f):
    """sum of flux falling in each pixel of f times the size, centred on the same point (area overlap)"""
    n = len(k)
    c = (n - 1) // 2
    half = int(np.ceil((c + 0.5) / f + 0.5))
    m = 2 * half + 1
    W = np.zeros((m, n))
    for a in range(m):
        lo, hi = (a - half) * f - f / 2.0, (a - half) * f + f / 2.0
        for j in range(n):
            W[a, j] = max(0.0, min(hi, j - c + 0.5) - max(lo, j - c - 0.5))
    return W @ k @ W.T


def crop(a, b):
    """both odd-sized centred arrays on the larger grid"""
    n = max(len(a), len(b))
    out = []
    for k in (a, b):
        z = np.zeros((n, n))
        d = (n - len(k)) // 2
        z[d:d + len(k), d:d + len(k)] = k
        out.append(z)
    return out


def width(k):
    g = np.arange(len(k)) - (len(k) - 1) / 2.0
    x, y = np.meshgrid(g, g)
    t = k.sum()
    mx, my = (k * x).sum() / t, (k * y).sum() / t
    return [(k * (x - mx) ** 2).sum() / t, (k * (y - my) ** 2).sum() / t]


CONFIGS = {
    "pix1-3": (dict(psf_type="PIXEL", kernel_point_source=shape(3, 0.8, tot=2.5), pixel_size=0.1), 0.1, 1),
    "pix1-5": (dict(psf_type="PIXEL", kernel_point_source=shape(5, 1.2, tot=2.5), pixel_size=0.1), 0.1, 1),
    "pix5": (dict(psf_type="PIXEL", kernel_point_source=shape(35, 8, tot=2.5), point_source_supersampling_factor=5, pixel_size=0.1), 0.1, 1),
    "none": (dict(psf_type="NONE"), None, 1),
    "gauss": (dict(psf_type="GAUSSIAN", fwhm=0.3, truncation=3, pixel_size=0.1), 0.1, 1),
    "gauss-late": (dict(psf_type="GAUSSIAN", fwhm=0.25, truncation=4), None, 1),
    "pix1": (dict(psf_type="PIXEL", kernel_point_source=shape(9, tot=2.5), pixel_size=0.1), 0.1, 1),
    "pix1-raw": (dict(psf_type="PIXEL", kernel_point_source=shape(9, tot=2.5), kernel_point_source_normalisation=False, pixel_size=0.1), 0.1, 2.5),
    "pix1-even": (dict(psf_type="PIXEL", kernel_point_source=shape(8, tot=2.5), pixel_size=0.1), 0.1, 1),
    "pix2": (dict(psf_type="PIXEL", kernel_point_source=shape(17, 4, tot=2.5), point_source_supersampling_factor=2, pixel_size=0.1), 0.1, 1),
    "pix3": (dict(psf_type="PIXEL", kernel_point_source=shape(21, 5, tot=2.5), point_source_supersampling_factor=3, pixel_size=0.1), 0.1, 1),
    "pix3-raw": (dict(psf_type="PIXEL", kernel_point_source=shape(21, 5, tot=2.5), point_source_supersampling_factor=3, kernel_point_source_normalisation=False, pixel_size=0.1), 0.1, 2.5),
    "pix3-even": (dict(psf_type="PIXEL", kernel_point_source=shape(22, 5, tot=2.5), point_source_supersampling_factor=3, pixel_size=0.1), 0.1, 1),
    "pix3-var": (dict(psf_type="PIXEL", kernel_point_source=shape(21, 5, tot=2.5), point_source_supersampling_factor=3, psf_variance_map=np.outer(np.arange(1, 10), np.arange(2, 11)) * 1e-3, pixel_size=0.1), 0.1, 1),
    "pix1-var": (dict(psf_type="PIXEL", kernel_point_source=shape(9, tot=2.5), psf_variance_map=np.outer(np.arange(1, 6), np.arange(2, 7)) * 1e-3, pixel_size=0.1), 0.1, 1),
    "pix1-var-raw": (dict(psf_type="PIXEL", kernel_point_source=shape(9, tot=2.5), kernel_point_source_normalisation=False, psf_variance_map=np.outer(np.arange(1, 14), np.arange(2, 15)) * 1e-3, pixel_size=0.1), 0.1, 2.5),
}
SIZES = {"size.1": 0.1, "size.2": 0.2}
OPS = ["kernel", "pixel", "var", "fwhm", "super1", "super2", "super3", "super5", "super2n", "super3n"] + list(SIZES)


def query(p, op):
    if op == "kernel":
        return p.kernel_point_source
    if op == "pixel":
        return p.kernel_pixel
    if op == "var":
        return p.psf_variance_map
    if op == "fwhm":
        return p.fwhm
    f = int(op[5])
    return p.kernel_point_source_supersampled(f, updata_cache=not op.endswith("n"))


MEMO = {}


def fresh(cfg, size, op):
    key = (cfg, size, op)
    if key not in MEMO:
        p = PSF(**snap(CONFIGS[cfg][0]))
        if size is not None:
            p.set_pixel_size(size)
        MEMO[key] = snap(query(p, op))
    return MEMO[key]


def history_case(cfg, tier, rec, first):
    kw, size0, _ = CONFIGS[cfg]
    depth = 4 if tier == "quick" else 5
    for d in range(1, depth + 1):
        for rest in itertools.product(OPS, repeat=d - 1):
            seq = (first,) + rest
            if any(a == b for a, b in zip(seq, seq[1:])) and d > 3:
                continue
            if d == depth and not seq[-1].startswith(("super", "kernel", "pixel")):
                continue
            args = snap(kw)
            p = PSF(**args)
            size = size0
            held = []
            ok = True
            for i, op in enumerate(seq):
                if op in SIZES:
                    size = SIZES[op]
                    p.set_pixel_size(size)
                    rec.trans()
                    continue
                if size is None and (cfg == "gauss-late" or op == "fwhm"):
                    ok = False
                    break
                if cfg == "none" and op == "fwhm":
                    continue
                got = query(p, op)
                if i == len(seq) - 1 or d <= 2:
                    rec.same("history|%s|%s" % (cfg, op), got, fresh(cfg, size, op), 1e-10, 1e-13, what="history %s" % ">".join(seq[:i + 1]))
                held.append((op, got, size))
                rec.trans()
            for op, got, s in held:
                if d <= 3:
                    rec.same("result-kept|%s|%s" % (cfg, op), got, fresh(cfg, s, op), 1e-10, 1e-13, what="an answer given earlier stays what it was, history %s" % ">".join(seq))
            rec.unchanged("args", kw, args)
            rec.trace()
            if ok:
                rec.state(">".join(seq) if d <= 3 else str(hash(seq)))


def meaning_case(cfg, rec):
    kw, size0, norm = CONFIGS[cfg]
    even = cfg.endswith("even")
    for size in (0.1, 0.2):
        p = PSF(**snap(kw))
        p.set_pixel_size(size)
        k = p.kernel_point_source
        rec.true("odd", k.shape[0] == k.shape[1] and len(k) % 2 == 1, "kernel shape %s" % (k.shape,))
        if kw["psf_type"] == "GAUSSIAN":
            n = len(k)
            rec.same("gauss-size", n, 2 * max(round(kw["truncation"] * kw["fwhm"] / 2.3548200450309493 / size), 1) + 1, what="size %s" % size)
        rec.same("norm", k.sum(), norm, 1e-10, what=cfg)
        rec.same("norm-pixel", p.kernel_pixel.sum(), norm, 1e-10, what=cfg)
        init = kw.get("point_source_supersampling_factor", 1)
        rec.same("init-factor", p.point_source_supersampling_factor, init)
        if kw["psf_type"] == "PIXEL" and init == 1 and not even:
            rec.same("input", k, np.asarray(kw["kernel_point_source"]) * norm / np.sum(kw["kernel_point_source"]), 1e-10, what=cfg)
        for f in (1, 2, 3, 5):
            s = p.kernel_point_source_supersampled(f)
            rec.same("norm-super", s.sum(), norm, 1e-10, what="%s factor %d" % (cfg, f))
            rec.true("odd-super", s.shape[0] == s.shape[1] and len(s) % 2 == 1, "kernel shape %s factor %d" % (s.shape, f))
            if f == 1:
                rec.same("super1", s, k)
            elif kw["psf_type"] == "PIXEL" and f != init:
                # the same extent on the sky, and the same width
                rec.same("super-size", len(s), len(k) * f - (len(k) * f % 2 == 0), what="%s factor %d" % (cfg, f))
                if len(k) > 5:
                    rec.same("super-width", [q / f ** 2 for q in width(s)], width(k), 0.12, 0.02, what="%s factor %d" % (cfg, f))
            if f == init and f > 1:
                if not even:
                    rec.same("super-input", s, np.asarray(kw["kernel_point_source"]) * norm / np.sum(kw["kernel_point_source"]), 1e-10, what=cfg)
                a, b = crop(rebin(s, f), k)
                rec.same("super-bins", a, b, 1e-9, 1e-12, what="%s: supersampled kernel binned to pixels" % cfg)
            elif kw["psf_type"] == "PIXEL" and f in (3, 5):
                a, b = crop(rebin(s, f), k)
                rec.same("super-bins", a, b, 1e-9, 1e-12, what="%s factor %d: supersampled kernel binned to pixels" % (cfg, f))
            elif kw["psf_type"] == "GAUSSIAN":
                n = len(s)
                g = (np.arange(n) - (n - 1) / 2.0) * size / f
                sig = kw["fwhm"] / 2.3548200450309493
                e = np.exp(-g ** 2 / 2 / sig ** 2)
                w = np.outer(e, e)
                rec.same("gauss", s, w / w.sum(), 1e-9, 1e-14, what="size %s factor %d" % (size, f))
            rec.trans()
        if kw["psf_type"] == "GAUSSIAN":
            rec.same("fwhm", p.fwhm, kw["fwhm"])
        var = kw.get("psf_variance_map")
        rec.same("var-flag", p.psf_variance_map_bool, var is not None)
        v = p.psf_variance_map
        rec.same("var-shape", list(v.shape), list(k.shape))
        if var is None:
            rec.same("var-zero", v, np.zeros(k.shape))
        else:
            scale = 1.0 / np.sum(kw["kernel_point_source"]) ** 2 if kw.get("kernel_point_source_normalisation", True) else 1.0
            nv, nk = len(var), len(k)
            d = (nv - nk) // 2
            want = var[d:d + nk, d:d + nk] if nv >= nk else crop(var, k)[0]
            rec.same("var", v, want * scale, 1e-10, what=cfg)
        rec.trace()
        rec.state("%s%s" % (cfg, size))
        rec.outcome(k)


def util_case(rec):
    """kernel utilities on all sizes: flux conservation, binning, cutting, matching, splitting"""
    for n in range(3, 20, 2):
        for tot in (1.0, 2.5):
            k = shape(n, n / 4.0, tot=tot)
            for f in range(1, 6):
                k0 = k.copy()
                d = kernel_util.degrade_kernel(k, f)
                a, b = crop(rebin(k, f), d)
                rec.same("degrade", a, b, 1e-9, 1e-12, what="size %d factor %d" % (n, f))
                if f > 1:
                    for ks in (1, 3, 5):
                        low, high = kernel_util.split_kernel(k, ks, f)
                        rec.same("split-sum", low.sum() + high.sum(), tot, 1e-9, what="size %d part %d factor %d" % (n, ks, f))
                        z = crop(rebin(high, f), low)
                        w = crop(z[0] + z[1], rebin(k, f))
                        rec.same("split", w[0], w[1], 1e-9, 1e-12, what="size %d part %d factor %d" % (n, ks, f))
                        rec.trans()
                s = kernel_util.subgrid_kernel(k, f, odd=True, num_iter=3)
                rec.true("subgrid-odd", len(s) % 2 == 1)
                if f % 2 == 1:
                    rec.same("subgrid-norm", s.sum(), tot, 1e-9, what="size %d factor %d" % (n, f))
                    if f == 1 or tot == 1.0:
                        a, b = crop(rebin(s, f), k)
                        rec.same("subgrid-bins", a, b, 1e-9, 1e-12, what="size %d factor %d" % (n, f))
                rec.unchanged("kernel", k0, k)
                rec.trans(3)
            for m in range(1, n + 1, 2):
                k0 = k.copy()
                c = kernel_util.cut_psf(k, m)
                d = (n - m) // 2
                part = k[d:n - d, d:n - d]
                rec.same("cut", c, part / part.sum(), 1e-10, what="%d to %d" % (n, m))
                rec.unchanged("cut-kernel", k0, k)
                rec.trans()
            for m in range(1, 24, 2):
                c = kernel_util.match_kernel_size(k, m)
                want = k[(n - m) // 2:(n + m) // 2, (n - m) // 2:(n + m) // 2] if m <= n else crop(k, np.zeros((m, m)))[0]
                rec.same("match", c, want, what="%d to %d" % (n, m))
                rec.trans()
        rec.trace()
        rec.state(n)
        rec.outcome(k)
    # cutting a star out of an image at every integer position, including those whose cut-out leaves the image
    im = np.arange(81, dtype=float).reshape(9, 9) ** 1.3
    for ks in (3, 5, 7):
        h = (ks - 1) // 2
        big = np.zeros((9 + 2 * h, 9 + 2 * h))
        big[h:9 + h, h:9 + h] = im
        for x in range(9):
            for y in range(9):
                c = kernel_util.cutout_source(float(x), float(y), im, ks, shift=False)
                rec.same("cutout", c, big[y:y + ks, x:x + ks], what="size %d at (%d,%d)" % (ks, x, y))
                rec.trans()
    # shifting by whole pixels moves the kernel, de-shifting a fractional shift keeps flux
    for sx in (-2, -1, 0, 1, 2):
        for sy in (-2, -1, 0, 1, 2):
            k = np.zeros((11, 11))
            k[4:7, 4:7] = shape(3, 1.0)
            s = kernel_util.de_shift_kernel(k, float(sx), float(sy))
            rec.same("shift-int", s, np.roll(k, (sy, sx), (0, 1)), 1e-8, 1e-10, what="shift %d %d" % (sx, sy))
            rec.trans()


def cases(tier):
    return ["util"] + ["meaning|%s" % c for c in CONFIGS] + ["history|%s|%s" % (c, op) for c in CONFIGS for op in OPS]


def run_case(case, tier, rec):
    if case == "util":
        return util_case(rec)
    p = case.split("|")
    if p[0] == "meaning":
        return meaning_case(p[1], rec)
    history_case(p[1], tier, rec, p[2])
