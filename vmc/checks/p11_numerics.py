"""P11: surface brightness is pixelised, averaged and convolved as declared, for every numerical option; point sources are stamped right.

Every combination of the numerical options on small frames (all positions of a square evaluation window, regular and adaptive
sampling, convolution methods, kernel cuts and splits) is compared with a brute-force evaluation written out here; all sequences of
calls on one object; all 512 masks of a 3x3 frame; all point-source positions of a fine lattice in and around the frame.
"""
import itertools

import numpy as np

from lenstronomy.Data.pixel_grid import PixelGrid
from lenstronomy.Data.psf import PSF
from lenstronomy.ImSim.Numerics.adaptive_numerics import AdaptiveConvolution
from lenstronomy.ImSim.Numerics.convolution import (FWHMGaussianConvolution, MGEConvolution, MultiGaussianConvolution,
                                                    PixelKernelConvolution, SubgridKernelConvolution)
from lenstronomy.ImSim.Numerics.numba_convolution import NumbaConvolution, SubgridNumbaConvolution
from lenstronomy.ImSim.Numerics.numerics import Numerics
from lenstronomy.ImSim.Numerics.numerics_subframe import NumericsSubFrame
from lenstronomy.ImSim.Numerics.partial_image import PartialImage
from lenstronomy.Util import kernel_util
from vmc.core import snap

N = 5
M1 = np.array([[0.11, 0.02], [-0.03, 0.09]])
M2 = np.array([[-0.07, 0.05], [0.05, 0.07]])
FRAMES = {"sheared": (M1, 0.4, -0.3), "flipped": (M2, -0.1, 0.2)}


def f_a(x, y):
    return 2 + np.sin(5 * x + 0.3) * np.cos(4 * y) + 3 * x * y + 0.7 * x


def f_b(x, y):
    return np.exp(-(x - 0.2) ** 2 - 2 * (y + 0.1) ** 2) * 5 + y


def asym(n, seed=0):
    g = np.arange(n * n, dtype=float).reshape(n, n)
    k = 1 + np.sin(1.7 * g + seed) * 0.5
    k += 6 * np.exp(-((np.arange(n) - n // 2)[:, None] ** 2 + (np.arange(n) - n // 2)[None, :] ** 2) / (n / 3.0) ** 2)
    return k / k.sum()


PSFS = {
    "none": lambda: PSF(psf_type="NONE"),
    "p1": lambda: PSF(psf_type="PIXEL", kernel_point_source=np.ones((1, 1))),
    "p3": lambda: PSF(psf_type="PIXEL", kernel_point_source=asym(3)),
    "p5": lambda: PSF(psf_type="PIXEL", kernel_point_source=asym(5)),
    "p7": lambda: PSF(psf_type="PIXEL", kernel_point_source=asym(7)),
    "p15s3": lambda: PSF(psf_type="PIXEL", kernel_point_source=asym(15), point_source_supersampling_factor=3),
    "p13s3": lambda: PSF(psf_type="PIXEL", kernel_point_source=asym(13), point_source_supersampling_factor=3),
    "p11s2": lambda: PSF(psf_type="PIXEL", kernel_point_source=asym(11), point_source_supersampling_factor=2),
    "g": lambda: PSF(psf_type="GAUSSIAN", fwhm=0.2, pixel_size=0.1, truncation=3),
}


def grid(frame, n=N):
    m, ra, dec = FRAMES[frame]
    return PixelGrid(n, n, m, ra, dec)


# ------------------------------------------------------------------ reference
def direct(image, kernel):
    """zero padded convolution, same size as the image; the kernel has odd sides"""
    ky, kx = kernel.shape
    ry, rx = ky // 2, kx // 2
    h, w = image.shape
    out = np.zeros((h + 2 * ry, w + 2 * rx))
    for a in range(ky):
        for b in range(kx):
            out[a:a + h, b:b + w] += kernel[a, b] * image
    return out[ry:ry + h, rx:rx + w]


def gaussian1d(a, sigma, trunc):
    r = int(trunc * sigma + 0.5)
    t = np.arange(-r, r + 1)
    g = np.exp(-t ** 2 / (2 * sigma ** 2))
    g /= g.sum()
    n = a.shape[0]
    out = np.zeros_like(a)
    for i in range(n):
        for w, d in zip(g, t):
            out[i] += w * a[min(max(i + d, 0), n - 1)]
    return out


def gaussian2d(a, sigma, trunc):
    return gaussian1d(gaussian1d(a, sigma, trunc).T, sigma, trunc).T


def subsampled(frame, f, s, n=N, off=(0, 0)):
    """surface brightness on the sub-pixel lattice, as image [row, column]; off = (row, column) of the first pixel"""
    m, ra, dec = FRAMES[frame]
    p = (np.arange(n * s) + 0.5) / s - 0.5
    x, y = np.meshgrid(p + off[1], p + off[0])
    return f(m[0, 0] * x + m[0, 1] * y + ra, m[1, 0] * x + m[1, 1] * y + dec)


def average(im, s):
    n, k = im.shape[0] // s, im.shape[1] // s
    out = np.zeros((n, k))
    for a in range(s):
        for b in range(s):
            out += im[a::s, b::s]
    return out / s ** 2


def cut(kernel, size):
    if size is None:
        return kernel
    c, r = len(kernel) // 2, size // 2
    return kernel[c - r:c + r + 1, c - r:c + r + 1]


def odd(n):
    return n if n % 2 else n + 1


def pixel_area(frame):
    m = FRAMES[frame][0]
    return abs(np.linalg.det(m))


class NotPossible(Exception):
    pass


def reference(frame, f, psf, opt, n=N, off=(0, 0)):
    """image of one frame of n x n pixels under the declared options"""
    s = opt["s"]
    ev = opt["eval"] if opt["eval"] is not None else np.ones((n, n), bool)
    up = lambda m: np.repeat(np.repeat(m, s, 0), s, 1)
    high = subsampled(frame, f, s, n, off) * up(ev)
    low = average(high, s)
    if opt["mode"] == "adaptive":
        sup = opt["sup"] if opt["sup"] is not None else np.zeros((n, n), bool)
        low = np.where(sup, low, subsampled(frame, f, 1, n, off) * ev)
    area = pixel_area(frame)
    if opt.get("unconvolved") or psf.psf_type == "NONE":
        return low * area
    sconv = opt["sconv"] and s > 1
    if psf.psf_type == "GAUSSIAN":
        sigma = psf.fwhm / (2 * np.sqrt(2 * np.log(2))) / np.sqrt(area)
        t = opt["trunc"] or psf.truncation
        im = average(gaussian2d(high, sigma * s, t), s) if sconv else gaussian2d(low, sigma, t)
        return im * area
    if not sconv:
        return direct(low, cut(psf.kernel_point_source, opt["kcut"])) * area
    ks = psf.kernel_point_source_supersampled(s)
    if opt["kcut"] is not None:
        ks = kernel_util.cut_psf(ks, odd(opt["kcut"] * s), normalisation=False)
    if opt["mode"] == "regular":
        if opt["ksplit"] is None:
            return average(direct(high, ks), s) * area
        k_low, k_high = kernel_util.split_kernel(ks, opt["ksplit"], s)
        return (average(direct(high, k_high), s) + direct(low, k_low)) * area
    k = kernel_util.degrade_kernel(ks, s)
    inner = odd((opt["ksplit"] if opt["ksplit"] is not None else len(k)) * s)
    k_high = cut(ks, inner) if inner < len(ks) else ks
    hs, ls = high * up(sup), low * sup
    im = direct(low, k) + average(direct(hs, k_high), s) - direct(ls, kernel_util.degrade_kernel(k_high, s))
    return im * area


# ------------------------------------------------------------------ option enumeration
def windows():
    """None and every square window of the frame (with some of its interior pixels switched off)"""
    yield None
    for size in (2, 3, 4, 5):
        for r in range(N - size + 1):
            for c in range(N - size + 1):
                m = np.zeros((N, N), bool)
                m[r:r + size, c:c + size] = True
                if size >= 3:
                    m[r + 1, c + size - 2] = False
                yield m


def sup_masks():
    g = np.arange(N * N).reshape(N, N)
    yield "none", None
    yield "all", np.ones((N, N), bool)
    yield "third", g % 3 == 0
    yield "corner", (g < 7)


def options(psf, mode, s, tier):
    sups = list(sup_masks()) if mode == "adaptive" else [("-", None)]
    if psf == "none":
        for _, sup in sups:
            yield dict(sconv=False, kcut=None, ksplit=5, ctype="fft_static", sup=sup, trunc=None)
        return
    if psf == "g":
        for sconv in (False, True):
            for t in (None, 1.5):
                yield dict(sconv=sconv, kcut=None, ksplit=5, ctype="fft_static", sup=None, trunc=t)
        return
    ksize = {"p1": 1, "p3": 3, "p5": 5, "p7": 7, "p15s3": 5, "p13s3": 5, "p11s2": 5}[psf]
    for _, sup in sups:
        for ctype in ("fft_static", "fft", "grid"):
            for kcut in [None] + [k for k in (1, 3) if k < ksize]:
                kk = kcut or ksize
                for sconv in ((False, True) if s > 1 else (False,)):
                    for ksplit in ([None] + [k for k in (1, 3, 5) if k < kk or (k == kk and mode == "adaptive" and psf not in ("p13s3",))]) if sconv else (5,):
                        yield dict(sconv=sconv, kcut=kcut, ksplit=ksplit, ctype=ctype, sup=sup, trunc=None)


def build(cls, frame, psf, opt, n=N, pg=None):
    kw = dict(supersampling_factor=opt["s"], compute_mode=opt["mode"], supersampling_convolution=opt["sconv"],
              supersampling_kernel_size=opt["ksplit"], convolution_kernel_size=opt["kcut"], convolution_type=opt["ctype"],
              truncation_conv=opt["trunc"])
    kw["flux_evaluate_indexes"] = snap(opt["eval"])
    kw["supersampled_indexes"] = snap(opt["sup"])
    return cls(pg if pg is not None else grid(frame, n), psf, **kw)


def image_of(num, f, unconvolved=False):
    x, y = num.coordinates_evaluate
    return num.re_size_convolve(f(x, y), unconvolved=unconvolved)


def option_case(psfname, mode, s, tier, rec):
    for frame in FRAMES:
        for o in options(psfname, mode, s, tier):
            for ev in [None, "m"]:
                mask = None
                if ev:
                    mask = np.ones((N, N), bool)
                    mask[1, 3] = mask[4, 0] = mask[0, 0] = mask[2, 2] = False
                opt = dict(o, mode=mode, s=s, eval=mask)
                psf = PSFS[psfname]()
                num = build(Numerics, frame, psf, opt)
                tag = "options|%s|s%d|conv%s|cut%s|split%s|%s|mask%s" % (mode, s, o["sconv"], o["kcut"], o["ksplit"], o["ctype"], bool(ev))
                for name, f in (("a", f_a), ("b", f_b)):
                    rec.same(tag, image_of(num, f), reference(frame, f, psf, opt), 1e-9, 1e-11, what="%s %s" % (psfname, frame))
                rec.same("unconvolved|" + tag, image_of(num, f_a, True), reference(frame, f_a, psf, dict(opt, unconvolved=True)), 1e-9, 1e-11)
                rec.trans(3)
                rec.trace()
                rec.state("%s|%s|%s|%s" % (tag, frame, psfname, "-" if o["sup"] is None else int(o["sup"].sum())))
    rec.outcome(image_of(num, f_b))


def history_case(psfname, mode, s, tier, rec):
    """every sequence of images convolved with one object"""
    ops = [("a", False), ("b", False), ("a", True), ("zero", False), ("scaled", False)]
    fs = {"a": f_a, "b": f_b, "zero": lambda x, y: 0 * x, "scaled": lambda x, y: -3e4 * f_a(x, y)}
    sup = dict(sup_masks())["third"] if mode == "adaptive" else None
    for ctype in ("fft_static", "fft", "grid"):
        opt = dict(sconv=s > 1, kcut=None, ksplit=None, ctype=ctype, sup=sup, trunc=None, mode=mode, s=s, eval=None)
        psf = PSFS[psfname]()
        want = {op: reference("sheared", fs[op[0]], psf, dict(opt, unconvolved=op[1])) for op in ops}
        for d in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for seq in itertools.product(ops, repeat=d):
                num = build(Numerics, "sheared", psf, opt)
                for op in seq:
                    x, y = num.coordinates_evaluate
                    arr = fs[op[0]](x, y)
                    keep = arr.copy()
                    got = num.re_size_convolve(arr, unconvolved=op[1])
                    rec.unchanged("history|flux-argument", keep, arr)
                    rec.same("history|%s" % ctype, got, want[op], 1e-9, 1e-7 if op[0] == "scaled" else 1e-9, what=str(seq))
                    rec.trans()
                rec.trace()
                rec.state("%s|%s" % (ctype, seq))


def subframe_case(psfname, tier, rec):
    for frame in FRAMES:
        for s in (1, 2, 3):
            for sconv in ((False, True) if s > 1 and psfname != "none" else (False,)):
                for mode in ("regular", "adaptive") if psfname != "g" else ("regular",):
                    for w in windows():
                        sup = dict(sup_masks())["third"] if mode == "adaptive" else None
                        opt = dict(sconv=sconv, kcut=None, ksplit=None, ctype="fft_static", sup=sup, trunc=None, mode=mode, s=s, eval=w)
                        psf = PSFS[psfname]()
                        num = build(NumericsSubFrame, frame, psf, opt)
                        want = np.zeros((N, N))
                        if w is None:
                            want = reference(frame, f_a, psf, opt)
                            wantu = reference(frame, f_a, psf, dict(opt, unconvolved=True))
                        else:
                            rows, cols = np.where(w.any(1))[0], np.where(w.any(0))[0]
                            r, c, n = rows[0], cols[0], rows[-1] - rows[0] + 1
                            sl = (slice(r, r + n), slice(c, c + n))
                            sub = dict(opt, eval=w[sl], sup=None if sup is None else sup[sl])
                            want, wantu = np.zeros((N, N)), np.zeros((N, N))
                            want[sl] = reference(frame, f_a, psf, sub, n, (r, c))
                            wantu[sl] = reference(frame, f_a, psf, dict(sub, unconvolved=True), n, (r, c))
                        tag = "subframe|%s|s%d|conv%s|%s" % (mode, s, sconv, "full" if w is None else "window")
                        rec.same(tag, image_of(num, f_a), want, 1e-9, 1e-11, what="%s %s window %s" % (psfname, frame, None if w is None else np.argwhere(w)[[0, -1]].tolist()))
                        rec.same(tag + "|unconvolved", image_of(num, f_a, True), wantu, 1e-9, 1e-11)
                        # the point-source response covers the entire frame
                        pos = np.array([[0, 0], [2, 1], [4, 3]])
                        m, ra, dec = FRAMES[frame]
                        got = num.point_source_rendering(*(m @ pos.T + np.array([[ra], [dec]])), np.array([1.0, 2.0, 3.0]))
                        full = build(Numerics, frame, PSFS[psfname](), dict(opt, eval=None))
                        if psfname != "none":
                            rec.same("subframe|points", got, full.point_source_rendering(*(m @ pos.T + np.array([[ra], [dec]])), np.array([1.0, 2.0, 3.0])), 1e-9, 1e-11)
                        rec.trans(3)
                        rec.trace()
                        rec.state("%s|%s|%s" % (tag, frame, None if w is None else tuple(np.argwhere(w)[0]) + (int(w.sum()),)))
    rec.outcome(want)


def mask_case(tier, rec):
    """every mask of a 3x3 frame as input and output selection of the masked convolution"""
    im = asym(3, 5)
    kernels = {3: asym(3, 1), 5: asym(5, 2)}
    hi = asym(6, 3)
    hi3 = asym(9, 3)
    masks = [np.array([(b >> i) & 1 for i in range(9)], bool).reshape(3, 3) for b in range(512)]
    outs = [masks[i] for i in (511, 0b101010101, 0b000000111, 0b010011000)]
    for b, m in enumerate(masks):
        p = PartialImage(m)
        arr = p.partial_array(im)
        rec.same("mask|select", arr, im[m])
        rec.same("mask|restore", p.image_from_partial(arr), im * m)
        rec.same("mask|array", p.array_from_partial(arr), (im * m).ravel())
        rec.same("mask|number", p.num_partial, int(m.sum()))
        idx = p.index_array
        rec.same("mask|index", idx[m], np.arange(m.sum()))
        rec.true("mask|index-outside", np.all(idx[~m] == -1), "index outside of the mask")
        for o in outs:
            for n, k in kernels.items():
                got = NumbaConvolution(k, m, compute_pixels=o).convolve2d(im)
                rec.same("mask|convolution", got, direct(im * m, k) * o, 1e-11, 1e-13, what="input %d" % b)
                rec.trans()
        if b % 3 == 0 or tier == "thorough":
            for s, h in ((2, hi), (3, hi3)):
                for n in (3, 5, 7):
                    k = asym(n, 4)
                    got = SubgridNumbaConvolution(k, s, m, compute_pixels=outs[1]).convolve2d(h)
                    want = average(direct(h * np.repeat(np.repeat(m, s, 0), s, 1), k), s) * outs[1]
                    rec.same("mask|sub-pixel-convolution|s%d" % s, got, want, 1e-11, 1e-13, what="input %d kernel %d" % (b, n))
                    rec.trans()
        rec.state("mask%d" % b)
    rec.trace(512)
    rec.outcome(got)


def kernel_case(tier, rec):
    """convolution objects over all sequences of image shapes and types"""
    ims = {"4x4": asym(4), "6x6": asym(6), "5x3": asym(5)[:, :3], "3x8": np.vstack([asym(8)[:3]]), "complex": asym(4) + 1j * asym(4, 3), "int": np.arange(16).reshape(4, 4)}
    for n in (1, 3, 5, 9):
        k = asym(n, 1)
        for ctype in ("fft_static", "fft", "grid"):
            for seq in itertools.chain.from_iterable(itertools.product(ims, repeat=d) for d in (1, 2, 3)):
                c = PixelKernelConvolution(k.copy(), convolution_type=ctype)
                for name in seq:
                    im = ims[name].copy()
                    got = c.convolution2d(im)
                    rec.same("kernel|%s" % ctype, got, direct(im.real, k) + (1j * direct(im.imag, k) if np.iscomplexobj(im) else 0), 1e-9, 1e-11, what="%s kernel %d" % (seq, n))
                    rec.unchanged("kernel|argument", ims[name], im)
                    rec.trans()
                rec.trace()
                rec.state("%d|%s|%s" % (n, ctype, seq))
            t = PixelKernelConvolution(k, convolution_type=ctype).copy_transpose()
            rec.same("kernel|transpose|%s" % ctype, t.convolution2d(ims["6x6"]), direct(ims["6x6"], k.T), 1e-9, 1e-11)
            # <A x, y> == <x, A^T y> for the flipped kernel
            rec.same("kernel|pixel-kernel", PixelKernelConvolution(k).pixel_kernel(), k)
    rec.raises("kernel|type", lambda: PixelKernelConvolution(asym(3), convolution_type="other"), ValueError)
    for s in (2, 3):
        for n in (5, 7, 9, 15):
            for split in (None, 1, 3):
                k = asym(n, 2)
                im = asym(4 * s, 1)
                if split is None:
                    want = average(direct(im, k), s)
                else:
                    kl, kh = kernel_util.split_kernel(k, split, s)
                    want = average(direct(im, kh), s) + direct(average(im, s), kl)
                for ctype in ("fft_static", "fft", "grid"):
                    c = SubgridKernelConvolution(k, s, supersampling_kernel_size=split, convolution_type=ctype)
                    rec.same("subgrid-kernel", c.convolution2d(im), want, 1e-9, 1e-11)
                    rec.same("subgrid-kernel|resize", c.re_size_convolve(average(im, s), im), want, 1e-9, 1e-11)
                    rec.trans(2)
                    rec.state("sub%d|%d|%s|%s" % (s, n, split, ctype))
                if n > s:
                    for split2 in (None, 1, 3):
                        if split2 is not None and odd(split2 * s) > n:
                            continue
                        try:
                            a = AdaptiveConvolution(k, s, conv_supersample_pixels=np.ones((4, 4), bool), supersampling_kernel_size=split2)
                        except ValueError:
                            if split2 is None and odd(len(kernel_util.degrade_kernel(k, s)) * s) > n:
                                rec.viol("adaptive-full|error", "kernel of %d pixels at factor %d is refused" % (n, s))
                                continue
                            raise
                        if split2 is None:
                            rec.same("adaptive-full", a.convolve2d(im), average(direct(im, k), s), 1e-9, 1e-11, what="all pixels supersampled s%d n%d" % (s, n))
                        rec.same("adaptive|resize", a.re_size_convolve(average(im, s), im), a.convolve2d(im), 1e-9, 1e-11)
                        rec.trans(2)


def gauss_case(tier, rec):
    im = asym(8, 1)
    for sig in ([0.05], [0.05, 0.12], [0.2, 0.01, 0.07]):
        for frac in ([1.0] * len(sig), [2.0, 0.5, 1.0][:len(sig)]):
            for s in (1, 2):
                for sc in (False, True):
                    for tr in (2, 4):
                        c = MultiGaussianConvolution(list(sig), list(frac), 0.1, supersampling_factor=s, supersampling_convolution=sc, truncation=tr)
                        w = np.array(frac) / np.sum(frac)
                        scale = s if sc else 1
                        want = sum(wi * gaussian2d(im, si / 0.1 * scale, tr) for wi, si in zip(w, sig))
                        rec.same("gauss|convolution", c.convolution2d(im), want, 1e-9, 1e-12)
                        low = average(im, s)
                        want = average(want, s) if sc else sum(wi * gaussian2d(low, si / 0.1, tr) for wi, si in zip(w, sig))
                        rec.same("gauss|resize", c.re_size_convolve(low, im), want, 1e-9, 1e-12)
                        rec.same("gauss|constant", c.convolution2d(np.full((6, 6), 3.0)), np.full((6, 6), 3.0), 1e-9)
                        k = c.pixel_kernel(7)
                        rec.same("gauss|kernel-norm", k.sum(), 1.0)
                        rec.same("gauss|kernel-symmetry", k, k[::-1, ::-1].T)
                        rec.trans(5)
                        rec.trace()
                        rec.state("g%s|%s|%d|%s|%s" % (sig, frac, s, sc, tr))
    g = np.exp(-((np.arange(21) - 10)[:, None] ** 2 + (np.arange(21) - 10)[None, :] ** 2) / 2 / 2.0 ** 2)
    g /= g.sum()
    mg = MGEConvolution(g, 0.05, order=1)
    rec.same("mge|constant", mg.convolution2d(np.full((6, 6), 3.0)), np.full((6, 6), 3.0), 1e-6)
    rec.outcome(g)


def point_case(psfname, tier, rec):
    """all positions of a lattice in and around the frame against bilinear placement of the kernel"""
    core = {"p3": asym(3), "p5": asym(5), "p9s3": asym(9), "p7s2": asym(7)}[psfname]
    base = np.pad(core, 3)  # zero border: bilinear shifts lose nothing
    sup = {"p3": 1, "p5": 1, "p9s3": 3, "p7s2": 2}[psfname]
    L = 6
    for frame in FRAMES:
        m, ra, dec = FRAMES[frame]
        pg = grid(frame)
        for s in sorted({1, sup, None}, key=str):
            psf = PSF(psf_type="PIXEL", kernel_point_source=base.copy(), point_source_supersampling_factor=sup)
            num = Numerics(pg, psf, point_source_supersampling_factor=s)
            ss = s or sup
            kern = psf.kernel_point_source_supersampled(ss)
            border = max(np.abs(kern[[0, -1]]).max(), np.abs(kern[:, [0, -1]]).max())
            step = 0.5 if border == 0 else 1.0
            lattice = np.arange(-4, N + 4, step) if ss == 1 else np.round(np.arange(-4 * ss, (N + 4) * ss, step)) / ss - (ss - 1) / (2.0 * ss)
            if tier == "quick":
                lattice = lattice[::max(1, len(lattice) // 20)] if ss > 1 else lattice
            acc = []
            for px, py in itertools.product(lattice, lattice):
                r, d = m @ np.array([px, py]) + np.array([ra, dec])
                got = num.point_source_rendering(np.array([r]), np.array([d]), np.array([2.5]))
                want = 2.5 * place(kern, px, py, ss)
                rec.same("points|placement", got, want, 1e-8, 1e-10, what="%s %s pixel (%s, %s)" % (psfname, frame, px, py))
                un = num.point_source_rendering(np.array([r]), np.array([d]), np.array([2.5]), unconvolved=True)
                delta = np.zeros((3, 3))
                delta[1, 1] = 1
                rec.same("points|unconvolved", un, 2.5 * place(delta, px, py, ss), 1e-8, 1e-10)
                if ss == 1:
                    rec.same("points|interferometry", num.point_source_rendering_unconvolved_for_interferometry(np.array([r]), np.array([d]), np.array([2.5])), un)
                if 0 <= px <= N - 1 and 0 <= py <= N - 1:
                    acc.append((r, d, 1.0 + 0.3 * len(acc)))
                rec.trans(2)
                rec.state("%s|%s|%s|%s" % (frame, ss, px, py))
            # several sources: sum of the single responses, in any order
            sel = acc[:: max(1, len(acc) // 4)][:4]
            single = [num.point_source_rendering(np.array([a]), np.array([b]), np.array([c])) for a, b, c in sel]
            for perm in itertools.permutations(range(len(sel))):
                for k in range(len(sel) + 1):
                    q = [sel[i] for i in perm[:k]]
                    got = num.point_source_rendering(np.array([a for a, b, c in q]), np.array([b for a, b, c in q]), np.array([c for a, b, c in q]))
                    rec.same("points|sum", got, sum([single[i] for i in perm[:k]], np.zeros((N, N))), 1e-9, 1e-12)
                    rec.trans()
            rec.raises("points|amplitudes-missing", lambda: num.point_source_rendering(np.array([0.0, 0.1]), np.array([0.0, 0.1]), np.array([1.0])), ValueError)
            rec.trace(len(lattice) ** 2)
    # variance map
    psf = PSF(psf_type="PIXEL", kernel_point_source=np.pad(asym(3), 1), psf_variance_map=np.pad(asym(3, 2), 1) * 0.01)
    pg = grid("sheared")
    num = Numerics(pg, psf)
    pts = [(0, 0), (2, 3), (4, 1)]
    m, ra, dec = FRAMES["sheared"]
    data = np.ones((N, N))
    for k in range(1, 4):
        for q in itertools.permutations(pts, k):
            amps = np.array([1.5, 2.0, 4.0])[:k]
            c = m @ np.array(q, float).T + np.array([[ra], [dec]])
            got = num.psf_variance_map(c[0], c[1], amps, data, fix_psf_variance_map=True)
            want = sum(a ** 2 * place(psf.psf_variance_map, x, y, 1) for a, (x, y) in zip(amps, q))
            rec.same("points|variance-map", got, want, 1e-9, 1e-12, what=str(q))
            rec.trans()
    rec.outcome(got)


def place(kern, px, py, s):
    """bilinear placement of a kernel with centre at pixel position (px, py) of an N x N frame, sub-pixel factor s"""
    big = 40 * s
    canvas = np.zeros(((N + 80) * s, (N + 80) * s))
    x = px * s + (s - 1) / 2.0
    y = py * s + (s - 1) / 2.0
    x, y = np.round(x, 9), np.round(y, 9)
    x0, y0 = int(np.floor(x)), int(np.floor(y))
    fx, fy = x - x0, y - y0
    r = len(kern) // 2
    for dx, wx in ((0, 1 - fx), (1, fx)):
        for dy, wy in ((0, 1 - fy), (1, fy)):
            if wx * wy > 1e-12:
                a, b = big + y0 + dy - r, big + x0 + dx - r
                canvas[a:a + len(kern), b:b + len(kern)] += wx * wy * kern
    return average(canvas[big:big + N * s, big:big + N * s], s) * s ** 2


def cases(tier):
    out = []
    for p in PSFS:
        for mode in ("regular", "adaptive"):
            if p == "g" and mode == "adaptive":
                continue
            for s in (1,) if p == "p1" else (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
                out.append("options:%s:%s:%d" % (p, mode, s))
    for p in ("p3", "p15s3", "p11s2"):
        for mode in ("regular", "adaptive"):
            for s in (1, 2, 3):
                out.append("history:%s:%s:%d" % (p, mode, s))
    out += ["history:g:regular:%d" % s for s in (1, 2)]
    out += ["subframe:%s" % p for p in ("none", "p3", "p11s2", "g")]
    out += ["points:%s" % p for p in ("p3", "p5", "p9s3", "p7s2")]
    return out + ["masks", "kernels", "gauss"]


def run_case(case, tier, rec):
    kind, *a = case.split(":")
    if kind == "options":
        option_case(a[0], a[1], int(a[2]), tier, rec)
    elif kind == "history":
        history_case(a[0], a[1], int(a[2]), tier, rec)
    elif kind == "subframe":
        subframe_case(a[0], tier, rec)
    elif kind == "points":
        point_case(a[0], tier, rec)
    else:
        {"masks": mask_case, "kernels": kernel_case, "gauss": gauss_case}[kind](tier, rec)
