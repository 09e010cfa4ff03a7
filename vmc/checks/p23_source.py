"""P23: pixelated source reconstruction."""
import itertools

import numpy as np

from lenstronomy.Data.imaging_data import ImageData
from lenstronomy.Data.pixel_grid import PixelGrid
from lenstronomy.Data.psf import PSF
from lenstronomy.ImSim.SourceReconstruction.pixelated_source_reconstruction import PixelatedSourceReconstruction
from lenstronomy.ImSim.SourceReconstruction.regularization_matrix_pixel import pixelated_regularization_matrix
from lenstronomy.ImSim.SourceReconstruction import solve_regularization_strength as srs
from lenstronomy.LensModel.lens_model import LensModel
from vmc.core import snap

LENS = {"none": ([], []),
        "sheet": (["CONVERGENCE"], [dict(kappa=0.6)]),
        "neg": (["CONVERGENCE"], [dict(kappa=1.4)]),
        "sie": (["SIE", "SHEAR"], [dict(theta_E=0.7, e1=0.1, e2=-0.2, center_x=0.03, center_y=-0.05),
                                   dict(gamma1=0.05, gamma2=-0.03, ra_0=0, dec_0=0)])}
FRAMES = {"plain": np.array([[0.25, 0.0], [0.0, 0.25]]), "flip": np.array([[-0.25, 0.0], [0.0, 0.25]]),
          "rot": 0.25 * np.array([[np.cos(0.4), -np.sin(0.4)], [np.sin(0.4), np.cos(0.4)]])}
SHAPES = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 4), (4, 3), (5, 5)]
WIDTHS = (0.1, 0.17, 0.25)
OFFS = ((0.0, 0.0), (0.13, -0.08), (-0.3, 0.4))


def arr(shape, seed):
    n = int(np.prod(shape))
    return (np.sin(1.7 * np.arange(n) + seed) * 0.5 + 0.6 + 0.1 * np.cos(np.arange(n) * 0.61 * (seed + 1))).reshape(shape)


def kernel(n, seed=0):
    k = arr((n, n), seed + n)
    return k / k.sum()


def frame(n, kind):
    m = FRAMES[kind]
    c = m.dot(np.array([(n - 1) / 2.0, (n - 1) / 2.0]))
    return dict(ra_at_xy_0=-c[0] + 0.02, dec_at_xy_0=-c[1] - 0.01, transform_pix2angle=m)


def make(n, kind, lens, shape, width, off, kern, noise="rms", beam=False, method="diagonal", image=None):
    fr = frame(n, kind)
    image = arr((n, n), 3) if image is None else image
    kw = dict(image_data=image, background_rms=0.3, exposure_time=1e3, **fr)
    if noise == "map":
        kw["noise_map"] = arr((n, n), 8) + 0.5
    elif noise == "poisson":
        kw["exposure_time"] = arr((n, n), 5) * 20 + 1
    pb = arr((n, n), 11) if beam else None
    if beam:
        kw["antenna_primary_beam"] = pb
    if method != "diagonal":
        kw["likelihood_method"] = method
    data = ImageData(**kw)
    nx, ny = shape
    x0, y0 = off[0] - (nx - 1) / 2.0 * width, off[1] - (ny - 1) / 2.0 * width
    grid = PixelGrid(nx, ny, np.array([[width, 0.0], [0.0, width]]), x0, y0)
    psf = PSF(psf_type="PIXEL", kernel_point_source=kern, kernel_point_source_normalisation=False)
    names, kwl = LENS[lens]
    lm = LensModel(names)
    psr = PixelatedSourceReconstruction(data, psf, lm, grid)
    # reference response: tent functions around the source pixels
    px, py = np.meshgrid(np.arange(n), np.arange(n))
    m = fr["transform_pix2angle"]
    ra = m[0, 0] * px + m[0, 1] * py + fr["ra_at_xy_0"]
    dec = m[1, 0] * px + m[1, 1] * py + fr["dec_at_xy_0"]
    bx, by = LensModel(names).ray_shooting(ra.ravel(), dec.ravel(), kwl) if names else (ra.ravel(), dec.ravel())
    bx, by = np.asarray(bx).reshape(n, n), np.asarray(by).reshape(n, n)
    rows = []
    for j in range(ny):
        for i in range(nx):
            rows.append(np.maximum(0, 1 - np.abs((bx - x0) / width - i)) * np.maximum(0, 1 - np.abs((by - y0) / width - j)))
    psr.ref_rays = ((bx - x0) / width, (by - y0) / width)
    ref = np.array(rows) * (0.25 ** 2 / width ** 2)
    var = data.C_D
    return psr, kwl, ref, pb, np.array(var) if np.ndim(var) else np.ones((n, n)) * var, data


def conv(im, k):
    n = len(im)
    c = k.shape[0] // 2
    out = np.zeros_like(im)
    for y in range(n):
        for x in range(n):
            for dy in range(-c, c + 1):
                for dx in range(-c, c + 1):
                    if 0 <= y - dy < n and 0 <= x - dx < n:
                        out[y, x] += im[y - dy, x - dx] * k[c + dy, c + dx]
    return out


def lens_case(lens, kind, tier, rec):
    ns = (3, 4, 6) if tier == "quick" else (2, 3, 4, 5, 6, 8)
    for n in ns:
        for shape, width, off in itertools.product(SHAPES, WIDTHS, OFFS):
            for beam in (False, True):
                psr, kwl, ref, pb, var, data = make(n, kind, lens, shape, width, off, kernel(3), beam=beam)
                bx, by = psr.ref_rays
                # rays less than one pixel below the first row or column: see the case "border"
                inside = (bx >= 0) & (by >= 0)
                far = (bx < -1) | (by < -1) | (bx >= shape[0]) | (by >= shape[1])
                b = snap(kwl)
                sp = psr.lens_pixel_source_of_a_rectangular_region(kwl)
                rec.unchanged("arguments", b, kwl)
                w = "n=%d source %s width %s offset %s beam %s" % (n, shape, width, off, beam)
                got = np.array([psr.sparse_to_array(s) for s in sp])
                rec.same("response", got, ref if not beam else ref * pb, 1e-8, 1e-10, w)
                src = arr((shape[1], shape[0]), 2)
                s0 = snap(src)
                im = psr.lens_an_image_by_rayshooting(kwl, src)
                rec.unchanged("source-unchanged", s0, src)
                full = np.tensordot(src.ravel(), ref, 1)
                rec.same("rayshooting", np.where(inside, im, 0), np.where(inside, full, 0), 1e-8, 1e-10, w)
                rec.true("rayshooting-outside", np.all(im[far] == 0), w)
                rec.trans(2)
                rec.state((n, shape, width, off, beam))
                rec.outcome(im)
        rec.raises("shape-refused", lambda: psr.lens_an_image_by_rayshooting(kwl, np.zeros((9, 2))), ValueError)
    rec.trace()


def border_case(tier, rec):
    for lens, shape, off in itertools.product(("none", "sheet"), SHAPES, OFFS):
        psr, kwl, ref, pb, var, data = make(6, "plain", lens, shape, 0.25, off, kernel(3))
        src = arr((shape[1], shape[0]), 2)
        rec.same("below-first-pixel", psr.lens_an_image_by_rayshooting(kwl, src), np.tensordot(src.ravel(), ref, 1), 1e-8, 1e-10, str((lens, shape, off)))
        rec.trans()
    rec.trace()


def mb_case(method, ksize, tier, rec):
    ns = (3, 4) if tier == "quick" else (2, 3, 4, 5)
    for n in ns:
        for lens, kind, shape, noise, beam in itertools.product(("sie", "neg"), ("plain", "flip"), ((2, 3), (3, 2), (1, 4)),
                                                                ("rms", "map", "poisson"), (False, True)):
            if method != "diagonal":
                if noise != "rms":
                    continue
                ks = 2 * n - 1 + 2 * ((ksize - 1) // 2 % 2)
            else:
                ks = ksize
            kern = kernel(ks)
            if method != "diagonal":
                kern = kern + kern[::-1, ::-1]
            k0 = snap(kern)
            psr, kwl, ref, pb, var, data = make(n, kind, lens, shape, 0.2, (0.05, -0.07), kern, noise, beam, method)
            d0 = snap(data.data)
            if beam:
                ref = ref * pb
            w = "n=%d %s %s source %s noise %s beam %s kernel %d" % (n, lens, kind, shape, noise, beam, ks)
            M, b = psr.generate_M_b(kwl, show_progress=False)
            cv = np.array([conv(r, kern) for r in ref])
            if method == "diagonal":
                M_ref = np.einsum("aij,bij,ij->ab", cv, cv, 1 / var)
                b_ref = np.einsum("aij,ij->a", cv, data.data / var)
            else:
                M_ref = np.einsum("aij,bij->ab", cv, ref) / 0.3 ** 2
                b_ref = np.einsum("aij,ij->a", ref, data.data) / 0.3 ** 2
            rec.same("M", M, M_ref, 1e-8, 1e-10, w)
            rec.same("b", b, b_ref, 1e-8, 1e-10, w)
            rec.unchanged("data", d0, data.data)
            rec.unchanged("kernel", k0, kern)
            M2, b2 = psr.generate_M_b(kwl, show_progress=False, verbose=True)
            rec.same("repeat", [M2, b2], [M, b], 0, 0, w)
            alt = [dict(k) for k in kwl]
            alt[0] = dict(alt[0], **({"theta_E": 0.4} if lens == "sie" else {"kappa": 0.2}))
            psr.generate_M_b(alt, show_progress=False)
            M2, b2 = psr.generate_M_b(kwl, show_progress=False)
            rec.same("history", [M2, b2], [M, b], 0, 0, w)
            sp = psr.lens_pixel_source_of_a_rectangular_region(kwl)
            for i, s in enumerate(sp):
                rec.same("sparse-convolution", psr.sparse_convolution(s), cv[i], 1e-8, 1e-10, w)
                rec.same("sparse-sum", psr.sum_sparse_elementwise_product(s, data.data), np.sum(ref[i] * data.data), 1e-8, 1e-10, w)
                for j, t in enumerate(sp):
                    rec.same("sparse-dot", psr.sparse_convolve_and_dot_product(s, t), np.sum(cv[i] * ref[j]), 1e-8, 1e-10, w)
            # noiseless data return the source that made them
            src = arr((shape[1], shape[0]), 2)
            im = np.tensordot(src.ravel(), cv, 1)
            psr2 = make(n, kind, lens, shape, 0.2, (0.05, -0.07), kern, "rms", beam, method, image=im)[0]
            M3, b3 = psr2.generate_M_b(kwl, show_progress=False)
            rec.same("noiseless", M3.dot(src.ravel()), b3, 1e-7, 1e-9, w)
            rec.trans(6)
            rec.state((n, lens, kind, shape, noise, beam))
            rec.outcome(b)
    rec.trace()


def kernels_case(tier, rec):
    """sparse convolution: every pixel position, every kernel size, also kernels larger than the image."""
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 6):
        for ks in (1, 3, 5, 7, 9):
            kern = kernel(ks)
            psr = make(n, "plain", "none", (2, 2), 0.2, (0, 0), kern)[0]
            for y, x in itertools.product(range(n), range(n)):
                im = np.zeros((n, n))
                im[y, x] = 2.5
                sp = [[y, x, 2.5]]
                rec.same("array", psr.sparse_to_array(sp), im)
                rec.same("delta", psr.sparse_convolution(sp), conv(im, kern), 1e-10, 1e-12, "n=%d kernel %d at %d,%d" % (n, ks, y, x))
                for y2, x2 in itertools.product(range(n), range(n)):
                    t = [[y2, x2, -1.5]]
                    rec.same("dot", psr.sparse_convolve_and_dot_product(sp, t), -1.5 * conv(im, kern)[y2, x2], 1e-10, 1e-12)
                    rec.trans()
                rec.state((n, ks, y, x))
    rec.trace()


def reg_case(tier, rec):
    N = 5 if tier == "quick" else 7
    for nx, ny in itertools.product(range(1, N + 1), range(1, N + 1)):
        for s in [arr((ny, nx), q) for q in range(3)] + [e.reshape(ny, nx) for e in np.eye(nx * ny)]:
            pad = np.zeros((ny + 4, nx + 4))
            pad[2:-2, 2:-2] = s
            zero = np.sum(s ** 2)
            grad = np.sum((pad[:, 1:] - pad[:, :-1]) ** 2) + np.sum((pad[1:] - pad[:-1]) ** 2)
            curv = np.sum((pad[:, 2:] - 2 * pad[:, 1:-1] + pad[:, :-2]) ** 2) + np.sum((pad[2:] - 2 * pad[1:-1] + pad[:-2]) ** 2)
            for name, v in (("zeroth_order", zero), ("gradient", grad), ("curvature", curv)):
                U = pixelated_regularization_matrix(nx, ny, name)
                rec.same("form-" + name, s.ravel().dot(U).dot(s.ravel()), v, 1e-10, 1e-12, "%dx%d" % (nx, ny))
                rec.same("symmetric-" + name, U, U.T, 0, 0, "%dx%d" % (nx, ny))
                rec.trans()
        rec.state((nx, ny))
    rec.raises("type", lambda: pixelated_regularization_matrix(2, 2, "other"), ValueError)
    rec.raises("float-x", lambda: pixelated_regularization_matrix(2.0, 2, "gradient"), TypeError)
    rec.raises("float-y", lambda: pixelated_regularization_matrix(2, 2.0, "gradient"), TypeError)
    rec.trace()


def lam_case(tier, rec):
    def log_evidence(l, U, M, b):
        A = M + l * U
        s = np.linalg.solve(A, b)
        return 0.5 * len(b) * np.log(l) - 0.5 * np.linalg.slogdet(A)[1] + 0.5 * b.dot(s)
    for (nx, ny), name, seed, scale in itertools.product(((2, 2), (3, 2), (2, 4)), ("zeroth_order", "gradient", "curvature"), range(3), (1.0, 30.0)):
        U = pixelated_regularization_matrix(nx, ny, name)
        F = arr((nx * ny + 5, nx * ny), seed) - 0.5
        M = F.T.dot(F) * scale
        b = F.T.dot(arr((nx * ny + 5,), seed + 4)) * scale
        u0, m0, b0 = snap(U), snap(M), snap(b)
        w = "%dx%d %s seed %d scale %s" % (nx, ny, name, seed, scale)
        lams = np.geomspace(1e-3, 1e3, 25)
        d = []
        for l in lams:
            h = l * 1e-4
            num = (log_evidence(l + h, U, M, b) - log_evidence(l - h, U, M, b)) / (2 * h)
            d.append(srs.d_log_evi_d_lambda(l, U, M, b))
            # the derivative is that of twice the logarithm of the evidence
            rec.same("derivative", d[-1], 2 * num, 1e-4, 1e-4 * nx * ny / l, w + " lambda %g" % l)
            rec.trans()
        for i in range(len(lams)):
            for j in range(len(lams)):
                lo, hi = lams[i], lams[j]
                if i < j and d[i] > 0 and d[j] < 0:
                    r = srs.solve_optimal_lambda(srs.d_log_evi_d_lambda, U, M, b, lo, hi, tolerance=1e-9 * lo, max_iterations=80)
                    rec.true("bracket", lo <= r <= hi, w)
                    s1, s2 = srs.d_log_evi_d_lambda(r * (1 - 1e-5), U, M, b), srs.d_log_evi_d_lambda(r * (1 + 1e-5), U, M, b)
                    rec.true("root", s1 >= 0 >= s2 or abs(s1) < 1e-6 * abs(d[i]), w + " root %g: %g %g" % (r, s1, s2))
                    rec.trans()
                elif i < j and (d[i] <= 0 or d[j] >= 0):
                    rec.raises("no-bracket", lambda: srs.solve_optimal_lambda(srs.d_log_evi_d_lambda, U, M, b, lo, hi), ValueError, w)
        rec.raises("reversed", lambda: srs.solve_optimal_lambda(srs.d_log_evi_d_lambda, U, M, b, 2.0, 1.0), ValueError)
        rec.unchanged("arguments", [u0, m0, b0], [U, M, b])
        rec.state(w)
    # any decreasing derivative is admissible: roots anywhere on a fine grid of the bracket, ends included
    for lo, hi, k in itertools.product((1.0, 4.0), (8.0, 64.0), range(17)):
        root = lo + (hi - lo) * k / 16.0
        w = "derivative with root %g in [%g, %g]" % (root, lo, hi)
        for power in (1, 3):
            fn = lambda l, *a: -np.sign(l - root) * np.abs(l - root) ** power
            f = lambda it=60: srs.solve_optimal_lambda(fn, None, None, None, lo, hi, tolerance=1e-9, max_iterations=it)
            if k in (0, 16):
                rec.raises("root-at-border", f, ValueError, w)
            else:
                rec.same("declared-root", f(), root, 0, 2e-9, what=w)
                rec.true("few-iterations", abs(f(5) - root) <= (hi - lo) / 32.0 * (1 + 1e-9), w)
            rec.trans()
        rec.state(w)
    rec.trace()


def refuse_case(tier, rec):
    for m in (np.array([[0.2, 0.01], [0, 0.2]]), np.array([[0.2, 0], [0.01, 0.2]]), np.array([[0.2, 0], [0, 0.1]]),
              np.array([[-0.2, 0], [0, 0.2]])):
        data = ImageData(np.zeros((3, 3)), background_rms=1.0, exposure_time=10.0, **frame(3, "plain"))
        psf = PSF(psf_type="PIXEL", kernel_point_source=kernel(3))
        rec.raises("grid", lambda: PixelatedSourceReconstruction(data, psf, LensModel([]), PixelGrid(2, 2, m, 0, 0)), ValueError, str(m))
        rec.trans()
    for n, ks in itertools.product((2, 3, 4, 5), (1, 3, 5, 7, 9, 11)):
        f = lambda: make(n, "plain", "none", (2, 2), 0.2, (0, 0), kernel(ks), method="interferometry_natwt")
        if ks < 2 * n - 1:
            rec.raises("kernel-size", f, ValueError, "%d %d" % (n, ks))
        else:
            f()
        rec.trans()
        rec.state((n, ks))
    rec.trace()


def cases(tier):
    for l in LENS:
        for k in FRAMES:
            yield "lens|%s|%s" % (l, k)
    for ks in (1, 3, 5, 7):
        yield "system|diagonal|%d" % ks
    for ks in (1, 3):
        yield "system|interferometry_natwt|%d" % ks
    yield "border"
    yield "kernels"
    yield "regularisation"
    yield "strength"
    yield "refused"


def run_case(case, tier, rec):
    p = case.split("|")
    if p[0] == "lens":
        lens_case(p[1], p[2], tier, rec)
    elif p[0] == "system":
        mb_case(p[1], int(p[2]), tier, rec)
    else:
        dict(border=border_case, kernels=kernels_case, regularisation=reg_case, strength=lam_case, refused=refuse_case)[p[0]](tier, rec)
