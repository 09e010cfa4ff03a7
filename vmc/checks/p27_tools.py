"""P27: image, mask, grid-search and statistics tools compute what they are documented to compute and leave their input alone.

Exhaustive enumeration of small images, masks, bin sizes, point sets and samples on the real functions against definitions
written out here pixel by pixel.
"""
import itertools
import math

import numpy as np
from scipy import stats

from lenstronomy.Util import analysis_util, correlation, derivative_util, image_util, kin_sampling_util, mask_util, multi_gauss_expansion, param_util, primary_beam_util, prob_density, sampling_util, util
from vmc.core import snap

RNG = np.random.RandomState


def img(nx, ny, s=0):
    return RNG(100 * nx + ny + s).rand(nx, ny) + 0.3


# ---- binning ------------------------------------------------------------------------------------------------------------
def rebin(n, rec):
    for b in range(1, min(n, 6) + 1):
        m = n // b
        for kind in ("float", "int"):
            im, wht = img(n, n), img(n, n, 1)
            if kind == "int":
                im = np.arange(n * n).reshape(n, n) + 1
            mask = (img(n, n, 2) > 1.1).astype(float if kind == "float" else int)
            M = np.array([[-0.05, 0.01], [0.02, 0.06]])
            x, y = np.meshgrid(np.arange(n), np.arange(n))
            ra, dec = M[0, 0] * x + M[0, 1] * y + 0.3, M[1, 0] * x + M[1, 1] * y - 0.2
            args = [im, wht, 0.7, ra, dec, mask]
            s0 = snap(args)
            out = image_util.rebin_image(b, *args)
            key = "%d|%d|%s" % (n, b, kind)
            rec.unchanged("rebin-input|" + key, s0, snap(args), "arguments of rebin_image")
            blk = lambda a, f: np.array([[f(a[i * b : (i + 1) * b, j * b : (j + 1) * b]) for j in range(m)] for i in range(m)])
            rec.same("rebin-flux|" + key, out[0], blk(im, np.sum), 1e-12, 1e-12, "flux of a merged pixel")
            rec.same("rebin-weight|" + key, out[1], blk(wht, np.mean), 1e-12, 1e-12)
            rec.same("rebin-sigma|" + key, out[2], b * 0.7, 1e-12, 0)
            rec.same("rebin-ra|" + key, out[3], blk(ra, np.mean), 1e-12, 1e-12)
            rec.same("rebin-dec|" + key, out[4], blk(dec, np.mean), 1e-12, 1e-12)
            rec.same("rebin-mask|" + key, out[5], blk(mask, lambda v: float((v > 0).any())), 0, 0)
            # coordinate system of the merged image
            Ti = np.linalg.inv(M)
            x0, y0 = -Ti @ np.array([0.3, -0.2])
            r0, d0, xr, yr, M2, Ti2 = image_util.rebin_coord_transform(b, x0, y0, M, Ti)
            g = util.grid_from_coordinate_transform(m, m, M2, r0, d0)
            rec.same("rebin-coord-ra|" + key, g[0], blk(ra, np.mean).flatten(), 1e-9, 1e-12)
            rec.same("rebin-coord-dec|" + key, g[1], blk(dec, np.mean).flatten(), 1e-9, 1e-12)
            rec.same("rebin-origin|" + key, Ti2 @ np.array([-r0, -d0]), [xr, yr], 1e-9, 1e-9)
            rec.trans(6)
    rec.state(("rebin", n))


def resize(rec):
    for nx, ny in itertools.product(range(1, 9), repeat=2):
        im = img(nx, ny)
        for f in (1, 2, 3, 4):
            key = "%d|%d|%d" % (nx, ny, f)
            s0 = im.copy()
            if nx % f or ny % f:
                rec.raises("resize-refused|" + key, lambda: image_util.re_size(im, f), ValueError)
            else:
                rec.same("resize|" + key, image_util.re_size(im, f), [[im[i * f : (i + 1) * f, j * f : (j + 1) * f].mean() for j in range(ny // f)] for i in range(nx // f)], 1e-12, 0)
            rec.unchanged("resize-input|" + key, s0, im)
        rec.raises("resize-small|%d|%d" % (nx, ny), lambda: image_util.re_size(im, 0.5), ValueError)
        for k in range(1, 9):
            key = "%d|%d|%d" % (nx, ny, k)
            if k > min(nx, ny) or (nx - ny) % 2 or (nx - k) % 2:
                rec.raises("cut-refused|" + key, lambda: image_util.cut_edges(im, k), ValueError)
            else:
                c = image_util.cut_edges(im, k)
                a, b = (nx - k) // 2, (ny - k) // 2
                rec.same("cut|" + key, c, im[a : a + k, b : b + k], 0, 0)
                c += 1
                rec.unchanged("cut-input|" + key, s0, im, "image after editing the cutout")
                im = s0.copy()
        rec.trans(12)
    # bilinear resampling: exact on bilinear functions, also for unequal axes
    for nx, ny in itertools.product((3, 4, 6), repeat=2):
        xi, yi = np.linspace(-1, 1, nx), np.linspace(0, 2, ny)
        xo, yo = np.linspace(-0.9, 0.8, 5), np.linspace(0.1, 1.7, 4)
        f = lambda a, b: 2 + a[:, None] - 3 * b[None, :] + 0.5 * a[:, None] * b[None, :]
        rec.same("resample|%d|%d" % (nx, ny), image_util.re_size_array(xi, yi, f(xi, yi), xo, yo), f(xo, yo), 1e-10, 1e-10)
    # stacking
    for n in (1, 2, 3):
        for w in itertools.product((0.5, 1.0, 3.0), repeat=n):
            ims = [img(4, 5, 10 + i) for i in range(n)]
            wl = [np.full((4, 5), v) for v in w]
            if n > 1:
                wl[0] = wl[0] + np.arange(20).reshape(4, 5) / 100.0
            sg = [0.1 + 0.2 * i for i in range(n)]
            s0 = snap((ims, wl, sg))
            o, ow, os_ = image_util.stack_images(ims, wl, sg)
            W = sum(wl)
            key = "%s" % (w,)
            rec.same("stack|" + key, o, sum(a * b for a, b in zip(ims, wl)) / W, 1e-12, 0)
            rec.same("stack-weight|" + key, ow, W / n, 1e-12, 0)
            rec.same("stack-sigma|" + key, os_, math.sqrt(sum(s**2 * np.median(v) for s, v in zip(sg, wl)) / np.median(W)), 1e-12, 0)
            rec.unchanged("stack-input|" + key, s0, snap((ims, wl, sg)))
            rec.trans()
    # rotational symmetrisation is idempotent for quarter turns, conserves symmetric images
    for n in (3, 4, 5, 6):
        a = img(n, n)
        s0 = a.copy()
        for sym in (1, 2, 4):
            r = image_util.symmetry_average(a, sym)
            want = sum(np.rot90(a, 4 // sym * k if sym > 1 else 0) for k in range(sym)) / sym
            rec.same("symmetry|%d|%d" % (n, sym), r, want, 1e-9, 1e-9)
            rec.unchanged("symmetry-input|%d|%d" % (n, sym), s0, a)
    rec.state("resize")


def layers(rec):
    """a kernel placed anywhere in or outside an image adds exactly the pixels that overlap"""
    for shape in ((5, 6), (3, 3), (7, 4)):
        for ks in ((1, 1), (3, 3), (3, 5), (5, 1)):
            base = img(*shape)
            k = img(*ks, 3)
            for x in range(-6, shape[1] + 6):
                for y in range(-6, shape[0] + 6):
                    want = base.copy()
                    for i in range(ks[0]):
                        for j in range(ks[1]):
                            r, c = y + i - ks[0] // 2, x + j - ks[1] // 2
                            if 0 <= r < shape[0] and 0 <= c < shape[1]:
                                want[r, c] += k[i, j]
                    s0 = base.copy()
                    rec.same("layer|%s|%s|%d|%d" % (shape, ks, x, y), image_util.add_layer2image_int(base, x, y, k), want, 1e-12, 0)
                    rec.same("layer-float|%s|%s|%d|%d" % (shape, ks, x, y), image_util.add_layer2image(base, float(x), float(y), k), want, 1e-12, 0)
                    rec.unchanged("layer-input|%s|%s|%d|%d" % (shape, ks, x, y), s0, base)
                    rec.trans(2)
    # linear interpolation between pixels for kernels that vanish at their border
    k = np.zeros((7, 7))
    k[2:5, 2:5] = img(3, 3, 4)
    base = np.zeros((11, 12))
    for fx in (-0.4, -0.25, 0.0, 0.1, 0.3, 0.49):
        for fy in (-0.3, 0.0, 0.2, 0.45):
            x, y = 5 + fx, 6 + fy
            out = image_util.add_layer2image(base, x, y, k, order=1)
            yy, xx = np.mgrid[0:11, 0:12]
            rec.same("layer-flux|%g|%g" % (fx, fy), out.sum(), k.sum(), 1e-10, 0)
            cx, cy = (k * np.mgrid[0:7, 0:7][1]).sum() / k.sum() - 3, (k * np.mgrid[0:7, 0:7][0]).sum() / k.sum() - 3
            rec.same("layer-centroid|%g|%g" % (fx, fy), [(out * xx).sum() / out.sum(), (out * yy).sum() / out.sum()], [x + cx, y + cy], 1e-10, 1e-10)
            rec.trans()
    for bad in ((2, 3), (3, 4)):
        rec.raises("layer-even|%s" % (bad,), lambda: image_util.add_layer2image_int(base, 3, 3, np.ones(bad)), ValueError)
    rec.state("layers")


# ---- minima of a grid ---------------------------------------------------------------------------------------------------
def neighbours(i, j, n):
    return [(i + a, j + b) for a in (-1, 0, 1) for b in (-1, 0, 1) if (a or b) and 0 <= i + a < n and 0 <= j + b < n]


def judge_minima(a, rec, key):
    n = a.shape[0]
    x, y = np.meshgrid(np.arange(n) * 0.5, np.arange(n) * 2.0)
    xm, ym, v = util.local_minima_2d(a.flatten(), x.flatten(), y.flatten())
    found = [(int(round(q / 2.0)), int(round(p / 0.5))) for p, q in zip(xm, ym)]
    bad = None
    for (i, j), val in zip(found, v):
        if val != a[i, j]:
            bad = "value %s of pixel %s" % (val, (i, j))
        if any(a[p] < a[i, j] for p in neighbours(i, j, n)):
            bad = "pixel %s is not a minimum" % ((i, j),)
    if len(set(found)) != len(found):
        bad = "pixel listed twice"
    # plateaus inside the border with higher surroundings are represented
    seen = set()
    for i in range(1, n - 1):
        for j in range(1, n - 1):
            if (i, j) in seen:
                continue
            comp, todo, ok = {(i, j)}, [(i, j)], True
            while todo:
                q = todo.pop()
                for p in neighbours(q[0], q[1], n):
                    if a[p] == a[i, j]:
                        if p not in comp:
                            comp.add(p)
                            todo.append(p)
                    elif a[p] < a[i, j]:
                        ok = False
            seen |= comp
            if any(p[0] in (0, n - 1) or p[1] in (0, n - 1) for p in comp):
                continue
            if ok and not any(p in comp for p in found):
                bad = "minimum at %s missed" % (sorted(comp),)
    if bad:
        rec.true("minima|%s" % key, False, "%s in %s" % (bad, a.tolist()))
    rec.trans()


def minima(part, rec):
    if part == "plateau":
        # interior of 3 x 3 pixels with all values of {0,1,2}, three kinds of border
        for border in (0, 1, 3):
            for v in itertools.product((0, 1, 2), repeat=9):
                if border != 3 and v[0] == 2:
                    continue
                a = np.full((5, 5), float(border))
                a[1:4, 1:4] = np.array(v).reshape(3, 3)
                judge_minima(a, rec, "%d|%s" % (border, "".join(map(str, v))))
    elif part == "wide":
        for v in itertools.product((0, 1), repeat=16):
            a = np.full((6, 6), 2.0)
            a[1:5, 1:5] = np.array(v).reshape(4, 4)
            judge_minima(a, rec, "".join(map(str, v)))
    else:
        for v in itertools.product((0, 1), repeat=16):
            judge_minima(np.array(v, float).reshape(4, 4), rec, "".join(map(str, v)))
    rec.true("minima|%s" % part, True, "")
    rec.state(("minima", part))


def selection(rec):
    """second-order minima, nearest images, overlaps"""
    n = 7
    x, y = np.meshgrid(np.arange(n) * 1.0, np.arange(n) * 1.0)
    for i, j in itertools.product(range(2, n - 2), repeat=2):
        a = (x - j) ** 2 + (y - i) ** 2 + 0.1
        xm, ym, v = util.neighbor_select(a.flatten(), x.flatten(), y.flatten())
        rec.true("second-order|%d|%d" % (i, j), any(p == j and q == i for p, q in zip(xm, ym)), (xm, ym))
        rec.true("second-order-value|%d|%d" % (i, j), all(w == a[int(q), int(p)] for p, q, w in zip(xm, ym, v)), v)
        for p, q in zip(xm, ym):
            rec.true("second-order-min|%d|%d" % (i, j), all(a[int(q), int(p)] <= a[nb] for nb in neighbours(int(q), int(p), n)), (p, q))
        # a strict minimum of the eight neighbours that is undercut within two pixels is not of second order
        for di, dj in ((0, 2), (2, 0), (-2, 0), (0, -2), (1, 2), (2, 1), (-1, 2), (2, -1), (-2, 1), (1, -2), (-1, -2), (-2, -1)):
            b = a.copy()
            b[i + di, j + dj] = 0.0
            xm, ym, v = util.neighbor_select(b.flatten(), x.flatten(), y.flatten())
            rec.true("second-order-undercut|%d|%d|%d|%d" % (i, j, di, dj), not any(p == j and q == i for p, q in zip(xm, ym)), (xm, ym))
    pts = [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.3, 0.8), (2.0, 2.0)]
    # distance to a set of images: greedy matching in the given order, ties included
    for m in (1, 2, 3):
        for A in itertools.permutations(pts, m):
            for B in itertools.combinations(pts, m):
                rest, d = list(B), 0.0
                amb = False
                for p in A:
                    ds = [(p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2 for q in rest]
                    amb = amb or ds.count(min(ds)) > 1
                    k = ds.index(min(ds))
                    d += ds[k]
                    rest.pop(k)
                key = "%s|%s" % (A, B)
                ax, ay = [p[0] for p in A], [p[1] for p in A]
                bx, by = np.array([p[0] for p in B]), np.array([p[1] for p in B])
                s0 = snap((ax, ay, bx, by))
                got = util.get_distance(ax, ay, bx, by)
                # with a tie the matching may follow either candidate: bounded by the best matching from below
                best = min(sum((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2 for p, q in zip(A, perm)) for perm in itertools.permutations(B))
                worst = max(sum((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2 for p, q in zip(A, perm)) for perm in itertools.permutations(B))
                if amb:
                    rec.true("match-tie|" + key, best - 1e-12 <= got <= worst + 1e-12, (got, best, worst))
                else:
                    rec.same("match|" + key, got, d, 1e-12, 1e-12)
                rec.unchanged("match-input|" + key, s0, snap((ax, ay, bx, by)))
                for t in (float, int):
                    cv = lambda v: np.array([round(w) for w in v], dtype=t) if t is int else np.array(v)
                    x1, y1, x2, y2 = cv(ax), cv(ay), cv(bx) + (0.25 if t is int else 0), cv(by)
                    rec.same("nearest|%s|%s" % (t.__name__, key), util.min_square_dist(x1, y1, x2, y2), [min((p - u) ** 2 + (q - w) ** 2 for u, w in zip(x2, y2)) for p, q in zip(x1, y1)], 1e-12, 1e-12)
                rec.trans(3)
            rec.same("spread|%s" % (A,), util.compare_distance([p[0] for p in A], [p[1] for p in A]), sum((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2 for p, q in itertools.combinations(A, 2)), 1e-12, 1e-12)
    rec.true("match-number", util.get_distance([0.0], [0.0], [0.0, 1.0], [0.0, 1.0]) == 10**10, "")
    quad = [(1.0, 0.1), (-0.9, 0.2), (0.1, 1.2), (-0.2, -0.7)]
    for per in itertools.permutations(range(4)):
        q = [quad[i] for i in per]
        idx = util.sort_image_index([p[0] for p in q], [p[1] for p in q], [p[0] for p in quad], [p[1] for p in quad])
        rec.true("sort|%s" % (per,), [q[i] for i in idx] == quad, idx)
        ds = sorted(math.dist(a, b) for a, b in itertools.combinations(quad, 2))
        rec.same("radius|%s" % (per,), util.approx_theta_E([p[0] for p in q], [p[1] for p in q]), 0.5 * math.sqrt(ds[-1] * ds[-2]), 1e-12, 0)
    # overlapping solutions: the first of each group is kept, in order
    one = [0.0, 0.05, 0.5, 0.52, 1.0]
    for m in (1, 2, 3, 4):
        for xs in itertools.product(one, repeat=m):
            for ys in ((0.0,) * m, tuple(0.3 * (i % 2) for i in range(m))):
                for dmin in (0.03, 0.1):
                    xa, ya = np.array(xs), np.array(ys)
                    keep = [i for i in range(m) if not any(abs(xs[i] - xs[j]) < dmin and abs(ys[i] - ys[j]) < dmin for j in range(i))]
                    o = image_util.findOverlap(xa, ya, dmin)
                    rec.same("overlap|%s|%s|%g" % (xs, ys, dmin), [o[0], o[1]], [xa[keep], ya[keep]], 0, 0)
                    rec.unchanged("overlap-input|%s|%s|%g" % (xs, ys, dmin), (xs, ys), (tuple(xa), tuple(ya)))
                    rec.trans()
    for n_, d in ((4, 0.5), (5, 0.2)):
        g = np.array([-1.2, -0.99, -0.51, -0.49, 0.0, 0.3, 0.49, 0.51, 0.99, 1.2])
        X, Y = [v.flatten() for v in np.meshgrid(g, g)]
        o = image_util.coord_in_image(X, Y, n_, d)
        k = (abs(X) <= n_ * d / 2) & (abs(Y) <= n_ * d / 2)
        rec.same("inside|%d|%g" % (n_, d), [o[0], o[1]], [X[k], Y[k]], 0, 0)
    # area inside a closed contour, any start, any sense
    for poly, A in (([(0, 0), (2, 0), (2, 1), (0, 1)], 2.0), ([(0, 0), (1, 0), (0, 1)], 0.5), ([(1, 1), (3, 1), (3, 3), (2, 1.5), (1, 3)], 2.5), ([(-1, -1), (1, -1), (1, 1), (-1, 1)], 4.0)):
        for s in range(len(poly)):
            for sense in (1, -1):
                p = (poly[s:] + poly[:s])[::sense]
                rec.same("area|%s|%d|%d" % (poly, s, sense), util.area(np.array(p + [p[0]], float)), A, 1e-12, 0)
    rec.state("selection")


# ---- masks --------------------------------------------------------------------------------------------------------------
def masks(rec):
    g = np.arange(-3, 4) * 0.5
    X, Y = [v.flatten() for v in np.meshgrid(g, g)]
    for cx, cy in itertools.product((0.0, 0.5, -0.7), repeat=2):
        R = np.hypot(X - cx, Y - cy)
        for r in (0.4, 0.9, 1.3, 5.0):
            if np.min(abs(R - r)) < 1e-9:
                continue
            key = "%g|%g|%g" % (cx, cy, r)
            rec.same("disk|" + key, mask_util.mask_azimuthal(X, Y, cx, cy, r), (R < r).astype(int), 0, 0)
            rec.same("hole|" + key, mask_util.mask_center_2d(cx, cy, r, X, Y), (R > r).astype(int), 0, 0)
            for r2 in (0.9, 1.7):
                if np.min(abs(R - r2)) > 1e-9:
                    rec.same("shell|%s|%g" % (key, r2), mask_util.mask_shell(X, Y, cx, cy, r, r2), ((R >= r) & (R < r2)).astype(int), 0, 0)
            for b in (0.3, 1.1):
                for ang in (0.0, 0.4, np.pi / 2, -1.0):
                    c, s = np.cos(ang), np.sin(ang)
                    u, v = c * (X - cx) + s * (Y - cy), -s * (X - cx) + c * (Y - cy)
                    q = u**2 / r**2 + v**2 / b**2
                    if np.min(abs(q - 1)) > 1e-9:
                        rec.same("ellipse|%s|%g|%g" % (key, b, ang), mask_util.mask_ellipse(X, Y, cx, cy, r, b, ang), (q < 1).astype(int), 0, 0)
                    rec.trans()
            for e1, e2 in ((0.0, 0.0), (0.2, -0.1), (-0.3, 0.25)):
                phi, q = np.arctan2(e2, e1) / 2, (1 - np.hypot(e1, e2)) / (1 + np.hypot(e1, e2))
                c, s = np.cos(phi), np.sin(phi)
                u, v = c * (X - cx) + s * (Y - cy), -s * (X - cx) + c * (Y - cy)
                w = (q * u**2 + v**2 / q) / r**2
                if np.min(abs(w - 1)) > 1e-9:
                    rec.same("eccentric|%s|%g|%g" % (key, e1, e2), mask_util.mask_eccentric(X, Y, cx, cy, e1, e2, r), (w < 1).astype(int), 0, 0)
        # sectors that do not cross the branch cut of the angle
        phi = np.arctan2(X - cx, Y - cy)
        for p0, dp in itertools.product((-1.0, 0.0, 0.8), (0.9, 2.0, 4.0)):
            if p0 + dp / 2 > np.pi or p0 - dp / 2 < -np.pi:
                continue
            want = (R < 1.7) & (R > 0.6) & (abs(phi - p0) < dp / 2)
            rec.same("sector|%g|%g|%g|%g" % (cx, cy, p0, dp), mask_util.mask_half_moon(X, Y, cx, cy, 0.6, 1.7, p0, dp), want.astype(int), 0, 0)
            rec.trans()
    rec.state("masks")


# ---- statistics ---------------------------------------------------------------------------------------------------------
def errors(rec):
    for n in range(1, 61):
        for s in (0, 1):
            v = RNG(n + s).randn(n) ** (1 if s else 3)
            o = np.sort(v)
            s0 = v.copy()
            for k in (0, 1, 2, 3):
                med, e = prob_density.compute_lower_upper_errors(v, num_sigma=k)
                key = "%d|%d|%d" % (n, s, k)
                rec.same("median|" + key, med, np.median(v), 1e-12, 0)
                if k == 0:
                    rec.true("none|" + key, e == [[]], e)
                    continue
                rec.true("levels|" + key, len(e) == k, e)
                for lev, p in zip(e, (0.841345, 0.977249868, 0.998650102)):
                    up = o[int(round((n - 1) * p))]
                    lo = o[n - 1 - int(round((n - 1) * p))]
                    rec.same("interval|" + key, lev, [med - lo, up - med], 1e-9, 1e-12)
            rec.unchanged("sample|%d|%d" % (n, s), s0, v)
            rec.trans(4)
    rec.raises("sigma-4", lambda: prob_density.compute_lower_upper_errors(np.arange(5.0), 4), ValueError)
    sg = prob_density.SkewGaussian()
    x = np.linspace(-30, 30, 200001)
    dx = x[1] - x[0]
    for mu, sig, skw in itertools.product((0.0, 1.5), (0.5, 2.0), (-0.9, -0.4, 0.0, 0.3, 0.8)):
        p = sg.pdf_skew(x, mu, sig, skw)
        key = "%g|%g|%g" % (mu, sig, skw)
        m1 = np.sum(x * p) * dx
        m2 = np.sum((x - m1) ** 2 * p) * dx
        rec.same("skew-norm|" + key, np.sum(p) * dx, 1.0, 1e-6, 0)
        rec.same("skew-mean|" + key, m1, mu, 1e-5, 1e-5)
        rec.same("skew-std|" + key, np.sqrt(m2), sig, 1e-5, 0)
        rec.same("skew-skewness|" + key, np.sum((x - m1) ** 3 * p) * dx / m2**1.5, skw, 1e-4, 1e-5)
        rec.trans()
    for bad in (-1, 1, 1.5):
        rec.raises("skew-refused|%g" % bad, lambda: sg.pdf_skew(x, 0, 1, bad), ValueError)
    for n in (5, 30):
        v = RNG(n).randn(n)
        k = prob_density.KDE1D(v)
        t = np.linspace(-2, 2, 7)
        h = v.std(ddof=1) * n ** (-1 / 5.0)
        rec.same("kde|%d" % n, k.likelihood(t), [np.mean(stats.norm.pdf(u, v, h)) for u in t], 1e-9, 0)
    # unit-cube transforms
    grid = (0.0, 0.2, 0.5, 0.9, 1.0)
    lo, up = np.array([-1.0, 2.0]), np.array([3.0, 2.5])
    for u in itertools.product(grid, repeat=2):
        for cp in (False, True):
            c = np.array(u)
            o = sampling_util.cube2args_uniform(c, lo, up, 2, copy=cp)
            rec.same("cube|%s|%s" % (u, cp), o, lo + (up - lo) * np.array(u), 1e-12, 0)
            rec.true("cube-copy|%s|%s" % (u, cp), (not cp) or tuple(c) == u, c)
            c = np.array(u)
            mean, sig = np.array([0.5, 2.2]), np.array([1.0, 0.1])
            o = sampling_util.cube2args_gaussian(c, lo, up, mean, sig, 2, copy=cp)
            F = lambda z: stats.norm.cdf(z)
            cdf = (F((o - mean) / sig) - F((lo - mean) / sig)) / (F((up - mean) / sig) - F((lo - mean) / sig))
            rec.same("cube-gauss|%s|%s" % (u, cp), cdf, u, 1e-7, 1e-9)
            rec.true("cube-gauss-copy|%s|%s" % (u, cp), (not cp) or tuple(c) == u, c)
        rec.same("unit|%s" % (u,), sampling_util.uniform2unit(sampling_util.unit2uniform(np.array(u), lo, up), lo, up), u, 1e-12, 1e-12)
        rec.trans(4)
    for sc in (0.1, 1.0, 2.5):
        for t in (list, np.array):
            a, b = sampling_util.scale_limits(t(lo), t(up), sc)
            rec.same("scale|%g|%s" % (sc, t.__name__), [a, b], [(lo + up) / 2 - sc * (up - lo) / 2, (lo + up) / 2 + sc * (up - lo) / 2], 1e-12, 0)
    for dist in ("uniform", "normal"):
        b = sampling_util.sample_ball(np.array([1.0, -2.0]), np.array([0.1, 0.0]), 400, dist)
        rec.true("ball-shape|" + dist, b.shape == (400, 2) and np.all(b[:, 1] == -2.0), b.shape)
        rec.true("ball-range|" + dist, dist == "normal" or np.all(abs(b[:, 0] - 1) <= 0.1), "")
        rec.true("ball-centre|" + dist, abs(b[:, 0].mean() - 1) < 0.03 and len(set(b[:, 0])) == 400, b[:, 0].mean())
    rec.raises("ball-refused", lambda: sampling_util.sample_ball([0.0], [1.0], 2, "no"), ValueError)
    b = sampling_util.sample_ball_truncated(np.array([1.0, -2.0]), np.array([1.0, 0.5]), np.array([0.5, -2.1]), np.array([1.2, 0.0]), 300)
    rec.true("ball-truncated", b.shape == (300, 2) and np.all(b >= [0.5, -2.1]) and np.all(b <= [1.2, 0.0]) and b.min(axis=0)[0] < 0.6 and b.max(axis=0)[1] > -1.5, b.min(axis=0))
    rec.state("errors")


# ---- shapes and spectra -------------------------------------------------------------------------------------------------
def shapes(rec):
    X, Y = util.make_grid(61, 0.1)
    for e1, e2 in itertools.product((-0.2, 0.0, 0.15), repeat=2):
        for cx, cy in ((0.0, 0.0), (0.3, -0.2)):
            phi, q = param_util.ellipticity2phi_q(e1, e2)
            rec.same("ellipticity|%g|%g" % (e1, e2), param_util.phi_q2_ellipticity(phi, q), [e1, e2], 1e-9, 1e-12)
            c, s = np.cos(phi), np.sin(phi)
            u, v = c * (X - cx) + s * (Y - cy), -s * (X - cx) + c * (Y - cy)
            tx, ty = param_util.transform_e1e2_product_average(X, Y, e1, e2, cx, cy)
            rec.same("product|%g|%g|%g" % (e1, e2, cx), tx**2 + ty**2, q * u**2 + v**2 / q, 1e-9, 1e-12)
            tx, ty = param_util.elliptical_distortion_product_average(X, Y, e1, e2, cx, cy)
            rec.same("product-shift|%g|%g|%g" % (e1, e2, cx), (tx - cx) ** 2 + (ty - cy) ** 2, q * u**2 + v**2 / q, 1e-9, 1e-12)
            tx, ty = param_util.transform_e1e2_square_average(X, Y, e1, e2, cx, cy)
            rec.same("square|%g|%g|%g" % (e1, e2, cx), tx**2 + ty**2, (2 * q**2 * u**2 + 2 * v**2) / (1 + q**2), 1e-9, 1e-12)
            I = np.exp(-(q * u**2 + v**2 / q) / 2 / 0.25**2)
            s0 = I.copy()
            for it in (False, True):
                got = analysis_util.ellipticities(I, X, Y, iterative=it, center_x=cx, center_y=cy)
                rec.same("moments|%g|%g|%g|%s" % (e1, e2, cx, it), got, [e1, e2], 0.02, 0.004)
            rec.unchanged("moments-input|%g|%g|%g" % (e1, e2, cx), s0, I)
            m = analysis_util.moments(I, X, Y)
            det = [np.sum(I * (X - cx) ** 2), np.sum(I * (X - cx) * (Y - cy)), np.sum(I * (Y - cy) ** 2), 0]
            rec.same("quadrupole|%g|%g|%g" % (e1, e2, cx), m, det, 1e-3, 1e-3)
            h = analysis_util.half_light_radius(I, X, Y, cx, cy)
            if e1 == 0 and e2 == 0:
                rec.same("half-light|%g" % cx, h, 0.25 * np.sqrt(2 * np.log(2)), 0.04, 0.01)
            Ir, r = analysis_util.radial_profile(I, X, Y, cx, cy, n=7)
            R = np.hypot(X - cx, Y - cy)
            edges = np.concatenate([[-1], r[:-1], [1e9]])
            rec.same("shells|%g|%g|%g" % (e1, e2, cx), Ir, [np.sum(I[(R > a) & (R <= b)]) for a, b in zip(edges[:-1], edges[1:])], 1e-9, 1e-12)
            rec.same("shell-radii|%g" % cx, r, np.arange(1, 8) / 7.0 * R.max(), 1e-12, 0)
            rec.trans(6)
    for g, p in itertools.product((0.0, 0.1, 0.3), np.linspace(-1.5, 1.5, 7)):
        a = param_util.shear_polar2cartesian(p, g)
        rec.same("shear|%g|%g" % (g, p), a, [g * np.cos(2 * p), g * np.sin(2 * p)], 1e-12, 1e-12)
        if g:
            rec.same("shear-back|%g|%g" % (g, p), param_util.shear_cartesian2polar(*a), [p, g], 1e-9, 1e-12)
    for x, y in itertools.product((-1.0, 0.2, 2.0), repeat=2):
        r, p = param_util.cart2polar(x, y, 0.3, -0.4)
        rec.same("polar|%g|%g" % (x, y), [r * np.cos(p) + 0.3, r * np.sin(p) - 0.4], [x, y], 1e-12, 1e-12)
    # profiles of images around any pixel
    for shape in ((5, 5), (6, 4), (7, 9)):
        a = img(*shape)
        for cx, cy in itertools.product(range(shape[1]), range(shape[0])):
            yy, xx = np.indices(shape)
            r = np.hypot(xx - cx, yy - cy).astype(int)
            got = image_util.radial_profile(a, (cx, cy))
            rec.same("profile|%s|%d|%d" % (shape, cx, cy), got, [a[r == k].mean() for k in range(r.max() + 1)], 1e-12, 0)
            av, rb = analysis_util.azimuthal_average(a, center=(cx, cy))
            ks = sorted(set(r.flatten()))[1:-1]
            rec.same("azimuthal|%s|%d|%d" % (shape, cx, cy), av, [a[r == k].mean() for k in ks], 1e-12, 0)
            rec.true("azimuthal-radii|%s|%d|%d" % (shape, cx, cy), len(rb) == len(av), rb)
            rec.trans(2)
    # spectra: every Fourier mode of the grid
    for n in (4, 6):
        for kx, ky in itertools.product(range(n), repeat=2):
            yy, xx = np.indices((n, n))
            a = np.cos(2 * np.pi * (kx * xx + ky * yy) / n)
            P = correlation.power_spectrum_2d(a)
            want = np.zeros((n, n))
            for s in (1, -1):
                want[(s * ky + n // 2) % n, (s * kx + n // 2) % n] += 0.5
            rec.same("spectrum|%d|%d|%d" % (n, kx, ky), P, want**2, 1e-9, 1e-12)
            rec.same("parseval|%d|%d|%d" % (n, kx, ky), P.sum(), np.mean(a**2), 1e-9, 1e-12)
            p1, r1 = correlation.power_spectrum_1d(a)
            av, rb = analysis_util.azimuthal_average(P)
            rec.same("spectrum-1d|%d|%d|%d" % (n, kx, ky), [p1, r1], [av, rb], 1e-12, 1e-15)
            rec.trans()
    for ny, nx in itertools.product((2, 3, 4, 5), repeat=2):
        for kx, ky in itertools.product(range(nx), range(ny)):
            yy, xx = np.indices((ny, nx))
            a = 1.5 * np.cos(2 * np.pi * (kx * xx / nx + ky * yy / ny) + 0.3) + 0.2
            P = correlation.power_spectrum_2d(a)
            rec.same("rectangle|%d|%d|%d|%d" % (ny, nx, kx, ky), [P.shape, P.sum()], [a.shape, np.mean(a**2)], 1e-9, 1e-12)
            rec.same("rectangle-mean|%d|%d|%d|%d" % (ny, nx, kx, ky), P[ny // 2, nx // 2], np.mean(a) ** 2, 1e-9, 1e-12)
            rec.trans()
    # half-light radii and second moments of every small image, negative pixels and pedestals included
    X, Y = np.meshgrid([-1.0, 0.0, 1.0], [-0.5, 0.5])
    for v in itertools.product((-1.0, 0.0, 1.0, 3.0), repeat=6):
        I = np.array(v)
        if np.all(I <= 0):
            continue
        s0 = I.copy()
        for cx, cy in ((0.0, 0.0), (0.9, -0.3)):
            h = analysis_util.half_light_radius(I, X.ravel(), Y.ravel(), cx, cy)
            R = np.hypot(X.ravel() - cx, Y.ravel() - cy)
            pos = np.maximum(I, 0)
            step = R.max() / 500.0
            rec.true("half-light-definition", np.sum(pos[R <= h + 1e-9]) >= 0.5 * pos.sum() >= np.sum(pos[R < h - step - 1e-9]), "%s %s %s" % (v, (cx, cy), h))
        low = min(0.0, I.min())
        J = I - low
        mx, my = np.sum(J * X.ravel()) / J.sum(), np.sum(J * Y.ravel()) / J.sum()
        r2 = (X.ravel() - mx) ** 2 + (Y.ravel() - my) ** 2
        if np.min(np.abs(np.sqrt(r2) - 2.0 / 3)) > 1e-9:
            use = J * (r2 < 4.0 / 9)
            want = [np.sum(use * (X.ravel() - mx) ** 2), np.sum(use * (X.ravel() - mx) * (Y.ravel() - my)), np.sum(use * (Y.ravel() - my) ** 2), low / J.mean()]
            rec.same("moments-definition", analysis_util.moments(I, X.ravel(), Y.ravel()), want, 1e-9, 1e-12, str(v))
        rec.unchanged("small-image", s0, I)
        rec.trans(3)
        rec.state(v)
    # shells with a common border divide the plane, pixels on the border included
    X, Y = np.meshgrid(np.arange(-2, 3) * 0.5, np.arange(-2, 3) * 0.5)
    for a, b, c in itertools.combinations((0.0, 0.5, 0.6, 1.0, 2.0), 3):
        m = lambda i, o: mask_util.mask_shell(X, Y, 0.0, 0.0, i, o)
        rec.same("shells-divide", m(a, b) + m(b, c), m(a, c), 0, 0, "%g %g %g" % (a, b, c))
        rec.trans()
    # polar derivatives
    h = 1e-5
    R = lambda x, y: np.hypot(x, y)
    PH = lambda x, y: np.arctan2(y, x)
    D = derivative_util
    for x, y in ((1.0, 0.5), (-0.7, 1.2), (0.3, -2.0), (-1.1, -0.4), (0.0, 0.8), (0.9, 0.0)):
        key = "%g|%g" % (x, y)
        dx = lambda f: (f(x + h, y) - f(x - h, y)) / 2 / h
        dy = lambda f: (f(x, y + h) - f(x, y - h)) / 2 / h
        for nm, got, want in (
            ("r_x", D.d_r_dx(x, y), dx(R)), ("r_y", D.d_r_dy(x, y), dy(R)), ("r_xx", D.d_r_dxx(x, y), dx(D.d_r_dx)), ("r_yy", D.d_r_dyy(x, y), dy(D.d_r_dy)), ("r_xy", D.d_r_dxy(x, y), dy(D.d_r_dx)),
            ("p_x", D.d_phi_dx(x, y), dx(PH)), ("p_y", D.d_phi_dy(x, y), dy(PH)), ("p_xx", D.d_phi_dxx(x, y), dx(D.d_phi_dx)), ("p_yy", D.d_phi_dyy(x, y), dy(D.d_phi_dy)), ("p_xy", D.d_phi_dxy(x, y), dy(D.d_phi_dx)),
            ("xr_x", D.d_x_diffr_dx(x, y), dx(lambda a, b: a / R(a, b))), ("yr_y", D.d_y_diffr_dy(x, y), dy(lambda a, b: b / R(a, b))), ("yr_x", D.d_y_diffr_dx(x, y), dx(lambda a, b: b / R(a, b))), ("xr_y", D.d_x_diffr_dy(x, y), dy(lambda a, b: a / R(a, b))),
        ):
            rec.same("derivative|%s|%s" % (nm, key), got, want, 1e-6, 1e-7)
        rec.trans()
    rec.state("shapes")


def expansions(rec):
    """multi-Gaussian expansion, primary beam, alignment of kinematic maps"""
    mg = multi_gauss_expansion
    r = np.logspace(-2, 1.5, 120)
    for N in (4, 10, 20):
        for lin in (False, True):
            for which in ("exp", "sersic", "power"):
                f = {"exp": np.exp(-r), "sersic": np.exp(-(r ** 0.5) * 2), "power": 1 / (1 + r**2)}[which]
                s0 = snap((r, f))
                a, s, norm = mg.mge_1d(r, f, N=N, linspace=lin)
                model = sum(p / (2 * np.pi * q**2) * np.exp(-((r / q) ** 2) / 2) for p, q in zip(a, s))
                key = "%d|%s|%s" % (N, lin, which)
                rec.true("mge-number|" + key, 0 < len(a) == len(s) <= N and np.all(np.asarray(a) >= 0), len(a))
                rec.same("mge-residual|" + key, norm, np.sqrt(np.sum((model - f) ** 2)), 1e-6, 1e-9)
                # optimality of the non-negative least squares: gradient conditions
                A = np.array([np.exp(-((r / q) ** 2) / 2) / (2 * np.pi * q**2) for q in s]).T
                g = A.T @ (f - model)
                sc = np.abs(A.T @ f).max()
                rec.true("mge-optimal|" + key, np.all(g < 1e-6 * sc) and np.all(np.abs(g[np.asarray(a) > 0]) < 1e-6 * sc), g)
                rec.unchanged("mge-input|" + key, s0, snap((r, f)))
                rng = s[0] > r[0] and s[-1] < r[-1] / 2
                rec.true("mge-range|" + key, rng and np.all(np.diff(s) > 0), s)
                st = np.diff(s) if lin else np.diff(np.log(s))
                rec.same("mge-spacing|" + key, st, [st[0]] * len(st), 1e-6, 0)
                if not lin and len(s) >= 9:
                    rec.true("mge-good|" + key, np.max(abs(model - f)) < 0.03 * f.max(), np.max(abs(model - f)))
                a3, s3 = mg.de_projection_3d(np.asarray(a), np.asarray(s))
                z = np.linspace(-120, 120, 240001)
                for R0 in (0.3, 1.5):
                    rho = sum(p / (2 * np.pi * q**2) * np.exp(-(R0**2 + z**2) / 2 / q**2) for p, q in zip(a3, s3) if p > 0)
                    w = sum(p / (2 * np.pi * q**2) * np.exp(-((R0 / q) ** 2) / 2) for p, q in zip(a, s))
                    if N == 10 and not lin:
                        rec.same("mge-projection|%s|%g" % (key, R0), np.sum(rho) * (z[1] - z[0]), w, 1e-4, 1e-9)
                rec.trans()
    # primary beam at and between pixel positions
    pb = np.array([[2 + 0.3 * i - 0.2 * j for i in range(6)] for j in range(5)])
    for x, y in itertools.product((0.0, 1.0, 2.5, 5.0), (0.0, 1.3, 4.0)):
        for order in (1, 3):
            got = primary_beam_util.primary_beam_value_at_coords(np.array([x]), np.array([y]), pb, order=order)
            if (x == int(x) and y == int(y)) or order == 1:
                rec.same("beam|%g|%g|%d" % (x, y, order), got, [2 + 0.3 * x - 0.2 * y], 1e-9, 1e-12)
    for x, y in ((-2.0, 1.0), (8.0, 1.0), (1.0, -3.0), (1.0, 9.0)):
        rec.same("beam-outside|%g|%g" % (x, y), primary_beam_util.primary_beam_value_at_coords(np.array([x]), np.array([y]), pb), [0.0], 0, 0)
    # kinematic maps: rotation and scaling about the image centres
    for ang in (0.0, np.pi / 2, 0.7):
        for ratio in (1.0, 0.5, 2.0):
            for ox, oy in ((0.0, 0.0), (0.2, -0.1)):
                n1, n2 = 10, 12
                k = kin_sampling_util.KinNNImageAlign
                o = k.__new__(k)
                d1, d2 = 0.1 * ratio, 0.1
                x, y = np.array([0.0, 5.0, 7.0]), np.array([0.0, 5.0, 2.0])
                gx, gy = o.rotate_imaging_into_kin_nn(x, y, ang, d1, d2, n1, n2, offsetx=ox, offsety=oy)
                u, v = (x - n1 / 2) * d1 - ox, (y - n1 / 2) * d1 - oy
                c, s = np.cos(ang), np.sin(ang)
                rec.same("align|%g|%g|%g" % (ang, ratio, ox), [(gx - n2 / 2) * d2, (gy - n2 / 2) * d2], [c * u + s * v, -s * u + c * v], 1e-9, 1e-12)
                M = np.array([[d1, 0.02], [-0.01, d1]])
                o2 = o.xy_to_radec(x, y, M, 0.4, -0.3)
                rec.same("align-back|%g|%g|%g" % (ang, ratio, ox), o.radec_to_xy(o2[0], o2[1], M, 0.4, -0.3), [x, y], 1e-9, 1e-9)
                rec.same("align-sky|%g|%g|%g" % (ang, ratio, ox), o2, [M[0, 0] * x + M[0, 1] * y + 0.4, M[1, 0] * x + M[1, 1] * y - 0.3], 1e-12, 1e-12)
                rec.trans()
    rec.state("expansions")


def cases(tier):
    for n in range(1, 14 if tier == "quick" else 26):
        yield "rebin|%d" % n
    if tier == "thorough":
        yield "minima|wide"
    for c in ("resize", "layers", "minima|plateau", "minima|binary", "selection", "masks", "errors", "shapes", "expansions"):
        yield c


def run_case(cid, tier, rec):
    p = cid.split("|")
    if p[0] == "rebin":
        rebin(int(p[1]), rec)
    elif p[0] == "minima":
        minima(p[1], rec)
    else:
        {"resize": resize, "layers": layers, "selection": selection, "masks": masks, "errors": errors, "shapes": shapes, "expansions": expansions}[p[0]](rec)
