"""P09: pixel grids and coordinate transforms describe one affine map, whatever the history of shifts and rotations.

All sequences of alignment updates (shift in either coordinate, rotation, any of them omitted) and coordinate-system shifts on
coordinate systems, pixel grids and image data; compared with an affine reference map and with newly built objects.
"""
import itertools

import numpy as np

from lenstronomy.Data.coord_transforms import Coordinates, Coordinates1D
from lenstronomy.Data.imaging_data import ImageData
from lenstronomy.Data.pixel_grid import PixelGrid
from lenstronomy.Util import util
from vmc.core import snap

MATS = {
    "diag": np.array([[-0.05, 0.0], [0.0, 0.05]]),
    "rot": np.array([[0.06, -0.02], [0.03, 0.05]]),
    "unit": np.array([[1, 0], [0, 1]]),
}
NONE = None
UPD = [u for u in itertools.product((NONE, 0, 0.3), (NONE, 0, -0.2), (NONE, 0, 0.4)) if u != (NONE, NONE, NONE)] + [(0.1, None, None), (None, 0.15, None), (None, None, -1.1), (None, None, None)]
SHIFT = [(0.07, -0.04, False), (1.0, 2.0, True)]


class Ref:
    """affine reference: M.R(phi).pixel + reference origin + shift"""

    def __init__(self, M, ra, dec):
        self.M, self.o = np.array(M, float), np.array([ra, dec], float)
        self.s, self.phi = np.zeros(2), 0.0

    @property
    def T(self):
        c, s = np.cos(self.phi), np.sin(self.phi)
        return self.M @ np.array([[c, -s], [s, c]])

    def update(self, ra, dec, phi):
        before = (tuple(self.s), self.phi)
        if ra is not None:
            self.s[0] = ra
        if dec is not None:
            self.s[1] = dec
        if phi is not None:
            self.phi = phi
        return before != (tuple(self.s), self.phi)

    def shift(self, x, y, pix):
        d = self.T @ np.array([x, y]) if pix else np.array([x, y])
        self.o = self.o + d

    def to_coord(self, x, y):
        p = self.T @ np.array([x, y])
        o = self.o + self.s
        return [p[0] + o[0], p[1] + o[1]]

    def to_pix(self, ra, dec):
        o = self.o + self.s
        return list(np.linalg.inv(self.T) @ np.array([np.asarray(ra) - o[0], np.asarray(dec) - o[1]]))


PTS = (np.array([0.0, 1.0, 2.5, -1.0]), np.array([0.0, 3.0, -0.5, 1.0]))


def observe(obj, kind):
    out = dict(pix2angle=obj.transform_pix2angle, angle2pix=obj.transform_angle2pix, xy0=obj.xy_at_radec_0, radec0=obj.radec_at_xy_0,
               p2c=obj.map_pix2coord(*PTS), p2c_scalar=obj.map_pix2coord(1.0, 2.0), c2p=obj.map_coord2pix(*PTS), c2p_scalar=obj.map_coord2pix(0.3, -0.1),
               area=obj.pixel_area, width=obj.pixel_width, grid=obj.coordinate_grid(3, 2))
    if kind in ("pixelgrid", "image"):
        out.update(coords=obj.pixel_coordinates, center=obj.center, num=obj.num_pixel, axes=obj.num_pixel_axes, fov=obj.width)
    return out


def expected(ref, kind, nx=4, ny=3):
    T = ref.T
    o = ref.o + ref.s
    gx, gy = np.meshgrid(np.arange(3), np.arange(2))
    grid = ref.to_coord(gx.ravel(), gy.ravel())
    grid = [g if kind == "coord1d" else g.reshape(2, 3) for g in grid]
    det = abs(T[0, 0] * T[1, 1] - T[0, 1] * T[1, 0])
    out = dict(pix2angle=T, angle2pix=np.linalg.inv(T), xy0=ref.to_pix(0.0, 0.0), radec0=o, p2c=ref.to_coord(*PTS), p2c_scalar=ref.to_coord(1.0, 2.0),
               c2p=ref.to_pix(*PTS), c2p_scalar=ref.to_pix(0.3, -0.1), area=det, width=np.sqrt(det), grid=grid)
    if kind in ("pixelgrid", "image"):
        gx, gy = np.meshgrid(np.arange(nx), np.arange(ny))
        g = [q.reshape(ny, nx) for q in ref.to_coord(gx.ravel(), gy.ravel())]
        out.update(coords=g, center=[g[0].mean(), g[1].mean()], num=nx * ny, axes=[nx, ny], fov=[nx * np.sqrt(det), ny * np.sqrt(det)])
    return out


def build(kind, mat, first):
    M, ra, dec = MATS[mat], 1.5, -0.7
    if kind == "coord":
        return Coordinates(M.copy(), ra, dec), Ref(M, ra, dec)
    if kind == "coord1d":
        return Coordinates1D(M.copy(), ra, dec), Ref(M, ra, dec)
    if kind == "pixelgrid":
        return PixelGrid(4, 3, M.copy(), ra, dec), Ref(M, ra, dec)
    r, d, p = first
    ref = Ref(M, ra + r, dec + d)
    ref.phi = p
    ref.M = ref.T
    ref.phi = 0.0
    return ImageData(np.zeros((3, 4)), transform_pix2angle=M.copy(), ra_at_xy_0=ra, dec_at_xy_0=dec, ra_shift=r, dec_shift=d, phi_rot=p), ref


def history_case(kind, mat, tier, rec, first):
    ops = [("u",) + u for u in UPD] + [("s",) + s for s in SHIFT]
    depth = 2 if tier == "quick" else 3
    small = [("u", 0.3, None, None), ("u", None, -0.2, 0.4), ("u", 0, 0, 0), ("u", None, None, -1.1), ("s", 0.07, -0.04, False), ("s", 1.0, 2.0, True)]
    seqs = [tuple(q) for d in range(0, depth + 1) for q in itertools.product(ops, repeat=d)]
    if tier == "quick":
        seqs += [tuple(q) for q in itertools.product(small, repeat=3)] + [tuple(q) for q in itertools.product(small, repeat=4)]
    for seq in seqs:
        obj, ref = build(kind, mat, first)
        if len(seq) > 2:
            observe(obj, kind)
        for op in seq:
            if op[0] == "u":
                fn = obj.update_coordinate_grid if kind in ("pixelgrid", "image") else obj.update_coord_transform
                got = fn(*op[1:])
                want = ref.update(*op[1:])
                rec.same("updated-flag", bool(got), want, what=str(seq))
            else:
                obj.shift_coordinate_system(op[1], op[2], pixel_unit=op[3])
                ref.shift(*op[1:])
            rec.trans()
        got, want = observe(obj, kind), expected(ref, kind)
        for k in want:
            rec.same(k, got[k], want[k], 1e-9, 1e-11, what="%s after %s" % (k, seq))
        rec.trace()
        rec.state(str(seq))
    rec.outcome(want["p2c"])


def ctor_case(rec):
    """image data built with an alignment equals the one updated to it"""
    for mat in MATS:
        for u in itertools.product((0, 0.3), (0, -0.2), (0, 0.4)):
            a = ImageData(np.zeros((3, 4)), transform_pix2angle=MATS[mat], ra_at_xy_0=1.5, dec_at_xy_0=-0.7, ra_shift=u[0], dec_shift=u[1], phi_rot=u[2])
            b = ImageData(np.zeros((3, 4)), transform_pix2angle=MATS[mat], ra_at_xy_0=1.5, dec_at_xy_0=-0.7)
            b.update_coordinate_grid(*u)
            rec.same("ctor", observe(a, "image"), observe(b, "image"), 1e-10, 1e-12, what="%s %s" % (mat, u))
            rec.trans()
            rec.state("%s%s" % (mat, u))
    rec.trace()


def util_case(rec):
    for nx in range(1, 6):
        for ny in range(1, 6):
            a = np.arange(nx * ny, dtype=float)
            im = util.array2image(a, nx, ny)
            rec.same("array2image", im, [[a[j * nx + i] for i in range(nx)] for j in range(ny)])
            rec.same("image2array", util.image2array(im), a)
            if nx == ny:
                rec.same("square", util.array2image(a), im)
            for delta in (1.0, 0.3):
                for res in (1, 2, 3):
                    x, y = util.make_grid((nx, ny), delta, subgrid_res=res)
                    wx = (np.arange(nx * res) - (nx * res - 1) / 2.0) * delta / res
                    wy = (np.arange(ny * res) - (ny * res - 1) / 2.0) * delta / res
                    X, Y = np.meshgrid(wx, wy)
                    rec.same("make_grid", [x, y], [X.ravel(), Y.ravel()], what="%dx%d res %d" % (nx, ny, res))
                    if nx == ny:
                        rec.same("make_grid-int", util.make_grid(nx, delta, subgrid_res=res), [x, y])
                    rec.trans()
                x, y = util.make_grid((nx, ny), delta, left_lower=True)
                X, Y = np.meshgrid(np.arange(nx) * delta, np.arange(ny) * delta)
                rec.same("make_grid-ll", [x, y], [X.ravel(), Y.ravel()])
            for mat in MATS:
                M = MATS[mat]
                g = util.grid_from_coordinate_transform(nx, ny, M, 0.4, -0.3)
                X, Y = np.meshgrid(np.arange(nx), np.arange(ny))
                X, Y = X.ravel(), Y.ravel()
                rec.same("grid-transform", g, [M[0, 0] * X + M[0, 1] * Y + 0.4, M[1, 0] * X + M[1, 1] * Y - 0.3])
                if nx == ny:
                    c = util.centered_coordinate_system(nx, M)
                    g = util.grid_from_coordinate_transform(nx, ny, c["transform_pix2angle"], c["ra_at_xy_0"], c["dec_at_xy_0"])
                    rec.same("centered", [np.mean(g[0]), np.mean(g[1])], [0, 0], what="size %d" % nx)
                    rec.same("centered-grid", g, util.make_grid_transformed(nx, M), what="size %d" % nx)
                    if nx > 1:
                        for res in (1, 2, 3):
                            s = util.make_subgrid(g[0], g[1], subgrid_res=res)
                            f = (np.arange(nx * res) + 0.5) / res - 0.5
                            X2, Y2 = np.meshgrid(f, f)
                            X2, Y2 = X2.ravel(), Y2.ravel()
                            rec.same("subgrid", s, [M[0, 0] * X2 + M[0, 1] * Y2 + c["ra_at_xy_0"], M[1, 0] * X2 + M[1, 1] * Y2 + c["dec_at_xy_0"]], 1e-9, 1e-11, what="size %d res %d" % (nx, res))
                            rec.trans()
                rec.trans()
            if nx == ny:
                for inverse in (True, False):
                    for ll in (True, False):
                        for cen in ((0, 0), (0.3, -0.2)):
                            ra, dec, r0, d0, x0, y0, T, Ti = util.make_grid_with_coordtransform(nx, 0.2, left_lower=ll, inverse=inverse, center_ra=cen[0], center_dec=cen[1])
                            i = np.arange(nx) - (0 if ll else (nx - 1) / 2.0)
                            X, Y = np.meshgrid(i * (-0.2 if inverse else 0.2) + cen[0], i * 0.2 + cen[1])
                            rec.same("grid-ct", [ra, dec], [X.ravel(), Y.ravel()], what="%s %s" % (inverse, ll))
                            px, py = np.meshgrid(np.arange(nx), np.arange(nx))
                            rec.same("grid-ct-map", util.map_coord2pix(px.ravel(), py.ravel(), r0, d0, T), [ra, dec])
                            rec.same("grid-ct-inv", util.map_coord2pix(ra, dec, x0, y0, Ti), [px.ravel(), py.ravel()], 1e-9, 1e-10)
                            rec.same("grid-ct-product", T @ Ti, np.eye(2), 1e-10, 1e-12)
                            rec.trans()
                for f in (1, 2, 3):
                    big = np.arange((nx * f) ** 2, dtype=float).reshape(nx * f, nx * f) ** 1.5
                    small = util.averaging(big, nx * f, nx)
                    rec.same("averaging", small, [[big[j * f:(j + 1) * f, i * f:(i + 1) * f].mean() for i in range(nx)] for j in range(nx)], 1e-10)
                ax = util.get_axes(*util.make_grid(nx, 0.3))
                rec.same("axes", ax, [(np.arange(nx) - (nx - 1) / 2.0) * 0.3] * 2)
            rec.state("%d%d" % (nx, ny))
            rec.trace()
            rec.outcome([nx, ny])
    # selections of components: every list of indices and booleans up to length 3
    for n in range(1, 4):
        rec.same("bool-none", util.convert_bool_list(n, None), [True] * n)
        for k in range(n):
            for kk in (k, np.int64(k)):
                rec.same("bool-int", util.convert_bool_list(n, kk), [i == k for i in range(n)])
        for m in range(0, n + 1):
            for sel in itertools.product(range(n), repeat=m):
                rec.same("bool-list", util.convert_bool_list(n, list(sel)), [i in sel for i in range(n)], what=str(sel))
        for sel in itertools.product((True, False), repeat=n):
            rec.same("bool-bool", util.convert_bool_list(n, list(sel)), list(sel), what=str(sel))
        rec.raises("bool-range", lambda: util.convert_bool_list(n, [n]), ValueError)
        rec.raises("bool-length", lambda: util.convert_bool_list(n, [True] * (n + 1)), ValueError)
    # extremum selection: every criteria ordering
    for crit in itertools.permutations([0.5, 1.5, 2.5, -1.0]):
        arr = np.array([[c, 10 * c] for c in crit])
        for m in (1, 2, 3, 4):
            for hi in (True, False):
                want = sorted(crit, reverse=True)[:m] if hi else sorted(crit)[:m]
                for fn in (util.select_best, util.selectBest):
                    got = fn(arr, np.array(crit), m, highest=hi)
                    rec.same("select-%s" % fn.__name__, sorted(got[:, 0]), sorted(want), what="%s of %s" % (m, crit))
                    rec.same("select-row", got[:, 1], 10 * got[:, 0])
                rec.trans()
    # image re-ordering: every permutation
    x, y = np.array([1.0, 2.0, -1.0, 0.3]), np.array([0.0, 1.5, 0.4, -2.0])
    for p in itertools.permutations(range(4)):
        p = list(p)
        idx = util.sort_image_index(x[p], y[p], x, y)
        rec.same("sort-index", [x[p][idx], y[p][idx]], [x, y], what=str(p))
        rec.same("distance", util.get_distance(x[p], y[p], x, y), 0.0)
        rec.trans()
    for ang in np.linspace(-3, 3, 13):
        xr, yr = util.rotate(x, y, ang)
        rec.same("rotate-back", util.rotate(xr, yr, -ang), [x, y], 1e-10, 1e-12)
        rec.same("rotate", xr + 1j * yr, (x + 1j * y) * np.exp(-1j * ang), 1e-10, 1e-12)
    for s in (0.1, 1.0, 3.7):
        rec.same("fwhm", util.fwhm2sigma(util.sigma2fwhm(s)), s, 1e-12)
        rec.same("fwhm-def", np.exp(-(util.sigma2fwhm(s) / 2) ** 2 / (2 * s ** 2)), 0.5, 1e-10)


KINDS = [("coord", (0, 0, 0)), ("coord1d", (0, 0, 0)), ("pixelgrid", (0, 0, 0)), ("image", (0, 0, 0)), ("image", (0.2, 0, 0)), ("image", (0.2, -0.1, 0.3))]


def cases(tier):
    return ["util", "ctor"] + ["history|%s|%s|%d" % (k, m, i) for i, (k, _) in enumerate(KINDS) for m in MATS]


def run_case(case, tier, rec):
    if case == "util":
        return util_case(rec)
    if case == "ctor":
        return ctor_case(rec)
    _, k, m, i = case.split("|")
    history_case(k, m, tier, rec, KINDS[int(i)][1])
