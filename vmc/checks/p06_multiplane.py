"""P06: multi-plane lensing solves the multi-plane lens equation.

Every assignment of deflectors to planes (including shared planes, planes at and behind the source, unsorted lists) and
every subset of deflectors given by their observed position is compared with an independent recursion that uses only
astropy distances and single-component deflections.
"""
import itertools

import numpy as np
from astropy.cosmology import FlatLambdaCDM

import lenstronomy.Util.constants as const
from lenstronomy.LensModel.lens_model import LensModel
from lenstronomy.LensModel.Util.decouple_multi_plane_util import (coordinates_and_deflections, decoupled_multiplane_class_setup, setup_grids,
                                                                  setup_lens_model)
from vmc.core import snap

COSMO = FlatLambdaCDM(H0=68, Om0=0.31)
ZS = (0.25, 0.5, 0.503, 0.8, 1.3)  # two of them nearly coincide
MODELS = ["SIS", "EPL", "SHEAR"]
KW = [dict(theta_E=0.6, center_x=0.2, center_y=-0.1), dict(theta_E=0.9, gamma=1.9, e1=0.1, e2=-0.05, center_x=-0.05, center_y=0.1), dict(gamma1=0.05, gamma2=-0.03, ra_0=0.02, dec_0=0.0)]
X = np.array([1.2, -0.7, 0.3, -1.4])
Y = np.array([0.4, 1.1, -0.9, -0.6])


def T(z1, z2):
    if z1 == z2:
        return 0.0
    return COSMO.comoving_transverse_distance(z2).value - COSMO.comoving_transverse_distance(z1).value  # flat


def D(z1, z2):
    return T(z1, z2) / (1 + z2)


class Ref:
    """straightforward recursion; deflectors at the same redshift act on the same plane"""

    def __init__(self, models, zs, zsrc, zconv):
        self.models, self.zs, self.zsrc, self.zconv = models, zs, zsrc, zconv
        self.single = [LensModel([m]) for m in models]

    def trace(self, tx, ty, kw, zstop=None, skip=()):
        zstop = self.zsrc if zstop is None else zstop
        planes = sorted({z for i, z in enumerate(self.zs) if z <= zstop and i not in skip})
        pos, kicks = {}, {}
        geo = 0 * tx
        grav = 0 * tx

        def at(z):
            x, y = T(0, z) * tx, T(0, z) * ty
            for zp in planes:
                if zp < z:
                    x = x - T(zp, z) * kicks[zp][0]
                    y = y - T(zp, z) * kicks[zp][1]
            return x, y

        for z in planes:
            x, y = at(z)
            pos[z] = (x / T(0, z), y / T(0, z))
            ax, ay = 0 * tx, 0 * ty
            for i, zi in enumerate(self.zs):
                if zi == z and i not in skip:
                    fac = D(0, self.zconv) / D(z, self.zconv)
                    dx, dy = self.single[i].alpha(*pos[z], [kw[i]])
                    ax, ay = ax + fac * dx, ay + fac * dy
                    psi = self.single[i].potential(*pos[z], [kw[i]])
                    grav = grav - psi * (1 + z) * D(0, z) * D(0, self.zconv) / D(z, self.zconv)
            kicks[z] = (ax, ay)
        x, y = at(zstop)
        end = (x / T(0, zstop), y / T(0, zstop))
        chain = planes + ([zstop] if zstop not in planes else [])
        allpos = dict(pos)
        allpos[zstop] = end
        for z1, z2 in zip(chain[:-1], chain[1:]):
            d2 = (allpos[z1][0] - allpos[z2][0]) ** 2 + (allpos[z1][1] - allpos[z2][1]) ** 2
            geo = geo + T(0, z1) * T(0, z2) / T(z1, z2) * d2 / 2
        unit = const.Mpc / const.c / const.day_s * const.arcsec ** 2
        return end, geo * unit, grav * unit

    def physical(self, kw, observed):
        """positions of the observed deflectors, foreground first"""
        kw = snap(kw)
        for i in sorted(observed, key=lambda i: self.zs[i]):
            # light of the deflector is bent by everything in front of it, not by its own plane
            end, _, _ = self.trace(np.array([kw[i]["center_x"]]), np.array([kw[i]["center_y"]]), kw, zstop=self.zs[i],
                                   skip=[j for j in range(len(self.zs)) if self.zs[j] >= self.zs[i]])
            kw[i]["center_x"], kw[i]["center_y"] = float(end[0][0]), float(end[1][0])
        return kw


def numgrad(fn, h=1e-5):
    xp, xm = fn(X + h, Y), fn(X - h, Y)
    yp, ym = fn(X, Y + h), fn(X, Y - h)
    d = lambda a, b: (np.array(a) - np.array(b)) / 2 / h
    bx, by = d(xp, xm), d(yp, ym)
    return 1 - bx[0], -by[0], -bx[1], 1 - by[1]


def check_model(rec, lm, ref, kw, what, conv=None, hess=True):
    k0 = snap(kw)
    phys = conv if conv is not None else kw
    (bx, by), geo, grav = ref.trace(X, Y, phys)
    rec.same("ray", lm.ray_shooting(X, Y, kw), [bx, by], 1e-7, 1e-9, what=what)
    rec.same("alpha", lm.alpha(X, Y, kw), [X - bx, Y - by], 1e-7, 1e-9, what=what)
    rec.same("arrival", lm.arrival_time(X, Y, kw), geo + grav, 1e-5, 1e-7, what=what)
    sb = lm.ray_shooting(float(X[1]), float(Y[1]), kw)
    rec.same("single-point", [float(sb[0]), float(sb[1]), float(lm.arrival_time(float(X[1]), float(Y[1]), kw))], [bx[1], by[1], (geo + grav)[1]], 1e-5, 1e-7, what=what)
    if hess:
        H = numgrad(lambda a, b: ref.trace(a, b, phys)[0])
        rec.same("hessian", lm.hessian(X, Y, kw), H, 2e-5, 2e-5, what=what)
        rec.same("hessian-diff", lm.hessian(X, Y, kw, diff=1e-5), H, 2e-5, 2e-5, what=what)
    rec.unchanged("kwargs", k0, kw)
    rec.trans(6)
    rec.trace()
    rec.outcome([bx, geo])


def build(zs, zsrc, zconv, models=MODELS, **kw):
    return LensModel(list(models), lens_redshift_list=list(zs), z_source=zsrc, z_source_convention=zconv, multi_plane=True, cosmo=COSMO, z_lens=0.5, **kw)


def planes_case(zs, tier, rec):
    for zsrc in (0.6, 0.8, 2.0) if tier == "quick" else (0.2, 0.4, 0.6, 0.8, 1.1, 1.3, 2.0, 3.0):
        for zconv in (2.0, 3.0) if zsrc != 3.0 else (3.0,):
            lm = build(zs, zsrc, zconv)
            ref = Ref(MODELS, zs, zsrc, zconv)
            if all(z > zsrc for z in zs):
                # nothing in front of the source
                rec.same("empty-ray", lm.ray_shooting(X, Y, KW), [X, Y], 1e-9, 1e-10, what="%s source %s" % (zs, zsrc))
                rec.same("empty-delay", lm.arrival_time(X, Y, KW), 0 * X, 1e-9, 1e-10, what="%s source %s" % (zs, zsrc))
                continue
            check_model(rec, lm, ref, KW, "planes %s source %s convention %s" % (zs, zsrc, zconv))
            rec.state("%s%s%s" % (zs, zsrc, zconv))


def perm_case(zs, tier, rec):
    """the order of the list is irrelevant"""
    for zsrc in (0.6, 2.0):
        if all(z > zsrc for z in zs):
            continue
        a = build(zs, zsrc, 2.5)
        ra = [a.ray_shooting(X, Y, KW), a.arrival_time(X, Y, KW), a.fermat_potential(X, Y, KW)]
        for p in itertools.permutations(range(3)):
            lm = build([zs[i] for i in p], zsrc, 2.5, models=[MODELS[i] for i in p])
            kw = [KW[i] for i in p]
            rec.same("permutation", [lm.ray_shooting(X, Y, kw), lm.arrival_time(X, Y, kw), lm.fermat_potential(X, Y, kw)], ra, 1e-7, 1e-9, what="order %s of planes %s" % (p, zs))
            rec.trans(3)
            rec.trace()
            rec.state("%s%s%s" % (zs, p, zsrc))
        rec.outcome(ra)


def partial_case(zs, tier, rec):
    """a ray stopped anywhere and continued is the same ray; stopping redshifts on and between the planes"""
    lm = build(zs, 2.0, 2.0)
    ref = Ref(MODELS, zs, 2.0, 2.0)
    mp = lm.lens_model
    stops = sorted({0.1, 0.4, 0.65, 1.0, 2.0} | set(zs))
    full = {}
    for z in stops:
        x, y, ax, ay = mp.ray_shooting_partial_comoving(0 * X, 0 * Y, X, Y, 0, z, KW)
        full[z] = (x, y, ax, ay)
        end = ref.trace(X, Y, KW, zstop=z)[0]
        rec.same("partial-end", [x / T(0, z), y / T(0, z)], end, 1e-7, 1e-9, what="planes %s stop at %s" % (zs, z))
        bx, by, pax, pay = mp.ray_shooting_partial(0 * X, 0 * Y, X, Y, 0, z, KW)
        rec.same("partial-angle", [bx, by, pax, pay], [end[0], end[1], ax, ay], 1e-7, 1e-9, what="planes %s stop at %s" % (zs, z))
        ts, te = mp.transverse_distance_start_stop(0, z)
        xx = mp.ray_shooting_partial_comoving(0 * X, 0 * Y, X, Y, 0, z, KW, T_ij_start=ts, T_ij_end=te)
        rec.same("partial-distances", xx, full[z], 1e-9, 1e-10, what="planes %s stop at %s, distances given" % (zs, z))
        rec.trans(3)
    for z1, z2 in itertools.combinations(stops, 2):
        x, y, ax, ay = full[z1]
        o = mp.ray_shooting_partial_comoving(x, y, ax, ay, z1, z2, KW)
        rec.same("composition", o, full[z2], 1e-7, 1e-9, what="planes %s, 0->%s->%s vs 0->%s" % (zs, z1, z2, z2))
        ts, te = mp.transverse_distance_start_stop(z1, z2)
        o2 = mp.ray_shooting_partial_comoving(x, y, ax, ay, z1, z2, KW, T_ij_start=ts, T_ij_end=te)
        rec.same("composition-distances", o2, full[z2], 1e-7, 1e-9, what="planes %s, 0->%s->%s, distances given" % (zs, z1, z2))
        o3 = mp.ray_shooting_partial(x / T(0, z1), y / T(0, z1), ax, ay, z1, z2, KW)
        rec.same("composition-angle", o3, [full[z2][0] / T(0, z2), full[z2][1] / T(0, z2), full[z2][2], full[z2][3]], 1e-7, 1e-9, what="planes %s, 0->%s->%s" % (zs, z1, z2))
        # including the starting plane: the deflection of that plane is added once more
        if z1 in zs:
            kick = [0 * X, 0 * Y]
            for i, z in enumerate(zs):
                if z == z1:
                    d = LensModel([MODELS[i]]).alpha(x / T(0, z1), y / T(0, z1), [KW[i]])
                    f = D(0, 2.0) / D(z1, 2.0)
                    kick = [kick[0] + f * d[0], kick[1] + f * d[1]]
            o4 = mp.ray_shooting_partial_comoving(x, y, ax, ay, z1, z2, KW, include_z_start=True)
            o5 = mp.ray_shooting_partial_comoving(x, y, ax - kick[0], ay - kick[1], z1, z2, KW, include_z_start=False)
            rec.same("include-start", o4, o5, 1e-7, 1e-9, what="planes %s from %s to %s" % (zs, z1, z2))
        # hessian between two redshifts
        if z1 in (0.1, 0.4) and z2 in (1.0, 2.0):
            H = lm.hessian_z1z2(z1, z2, X, Y, KW, diff=1e-6)

            def beta(a, b):
                q = mp.ray_shooting_partial_comoving(X * T(0, z1), Y * T(0, z1), a, b, z1, z2, KW)
                return q[0] / T(z1, z2), q[1] / T(z1, z2)
            rec.same("hessian-z1z2", H, numgrad(beta), 1e-3, 1e-4, what="planes %s from %s to %s" % (zs, z1, z2))
        rec.trans(4)
    # from the observer to the source it is the ordinary Hessian
    rec.trace()
    rec.state(str(zs))
    rec.outcome([full[z][0] for z in stops])


def observed_case(zs, tier, rec):
    """all subsets of the deflectors given by their observed (lensed) position"""
    kw = KW[:2] + [dict(theta_E=0.4, center_x=0.5, center_y=0.6)]
    models = MODELS[:2] + ["SIS"]
    for n in range(1, 4):
        for sub in itertools.combinations(range(3), n):
            for order in (itertools.permutations(sub) if tier != "quick" or n == 2 else [sub]):
                for zsrc in (2.0,) if tier == "quick" else (0.9, 2.0):
                    if all(z > zsrc for z in zs):
                        continue
                    ref = Ref(models, zs, zsrc, 2.0)
                    lm = build(zs, zsrc, 2.0, models=models, observed_convention_index=list(order))
                    phys = ref.physical(kw, sub)
                    what = "planes %s observed %s" % (zs, order)
                    rec.same("converted", lm.lens_model.observed2flat_convention(kw), phys, 1e-7, 1e-9, what=what)
                    check_model(rec, lm, ref, kw, what, conv=phys, hess=(order == sub))
                    rec.state("%s%s%s" % (zs, order, zsrc))


def single_case(rec):
    """deflectors on one plane: multi-plane = single plane, for every source redshift and convention"""
    for zl, zsrc, zconv in itertools.product((0.3, 0.7), (0.9, 1.5, 3.0), (None, 2.0, 4.0)):
        if zconv is not None and zconv < zsrc:
            pass
        kwargs = dict(z_lens=zl, z_source=zsrc, z_source_convention=zconv, cosmo=COSMO)
        s = LensModel(MODELS, **kwargs)
        m = LensModel(MODELS, lens_redshift_list=[zl] * 3, multi_plane=True, **kwargs)
        what = "plane %s source %s convention %s" % (zl, zsrc, zconv)
        for fn in ("ray_shooting", "alpha"):
            rec.same("single-" + fn, getattr(m, fn)(X, Y, KW), getattr(s, fn)(X, Y, KW), 1e-6, 1e-8, what=what)
        rec.same("single-hessian", m.hessian(X, Y, KW, diff=1e-5), s.hessian(X, Y, KW), 1e-5, 1e-6, what=what)
        rec.same("single-delay", m.arrival_time(X, Y, KW), s.arrival_time(X, Y, KW), 1e-5, 1e-6, what=what)
        rec.same("single-fermat", m.fermat_potential(X, Y, KW), s.fermat_potential(X, Y, KW), 1e-5, 1e-6, what=what)
        rec.same("ddt", m.ddt_scaling, s.ddt_scaling, 1e-9, what=what)
        i = LensModel(MODELS, lens_redshift_list=[zl] * 3, multi_plane=True, cosmo_interp=True, z_interp_stop=5, num_z_interp=500, **kwargs)
        rec.same("interp", [i.ray_shooting(X, Y, KW), i.arrival_time(X, Y, KW)], [m.ray_shooting(X, Y, KW), m.arrival_time(X, Y, KW)], 2e-3, 2e-3, what=what)
        rec.trans(7)
        rec.trace()
        rec.state(what)
        rec.outcome(s.alpha(X, Y, KW))
    # no deflector at all
    e = LensModel([], lens_redshift_list=[], multi_plane=True, z_source=1.5, z_lens=0.5, cosmo=COSMO)
    rec.same("no-deflector", e.ray_shooting(X, Y, []), [X, Y], 1e-10, what="empty list")
    rec.same("no-deflector-hessian", e.hessian(X, Y, []), np.zeros((4, 4)), 1e-10, 1e-6, what="empty list")
    rec.same("no-deflector-delay", e.arrival_time(X, Y, []), 0 * X, 1e-10, 1e-10, what="empty list")


def decoupled_case(zs, tier, rec):
    """splitting off the deflectors of one plane and interpolating the rest reproduces the coupled model"""
    lm = LensModel(MODELS, lens_redshift_list=list(zs), z_source=2.0, multi_plane=True, cosmo=COSMO)
    want = lm.ray_shooting(X, Y, KW)
    for zsplit in sorted(set(zs)):
        idx = [i for i, z in enumerate(zs) if z == zsplit]
        for r in range(1, len(idx) + 1):
            for split in itertools.combinations(idx, r):
                if len(split) == 3:
                    continue
                fixed, free, kfix, kfree, z_source, z_split, bkg = setup_lens_model(lm, KW, list(split))
                what = "planes %s split %s" % (zs, split)
                rec.same("split", [kfree, kfix], [[KW[i] for i in split], [KW[i] for i in range(3) if i not in split]], what=what)
                for typ in ("POINT", "MULTIPLE_IMAGES", "GRID"):
                    if typ == "GRID":
                        gx, gy, pts, npix = setup_grids(0.9, 0.3)
                        gx, gy = gx + 0.6, gy + 0.5
                        pts = (pts[0] + 0.6, pts[1] + 0.5)
                    else:
                        gx, gy, pts = X, Y, None
                    out = coordinates_and_deflections(fixed, free, kfix, kfree, gx, gy, z_split, z_source, bkg)
                    kwd = decoupled_multiplane_class_setup(free, *out, z_split, coordinate_type=typ, interp_points=pts, x_image=X, y_image=Y)
                    dec = LensModel(**kwd)
                    rec.same("decoupled-" + typ, dec.ray_shooting(gx, gy, kfree), lm.ray_shooting(gx, gy, KW), 1e-7, 1e-8, what=what)
                    if typ == "MULTIPLE_IMAGES":
                        for p in itertools.permutations(range(4)):
                            p = list(p)
                            rec.same("decoupled-images", dec.ray_shooting(X[p], Y[p], kfree), [want[0][p], want[1][p]], 1e-7, 1e-8, what=what)
                    rec.trans()
                rec.trace()
                rec.state(what)
    rec.outcome(want)


def update_case(zs, tier, rec):
    """one ray tracer moved from source to source answers like one built for that source"""
    from lenstronomy.LensModel.MultiPlane.multi_plane import MultiPlane

    Z = (0.6, 0.8, 0.805, 2.0) if tier == "quick" else (0.3, 0.6, 0.8, 0.805, 1.1, 2.0, 2.01)

    def new(z):
        return MultiPlane(z, list(MODELS), list(zs), cosmo=COSMO, z_source_convention=2.0)

    def ask(m):
        return [m.ray_shooting(X, Y, KW), m.arrival_time(X, Y, KW), m.hessian(X, Y, KW, diff=1e-4)]
    fresh = {z: ask(new(z)) for z in Z}
    lenses = {z: build(zs, z, 2.0) for z in Z}
    for z in Z:
        rec.same("tracer", fresh[z][:2], [lenses[z].ray_shooting(X, Y, KW), lenses[z].arrival_time(X, Y, KW)], 1e-9, 1e-11, what="planes %s source %s" % (zs, z))
    for seq in [q for r in (2, 3) for q in itertools.product(Z, repeat=r)]:
        m = new(seq[0])
        lm = build(zs, seq[0], 2.0)
        for z in seq[1:]:
            if len(seq) == 3:
                ask(m)
                lm.ray_shooting(X, Y, KW)
            m.update_source_redshift(z)
            lm.change_source_redshift(z)
        rec.same("moved-source", ask(m), fresh[seq[-1]], 1e-9, 1e-11, what="planes %s sources %s" % (zs, seq))
        rec.same("moved-source-lens", [lm.ray_shooting(X, Y, KW), lm.arrival_time(X, Y, KW)], fresh[seq[-1]][:2], 1e-9, 1e-11, what="planes %s sources %s" % (zs, seq))
        rec.trans(2 * len(seq))
        rec.trace()
        rec.state("%s %s" % (zs, seq))


def assignments():
    return list(itertools.product(ZS, repeat=3))


def tag(zs):
    return "-".join(str(ZS.index(z)) for z in zs)


def cases(tier):
    out = ["single"]
    for zs in assignments():
        out += ["planes|" + tag(zs), "partial|" + tag(zs), "decoupled|" + tag(zs)]
        out += ["observed|" + tag(zs)]
    for zs in itertools.combinations_with_replacement(ZS, 3):
        out += ["perm|" + tag(zs), "update|" + tag(zs)]
    return out


def run_case(case, tier, rec):
    if case == "single":
        return single_case(rec)
    kind, t = case.split("|")
    zs = [ZS[int(i)] for i in t.split("-")]
    dict(planes=planes_case, perm=perm_case, partial=partial_case, observed=observed_case, decoupled=decoupled_case, update=update_case)[kind](zs, tier, rec)
