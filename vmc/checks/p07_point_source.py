"""P07: point sources answer for the current parameters, lens and settings, whatever was asked before.

All histories of queries, cache switches, lens replacement and search-window updates on one PointSource object; every answer is
compared with a reference computed per point source on separate lens models.
"""
import itertools

import numpy as np
from astropy.cosmology import FlatLambdaCDM

from lenstronomy.LensModel.lens_model import LensModel
from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
from lenstronomy.PointSource.point_source import PointSource
from vmc.core import snap

COSMO = FlatLambdaCDM(H0=70, Om0=0.3)
LENS = ["EPL", "SHEAR"]
KL = {"A": [dict(theta_E=1.2, gamma=2.0, e1=0.2, e2=-0.15, center_x=0.0, center_y=0.0), dict(gamma1=0.03, gamma2=0.02, ra_0=0, dec_0=0)],
      "B": [dict(theta_E=1.0, gamma=2.1, e1=-0.2, e2=0.18, center_x=0.01, center_y=0.02), dict(gamma1=-0.02, gamma2=0.04, ra_0=0, dec_0=0)]}
SOLVER = dict(solver="lenstronomy", search_window=4.0, min_distance=0.1, x_center=0, y_center=0)
TYPES = ("UNLENSED", "LENSED_POSITION", "SOURCE_POSITION")


def lens(zs=2.0, conv=2.0):
    return LensModel(LENS, z_lens=0.5, z_source=zs, z_source_convention=conv, cosmo=COSMO)


def kw_ps(types, fixed, which):
    out = []
    s = 0 if which == "A" else 1
    for i, t in enumerate(types):
        if t == "SOURCE_POSITION":
            k = dict(ra_source=0.03 - 0.02 * s + 0.005 * i, dec_source=-0.02 + 0.03 * s + 0.005 * i)
            n = 4
        else:
            k = dict(ra_image=np.array([1.1, -0.9, 0.3]) + 0.02 * s + 0.01 * i, dec_image=np.array([0.2, 0.5, -1.2]) - 0.03 * s)
            n = 3
        if fixed[i] and t != "UNLENSED":
            k["source_amp"] = 2.0 + s + i
        else:
            k["point_amp"] = np.array([3.0, 2.0, 1.5, 0.7][:n]) + 0.5 * s + 0.1 * i
        out.append(k)
    return out


def nearest(xo, yo, x, y):
    """each image of the model parameters followed by its nearest solution, then the remaining solutions in their order"""
    if len(x) < len(xo):
        return np.array(xo), np.array(yo)
    left = list(range(len(x)))
    order = []
    for a, b in zip(xo, yo):
        j = min(left, key=lambda i: (x[i] - a) ** 2 + (y[i] - b) ** 2)
        left.remove(j)
        order.append(j)
    order += left
    return np.asarray(x)[order], np.asarray(y)[order]


class Ref:
    """per-source reference on separate lens models; memoised by everything it depends on"""
    MEMO = {}

    def __init__(self, types, fixed, z, flux, frames=None, add=None):
        self.types, self.fixed, self.z, self.flux = types, fixed, z, flux
        self.frames = frames
        self.add = add or [False] * len(types)
        self.conv = 2.0

    def solve(self, zs, xs, ys, kl, solver, mag_limit):
        key = (self.conv, zs, float(xs), float(ys), repr(kl), repr(sorted(solver.items())), mag_limit)
        if key not in self.MEMO:
            self.MEMO[key] = LensEquationSolver(lens(zs, self.conv)).image_position_from_source(xs, ys, kl, magnification_limit=mag_limit, **solver)
        return self.MEMO[key]

    def lens(self, i):
        return lens(self.z[i] if self.z[i] is not None else 2.0, self.conv)

    def zof(self, i):
        return self.z[i] if self.z[i] is not None else 2.0

    def src(self, i, kp, kl):
        k = kp[i]
        if self.types[i] == "UNLENSED":
            return np.array(k["ra_image"]), np.array(k["dec_image"])
        if self.types[i] == "SOURCE_POSITION":
            return np.array(k["ra_source"]), np.array(k["dec_source"])
        lm = self.lens(i)
        if self.frames is None:
            b = lm.ray_shooting(k["ra_image"], k["dec_image"], kl)
        else:
            b = np.array([lm.ray_shooting(k["ra_image"][j], k["dec_image"][j], kl, k=self.frames[i][j]) for j in range(3)]).T
        return np.mean(b[0]), np.mean(b[1])

    def img(self, i, kp, kl, solver, mag_limit, additional=False):
        k = kp[i]
        if self.types[i] == "UNLENSED" or (self.types[i] == "LENSED_POSITION" and not (additional or self.add[i])):
            return np.array(k["ra_image"]), np.array(k["dec_image"])
        xs, ys = self.src(i, kp, kl)
        return self.solve(self.zof(i), xs, ys, kl, solver, mag_limit)

    def mag(self, i, x, y, kl):
        lm = self.lens(i)
        if self.frames is not None and self.types[i] == "LENSED_POSITION":
            return np.array([abs(lm.magnification(x[j], y[j], kl, k=self.frames[i][j])) for j in range(len(x))])
        return np.abs(lm.magnification(np.asarray(x), np.asarray(y), kl))

    def amp(self, i, kp, kl, solver, mag_limit, unit=False):
        x, y = self.img(i, kp, kl, solver, mag_limit)
        if not self.flux[i]:
            return np.zeros(len(x))
        if self.types[i] != "UNLENSED" and self.fixed[i]:
            a = self.mag(i, x, y, kl) * (1 if unit else kp[i]["source_amp"])
        elif unit:
            a = np.ones(len(x))
        else:
            pa = np.asarray(kp[i]["point_amp"])
            a = np.zeros(len(x))
            a[:len(pa)] = pa[:len(x)]
        return a

    def source_amp(self, i, kp, kl, solver, mag_limit):
        if not self.flux[i]:
            return None
        if self.types[i] == "UNLENSED":
            return np.asarray(kp[i]["point_amp"])
        if self.fixed[i]:
            return np.asarray(kp[i]["source_amp"])
        if self.types[i] == "LENSED_POSITION":
            x, y = kp[i]["ra_image"], kp[i]["dec_image"]
        else:
            x, y = self.img(i, kp, kl, solver, mag_limit)
        n = len(x)
        pa = np.asarray(kp[i]["point_amp"])
        return np.mean(pa / self.mag(i, x, y, kl)) if len(pa) == n else None

    def answer(self, q, kp, kl, solver, mag_limit):
        r = range(len(self.types))
        I = [self.img(i, kp, kl, solver, mag_limit) for i in r]
        if q == "image":
            return [i[0] for i in I], [i[1] for i in I]
        if q == "additional":
            A = [self.img(i, kp, kl, solver, mag_limit, True) for i in r]
            return [i[0] for i in A], [i[1] for i in A]
        if q == "original":
            out = [], []
            for i in r:
                x, y = I[i]
                if self.types[i] == "LENSED_POSITION" and self.add[i]:
                    x, y = nearest(kp[i]["ra_image"], kp[i]["dec_image"], x, y)
                out[0].append(x)
                out[1].append(y)
            return out
        if q == "original_add":
            out = [], []
            for i in r:
                x, y = self.img(i, kp, kl, solver, mag_limit, True)
                if self.types[i] == "LENSED_POSITION":
                    x, y = nearest(kp[i]["ra_image"], kp[i]["dec_image"], x, y)
                out[0].append(x)
                out[1].append(y)
            return out
        if q == "source":
            S = [self.src(i, kp, kl) for i in r]
            return [i[0] for i in S], [i[1] for i in S]
        if q == "amp":
            return [self.amp(i, kp, kl, solver, mag_limit) for i in r]
        if q == "source_amp":
            return [self.source_amp(i, kp, kl, solver, mag_limit) for i in r]
        if q == "num":
            return sum((1 if self.fixed[i] else len(I[i][0])) for i in r if self.flux[i])
        if q in ("response", "response_amp"):
            ra, dec, am = [], [], []
            for i in r:
                if not self.flux[i]:
                    continue
                a = self.amp(i, kp, kl, solver, mag_limit, unit=q == "response")
                if self.fixed[i]:
                    ra.append(list(I[i][0]))
                    dec.append(list(I[i][1]))
                    am.append(list(a))
                else:
                    for j in range(len(I[i][0])):
                        ra.append([I[i][0][j]])
                        dec.append([I[i][1][j]])
                        am.append([a[j]])
            return ra, dec, am, len(ra)
        if q == "list":
            out = [], [], []
            for i in r:
                a = self.amp(i, kp, kl, solver, mag_limit)
                for j in range(len(I[i][0])):
                    if a[j] != 0:
                        out[0].append(I[i][0][j])
                        out[1].append(I[i][1][j])
                        out[2].append(a[j])
            return out


def ask(ps, q, kp, kl):
    if q == "image":
        return ps.image_position(kp, kl)
    if q == "additional":
        return ps.image_position(kp, kl, additional_images=True)
    if q == "original":
        return ps.image_position(kp, kl, original_position=True)
    if q == "original_add":
        return ps.image_position(kp, kl, original_position=True, additional_images=True)
    if q == "source":
        return ps.source_position(kp, kl)
    if q == "amp":
        return ps.image_amplitude(kp, kl)
    if q == "source_amp":
        return ps.source_amplitude(kp, kl)
    if q == "num":
        return ps.num_basis(kp, kl)
    if q == "response":
        return ps.linear_response_set(kp, kl)
    if q == "response_amp":
        return ps.linear_response_set(kp, kl, with_amp=True)
    if q == "list":
        return ps.point_source_list(kp, kl)


QUERIES = ("image", "additional", "original", "original_add", "source", "amp", "source_amp", "num", "response", "response_amp", "list")
OPS = ["%s%s" % (q, w) for q in QUERIES for w in "AB"] + ["cache_on", "cache_off", "delete", "lens", "window"]


class Machine:
    def __init__(self, types, fixed, z, flux, mag_limit=None, save=False, add=None, frames=None, index_list=None, frame_list=None):
        self.types, self.fixed = types, fixed
        self.solver = dict(SOLVER)
        self.user_solver = dict(SOLVER)
        self.lm = lens()
        self.save = save
        self.ref = Ref(types, fixed, z, flux, frames=frames, add=add)
        self.mag_limit = mag_limit
        self.ps = PointSource(list(types), lens_model=self.lm, fixed_magnification_list=list(fixed), flux_from_point_source_list=list(flux), redshift_list=list(z), additional_images_list=add,
                              magnification_limit=mag_limit, save_cache=save, kwargs_lens_eqn_solver=self.user_solver, index_lens_model_list=index_list, point_source_frame_list=frame_list)
        self.kl, self.kp = snap(KL), {w: kw_ps(types, fixed, w) for w in "AB"}
        self.cached = None  # parameter set the cache may hold

    def apply(self, rec, op, what):
        if op == "cache_on":
            self.ps.set_save_cache(True)
            self.save = True
        elif op == "cache_off":
            self.ps.set_save_cache(False)
            self.save = False
        elif op == "delete":
            self.ps.delete_lens_model_cache()
        elif op == "lens":
            # a lens whose deflections are reduced to another source redshift
            self.ref.conv = 2.0 if self.ref.conv != 2.0 else 4.0
            self.lm = lens(conv=self.ref.conv)
            self.ps.update_lens_model(self.lm)
        elif op == "window":
            self.ps.update_search_window(3.2, 0.01, -0.02)
            self.ps.delete_lens_model_cache()
            self.solver.update(search_window=3.2, x_center=0.01, y_center=-0.02)
        else:
            q, w = op[:-1], op[-1]
            if self.save and self.cached not in (None, w):
                # with caching switched on it is the caller who has to drop the cache when parameters change
                self.ps.delete_lens_model_cache()
            self.cached = w
            got = ask(self.ps, q, self.kp[w], self.kl[w])
            want = self.ref.answer(q, self.kp[w], self.kl[w], self.solver, self.mag_limit)
            if q == "source_amp":
                for i, v in enumerate(want):
                    if v is not None:
                        rec.same(q, got[i], v, 1e-6, 1e-8, what=what)
            else:
                rec.same(q, got, want, 1e-6, 1e-8, what=what)
            rec.unchanged("kwargs-ps", kw_ps(self.types, self.fixed, w), self.kp[w])
            rec.unchanged("kwargs-lens", KL[w], self.kl[w])
            rec.outcome(want)
        rec.unchanged("solver-settings", SOLVER, self.user_solver)
        rec.same("lens-redshift", self.lm.z_source, 2.0, what=what + " (the lens model of the caller keeps its source redshift)")


def history_case(cfg, tier, rec, first=None):
    types, fixed, z, flux, kw = CONFIGS[cfg]
    depth = 2 if tier == "quick" else 3
    if tier == "quick" and kw.get("deep"):
        depth = 3
    kw = {k: v for k, v in kw.items() if k != "deep"}
    ops = [o for o in OPS if not (o.startswith(("additional", "original_add")) and kw.get("frames"))]
    if depth == 3 and tier == "quick":
        ops3 = [o for o in ops if o[:-1] in ("image", "amp", "response", "list") or o[-1] not in "AB"]
    for d in range(1, depth + 1):
        if d == 3 and tier == "quick" and first not in ops3:
            continue
        for seq in itertools.product(ops3 if d == 3 and tier == "quick" else ops, repeat=d - 1):
            seq = (first,) + seq
            if d == 3 and not any(s in ("cache_on", "cache_off", "delete", "lens", "window") for s in seq):
                # three queries in a row: only those that change the parameters at least once
                if len({s[-1] for s in seq}) == 1:
                    continue
            m = Machine(types, fixed, z, flux, **kw)
            for i, op in enumerate(seq):
                m.apply(rec, op, "history %s" % ">".join(seq[:i + 1]))
                rec.trans()
            rec.trace()
            rec.state(">".join(seq))


CONFIGS = {
    "lensed": (("LENSED_POSITION",), (False,), (None,), (True,), dict(deep=True)),
    "lensed-fixed": (("LENSED_POSITION",), (True,), (None,), (True,), dict()),
    "source": (("SOURCE_POSITION",), (False,), (None,), (True,), dict()),
    "source-fixed": (("SOURCE_POSITION",), (True,), (None,), (True,), dict(deep=True)),
    "source-fixed-saved": (("SOURCE_POSITION",), (True,), (None,), (True,), dict(save=True, deep=True)),
    "source-limit": (("SOURCE_POSITION",), (True,), (None,), (True,), dict(mag_limit=2.5)),
    "unlensed": (("UNLENSED",), (False,), (None,), (True,), dict()),
    "three": (("UNLENSED", "SOURCE_POSITION", "LENSED_POSITION"), (False, True, False), (None, None, None), (True, True, True), dict()),
    "three-z": (("LENSED_POSITION", "SOURCE_POSITION", "SOURCE_POSITION"), (True, True, False), (1.2, None, 0.9), (True, True, True), dict()),
    "noflux": (("SOURCE_POSITION", "LENSED_POSITION"), (False, False), (None, None), (False, True), dict()),
    "additional": (("LENSED_POSITION",), (False,), (None,), (True,), dict(add=[True])),
    "frames": (("LENSED_POSITION",), (True,), (None,), (True,), dict(index_list=[[0], [0, 1], [1]], frame_list=[[1, 0, 1]], frames=[[[0, 1], [0], [0, 1]]])),
}


def scalar_case(rec):
    """single selections k, with_amp=False, amplitude updates"""
    types, fixed, z, flux = ("UNLENSED", "SOURCE_POSITION", "LENSED_POSITION", "SOURCE_POSITION"), (False, True, False, False), (None, 1.4, None, None), (True, True, True, True)
    for fl in itertools.product((True, False), repeat=4):
        m = Machine(types, fixed, z, fl)
        kp, kl = m.kp["A"], m.kl["A"]
        full = m.ps.image_position(kp, kl)
        amps = m.ps.image_amplitude(kp, kl)
        for k in range(4):
            rec.same("k-position", m.ps.image_position(kp, kl, k=k), [[full[0][k]], [full[1][k]]], what="k=%d" % k)
            rec.same("k-amp", m.ps.image_amplitude(kp, kl, k=k), [amps[k]], what="k=%d" % k)
            ra, dec, a = m.ps.point_source_list(kp, kl, k=k)
            keep = np.asarray(amps[k]) != 0
            rec.same("k-list", [ra, dec, a], [np.asarray(full[0][k])[keep], np.asarray(full[1][k])[keep], np.asarray(amps[k])[keep]], what="k=%d flux %s" % (k, fl))
            ra, dec, a = m.ps.point_source_list(kp, kl, k=k, with_amp=False)
            rec.same("k-list-noamp", [ra, dec, a], [full[0][k], full[1][k], np.ones(len(full[0][k]))], what="k=%d" % k)
            rec.trans(4)
        n = m.ps.num_basis(kp, kl)
        par = np.arange(1, n + 1, dtype=float)
        kp2, i = m.ps.update_linear(np.concatenate([[99.0], par]), 1, snap(kp), kl)
        rec.same("update-count", i, n + 1, what="flux %s" % (fl,))
        rec.same("update-readback", m.ps.linear_param_from_kwargs(kp2), par, what="flux %s" % (fl,))
        # response times parameters is the response with amplitudes
        ra, dec, r0, n0 = m.ps.linear_response_set(kp2, kl)
        ra1, dec1, r1, n1 = m.ps.linear_response_set(kp2, kl, with_amp=True)
        rec.same("response-linear", r1, [list(np.array(r) * p) for r, p in zip(r0, par)], 1e-7, what="flux %s" % (fl,))
        rec.same("response-count", [n0, n1], [n, n])
        al = [np.array([1.0, 2, 3, 4]) * (j + 1) if not (fixed[j]) else 7.0 for j in range(4)]
        kp3 = m.ps.set_amplitudes(al, kp)
        for j in range(4):
            name = "source_amp" if fixed[j] else "point_amp"
            rec.same("set-amplitudes", kp3[j][name], al[j] if fl[j] else kp[j][name], what="source %d flux %s" % (j, fl))
        rec.same("positive", [m.ps.check_positive_flux(kp), m.ps.check_positive_flux([dict(kp[1], source_amp=-1.0)]), m.ps.check_positive_flux([kp[0], dict(point_amp=np.array([1, -1e-3, 2]))])], [True, False, False])
        rec.unchanged("kwargs", kw_ps(types, fixed, "A"), kp)
        rec.trace()
        rec.state(str(fl))
        rec.outcome(r1)


def window_case(rec):
    """search settings: a wider search is a wider search, unspecified settings are filled in, positions are verified"""
    for types, z in ((("SOURCE_POSITION",), (None,)), (("SOURCE_POSITION", "SOURCE_POSITION"), (1.3, None)), (("LENSED_POSITION", "SOURCE_POSITION"), (None, 1.1))):
        for win in (1.0, 1.6):
            for f in (1, 2, 3):
                lm = lens()
                kps = kw_ps(types, (False,) * 2, "A")
                ps = PointSource(list(types), lens_model=lm, redshift_list=list(z), kwargs_lens_eqn_solver=dict(SOLVER, search_window=win))
                ref = Ref(types, (False,) * 2, z, (True,) * 2)
                got = ps.image_position(kps, KL["A"], width_search_factor=f)
                want = [ref.img(i, kps, KL["A"], dict(SOLVER, search_window=win * f), None) for i in range(len(types))]
                rec.same("width", got, [[w[0] for w in want], [w[1] for w in want]], 1e-6, 1e-8, what="%s window %s factor %s" % (types, win, f))
                again = ps.image_position(kps, KL["A"])
                want = [ref.img(i, kps, KL["A"], dict(SOLVER, search_window=win), None) for i in range(len(types))]
                rec.same("width-after", again, [[w[0] for w in want], [w[1] for w in want]], 1e-6, 1e-8, what="%s window %s after factor %s" % (types, win, f))
                rec.trans(2)
                rec.trace()
                rec.state("%s%s%s%s" % (types, z, win, f))
        # verification of image positions against the lens equation at the redshift of each source
        lm = lens()
        solved = [Ref(("SOURCE_POSITION",) * 2, (False,) * 2, z, (True,) * 2).img(i, kw_ps(("SOURCE_POSITION",) * 2, (False,) * 2, "A"), KL["A"], SOLVER, None) for i in range(len(types))]
        ps = PointSource(["LENSED_POSITION"] * len(types), lens_model=lm, redshift_list=list(z))
        kp = [dict(ra_image=s[0].copy(), dec_image=s[1].copy(), point_amp=np.ones(len(s[0]))) for s in solved]
        rec.same("check-positions", ps.check_image_positions(kp, KL["A"], tolerance=1e-4), True, what="solutions of the lens equation, redshifts %s" % (z,))
        for i in range(len(types)):
            for j in range(len(solved[i][0])):
                bad = snap(kp)
                bad[i]["ra_image"][j] += 0.1
                rec.same("check-positions-bad", ps.check_image_positions(bad, KL["A"], tolerance=1e-4), False, what="image %d of source %d displaced" % (j, i))
                rec.trans()
        rec.same("check-positions-redshift", lm.z_source, 2.0)
    for given in itertools.product((True, False), repeat=3):
        names = ("search_window", "x_center", "y_center")
        spec = {n: 2.2 + i for i, n in enumerate(names) if given[i]}
        vals = dict(search_window=3.0, x_center=0.1, y_center=-0.1)
        for only in (True, False):
            for md in (None, 0.07):
                user = dict(spec)
                ps = PointSource(["SOURCE_POSITION"], lens_model=lens(), kwargs_lens_eqn_solver=user)
                ps.update_search_window(vals["search_window"], vals["x_center"], vals["y_center"], min_distance=md, only_from_unspecified=only)
                eff = dict(vals)
                if only:
                    eff.update(spec)
                    if md is not None:
                        eff["min_distance"] = md
                want = Ref(("SOURCE_POSITION",), (False,), (None,), (True,)).img(0, kw_ps(("SOURCE_POSITION",), (False,), "A"), KL["A"], eff, None)
                got = ps.image_position(kw_ps(("SOURCE_POSITION",), (False,), "A"), KL["A"])
                rec.same("window-update", [got[0][0], got[1][0]], want, 1e-6, 1e-8, what="given %s only_from_unspecified=%s" % (sorted(spec), only))
                rec.unchanged("window-user", spec, user)
                rec.trans()
                rec.trace()
                rec.state("%s%s%s" % (given, only, md))


def pert_case(rec):
    """magnification perturbations multiply the image brightness, in images and in the linear response alike"""
    for fixed in (True, False):
        for n in (4, 6):
            m = Machine(("SOURCE_POSITION",), (fixed,), (None,), (True,))
            for w in "AB":
                kp = snap(m.kp[w])
                pert = [1.2, 0.8, 1.5, 0.6, 2.0, 3.0][:n]
                kp[0]["mag_pert"] = pert
                k0 = snap(kp)
                base = m.ref.amp(0, kp, m.kl[w], m.solver, None)
                for rep in range(2):
                    got = m.ps.image_amplitude(kp, m.kl[w])
                    rec.same("pert", got, [base * np.array(pert[:len(base)])], 1e-6, what="fixed=%s repeat %d" % (fixed, rep))
                    rec.unchanged("pert-kwargs", k0, kp)
                    rec.trans()
                r0 = m.ps.linear_response_set(kp, m.kl[w])[2]
                r1 = m.ps.linear_response_set(kp, m.kl[w], with_amp=True)[2]
                par = m.ps.linear_param_from_kwargs(kp)
                rec.same("pert-response", [list(np.array(r) * p) for r, p in zip(r0, par)], r1, 1e-6, what="fixed=%s" % fixed)
                rec.trace()
                rec.state("%s%s%s" % (fixed, n, w))
                rec.outcome(base)


def cases(tier):
    out = ["scalar", "pert", "window"]
    for c, cfg in CONFIGS.items():
        out += ["history|%s|%s" % (c, op) for op in OPS if not (op.startswith(("additional", "original_add")) and cfg[4].get("frames"))]
    return out


def run_case(case, tier, rec):
    if case == "scalar":
        return scalar_case(rec)
    if case == "window":
        return window_case(rec)
    if case == "pert":
        return pert_case(rec)
    _, c, first = case.split("|")
    history_case(c, tier, rec, first)
