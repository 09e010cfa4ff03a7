"""P03: a lens model is what its configuration says, whatever was done with it before.

All histories (to a depth) over {freeze parameters A/B, unfreeze, evaluate, move the source, change the
cosmology}, on the real LensModel, observed by evaluation and compared with a freshly built instance.
"""
import itertools

import numpy as np
from astropy.cosmology import FlatLambdaCDM

from lenstronomy.LensModel.lens_model import LensModel
from vmc import lenslib
from vmc.core import snap

X = np.array([0.9, -0.6, 0.35, -1.2])
Y = np.array([0.2, 0.8, -1.1, -0.5])
COSMO = {"c0": FlatLambdaCDM(H0=70, Om0=0.3), "c1": FlatLambdaCDM(H0=62, Om0=0.45)}
_FRESH = {}


SLOW = {"GNFW", "GNFW_ELLIPSE_GAUSS_DEC", "GreenBoschNFW", "SERSIC_ELLIPSE_KAPPA", "PSEUDO_DPL"}


def observe(lm, kw, timing, hess=True):
    out = {"ray": lm.ray_shooting(X, Y, kw), "alpha": lm.alpha(X, Y, kw)}
    if hess:
        out["hessian"] = lm.hessian(X, Y, kw)
    if timing:
        out["arrival"] = lm.arrival_time(X, Y, kw)
        out["ddt_scaling"] = lm.ddt_scaling
        out["fermat"] = lm.fermat_potential(X, Y, kw)
    return out


def pot(lm, kw):
    try:
        return lm.potential(X, Y, kw)
    except Exception:  # profiles without a potential announce it in different ways
        return "undefined"


# ------------------------------------------------------------------ freezing, every profile
def static_case(model, mult, tier, rec):
    names = [model] * mult if mult < 3 else [model, "SIE", model]
    pk = [lenslib.profile_kwargs(m) for m in names]
    sets = [[lenslib.params(m, s + 2 * i) for i, m in enumerate(names)] for s in (0, 1)]
    # NFW_MC takes its redshifts from the redshift list
    args = dict(lens_model_list=names, z_lens=0.5, z_source=2.0, lens_redshift_list=[0.5] * len(names))
    ref = []
    for s in (0, 1):
        lm = LensModel(**snap(args))
        kw = snap(sets[s])
        ref.append(dict(observe(lm, kw, False), pot=pot(LensModel(**snap(args)), snap(sets[s]))))
    ops = ["S0", "S1", "D", "E0", "E1"]
    depth = 3 if tier == "quick" else 4
    if model in SLOW:
        depth -= 1
    for d in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=d):
            if not seq[-1].startswith("E"):
                continue
            lm = LensModel(**snap(args))
            frozen = None
            for op in seq:
                rec.trans()
                if op[0] == "S":
                    kw = snap(sets[int(op[1])])
                    res = lm.set_static(kw)
                    rec.unchanged("freeze-args", sets[int(op[1])], kw)
                    frozen = (int(op[1]), res)
                elif op == "D":
                    lm.set_dynamic()
                    frozen = None
                else:
                    s = int(op[1])
                    if frozen is not None and frozen[0] != s:
                        # evaluating other parameters than the frozen ones is not defined
                        break
                    kw = snap(sets[s]) if frozen is None else frozen[1]
                    obs = dict(observe(lm, kw, False), pot=pot(lm, kw))
                    rec.same("evaluate", obs, ref[s], 1e-9, 1e-11, what="%s after %s" % (names, ">".join(seq)))
            rec.trace()
            rec.state(repr(frozen[0]) if frozen else "dynamic")
    rec.outcome(ref)


# ------------------------------------------------------------------ source redshift / cosmology
def configs():
    sie = dict(theta_E=1.1, e1=0.1, e2=-0.05, center_x=0.05, center_y=-0.02)
    shear = dict(gamma1=0.03, gamma2=-0.02, ra_0=0, dec_0=0)
    sis = dict(theta_E=0.3, center_x=-0.7, center_y=0.4)
    nfw = dict(Rs=1.0, alpha_Rs=0.25, center_x=0.3, center_y=-0.6)
    out = {}
    out["single"] = (dict(lens_model_list=["SIE", "SHEAR", "SIS"], z_lens=0.5, z_source=1.5, z_source_convention=3.0, cosmo=COSMO["c0"]), [sie, shear, sis])
    out["single-noconv"] = (dict(lens_model_list=["SIE", "SHEAR"], z_lens=0.5, z_source=1.5, cosmo=COSMO["c0"]), [sie, shear])
    out["single-convonly"] = (dict(lens_model_list=["EPL", "SIS"], z_lens=0.4, z_source_convention=2.2, cosmo=COSMO["c0"]),
                              [dict(theta_E=1.0, gamma=2.1, e1=0.1, e2=0.05, center_x=0, center_y=0.1), sis])
    for tag, extra in [("", {}), ("-interp", dict(cosmo_interp=True, num_z_interp=80, z_interp_stop=3.5)), ("-zl", dict(z_lens=0.5))]:
        out["multi" + tag] = (dict(lens_model_list=["SIS", "SIE", "NFW", "SHEAR"], lens_redshift_list=[0.9, 0.5, 0.3, 0.5], multi_plane=True,
                                   z_source=1.5, z_source_convention=3.0, cosmo=COSMO["c0"], **extra), [sis, sie, nfw, shear])
    out["multi-noconv"] = (dict(lens_model_list=["SIS", "SIE"], lens_redshift_list=[0.6, 0.5], multi_plane=True, z_source=3.0, cosmo=COSMO["c0"]), [sis, sie])
    out["multi-observed"] = (dict(lens_model_list=["SIS", "SIE", "NFW"], lens_redshift_list=[0.9, 0.5, 0.3], multi_plane=True, z_source=1.5,
                                  z_source_convention=3.0, observed_convention_index=[0], cosmo=COSMO["c0"]), [sis, sie, nfw])
    return out


def fresh(name, zs, c, c_frozen=None, kw_frozen=None):
    """Observations of a newly built model; a model frozen in cosmology c_frozen keeps the physical positions it was frozen with."""
    if c_frozen == c:
        c_frozen = None
    key = (name, zs, c, c_frozen)
    if key not in _FRESH:
        args, kw = configs()[name]
        args = dict(args, z_source=zs, cosmo=COSMO[c])
        if c_frozen is not None:
            args.pop("observed_convention_index", None)
            kw = kw_frozen
        if args.get("z_source_convention") is None:
            args["z_source_convention"] = configs()[name][0]["z_source"]
        lm = LensModel(**args)
        _FRESH[key] = observe(lm, snap(kw), bool(args.get("z_lens")) or args.get("multi_plane") and False)
        if args.get("multi_plane"):
            _FRESH[key]["mp_arrival"] = lm.arrival_time(X, Y, snap(kw))
    return _FRESH[key]


def redshift_case(name, tier, rec):
    args0, kw0 = configs()[name]
    multi = bool(args0.get("multi_plane"))
    timing = bool(args0.get("z_lens"))
    z0 = args0.get("z_source", args0.get("z_source_convention"))
    zs = [1.0, 2.0, z0] if not name == "multi-noconv" else [1.0, 2.0, 3.0]
    ops = ["z0", "z1", "z2", "znone", "c0", "c1", "S", "D", "E"]
    depth = 3 if tier == "quick" else 4
    for d in range(0, depth + 1):
        for seq in itertools.product(ops, repeat=d):
            args = {k: (v if k == "cosmo" else snap(v)) for k, v in args0.items()}
            kw = snap(kw0)
            lm = LensModel(**args)
            zcur, ccur, frozen, cfrozen = z0, "c0", None, None

            def look(where):
                k = kw if frozen is None else frozen
                obs = observe(lm, k, timing)
                if multi:
                    obs["mp_arrival"] = lm.arrival_time(X, Y, k)
                tol = (1e-9, 1e-10) if not multi else (1e-8, 1e-9)
                hess = obs.pop("hessian")
                exp = dict(fresh(name, zcur, ccur, cfrozen, frozen))
                ehess = exp.pop("hessian")
                w = "%s after %s" % (name, ">".join(seq) or "nothing")
                rec.same(where, obs, exp, *tol, what=w)
                # numerical differentiation (step 1e-8) amplifies rounding in multi-plane mode
                rec.same(where + "-hessian", hess, ehess, 1e-6 if multi else 1e-9, 2e-6 if multi else 1e-10, what=w)
                rec.same(where + "-zs", lm.z_source, zcur, what=w)

            for op in seq:
                rec.trans()
                if op == "znone":
                    lm.change_source_redshift(None)
                elif op[0] == "z":
                    zcur = zs[int(op[1])]
                    lm.change_source_redshift(zcur)
                elif op[0] == "c":
                    ccur = op
                    lm.update_cosmology(COSMO[op])
                elif op == "S":
                    if frozen is None:
                        frozen, cfrozen = lm.set_static(kw), ccur
                elif op == "D":
                    lm.set_dynamic()
                    frozen, cfrozen = None, None
                else:
                    look("evaluate")
            if not seq or seq[-1] != "E":
                look("evaluate")
            rec.unchanged("kwargs", kw0, kw)
            rec.unchanged("config", {k: v for k, v in args0.items() if k != "cosmo"}, {k: v for k, v in args.items() if k != "cosmo"}, "model configuration")
            rec.trace()
            rec.state("%s|%s|%s|%s" % (name, zcur, ccur, frozen is not None))
    rec.outcome(fresh(name, z0, "c0"))


def two_instances(rec):
    """Two models built from the same configuration objects do not influence each other."""
    for name, (args0, kw) in configs().items():
        args = {k: (v if k == "cosmo" else snap(v)) for k, v in args0.items()}
        a, b = LensModel(**args), LensModel(**args)
        ref = observe(b, snap(kw), False)
        for act in ("z", "c", "S"):
            if act == "z":
                a.change_source_redshift(1.0)
            elif act == "c":
                a.update_cosmology(COSMO["c1"])
            else:
                a.set_static(snap(kw))
            rec.trans()
            rec.same("independent", observe(b, snap(kw), False), ref, 1e-12, 1e-12, what="%s: other instance after %s" % (name, act))
        rec.trace()
        rec.state(name)
        rec.outcome(ref)


def forward_case(rec):
    """every setting given to the lens model reaches the ray tracing, for all combinations of settings"""
    import itertools

    from lenstronomy.LensModel.MultiPlane.multi_plane import MultiPlane

    names, zs, kw = ["SIS", "SIE", "NFW", "SHEAR"], [0.9, 0.5, 0.3, 0.5], configs()["multi"][1]
    prof = [None, None, dict(interpol=True, num_interp_X=8, max_interp_X=4), None]
    seen = {}
    for interp, n, stop, conv, obs, pk in itertools.product((False, True), (4, 9), (None, 5.0), (None, 3.0), (None, [0, 2]), (None, prof)):
        opt = dict(cosmo_interp=interp, num_z_interp=n, z_interp_stop=stop, z_source_convention=conv, observed_convention_index=obs, profile_kwargs_list=snap(pk))
        lm = LensModel(names, lens_redshift_list=zs, multi_plane=True, z_source=1.5, cosmo=COSMO["c0"], **opt)
        opt["z_source_convention"] = conv or 1.5
        opt["z_interp_stop"] = stop or opt["z_source_convention"]
        mp = MultiPlane(1.5, names, zs, cosmo=COSMO["c0"], **opt)
        got, want = lm.ray_shooting(X, Y, snap(kw)), mp.ray_shooting(X, Y, snap(kw))
        rec.same("forward", got, want, 1e-12, 1e-13, what=str(opt))
        rec.same("forward-arrival", lm.arrival_time(X, Y, snap(kw)), mp.arrival_time(X, Y, snap(kw)), 1e-9, 1e-9, what=str(opt))
        seen.setdefault(np.round(want, 13).tobytes(), []).append(opt)
        rec.trans(2)
        rec.trace()
    rec.true("forward-distinct", len(seen) >= 20, "%d distinct" % len(seen))
    rec.state("forward")


def cases(tier):
    out = []
    for m in lenslib.plain() + sorted(lenslib.LOS):
        for mult in (1, 2) if tier == "quick" else (1, 2, 3):
            if m in lenslib.LOS and mult > 1:
                continue
            out.append("static|%s|%d" % (m, mult))
    for n in configs():
        out.append("redshift|%s" % n)
    out.append("instances|all")
    out.append("forward|all")
    return sorted(out, key=lambda c: not c.startswith("redshift") and c.split("|")[1] not in SLOW)


def run_case(case, tier, rec):
    p = case.split("|")
    if p[0] == "static":
        static_case(p[1], int(p[2]), tier, rec)
    elif p[0] == "redshift":
        redshift_case(p[1], tier, rec)
    elif p[0] == "forward":
        forward_case(rec)
    else:
        two_instances(rec)
