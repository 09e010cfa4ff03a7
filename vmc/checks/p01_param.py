"""P01: the sampled parameter vector and the model's keyword arguments are two faithful encodings.

Enumerates configurations (models, fixed patterns, joint constraints, log sampling, scalings, special
parameters) and, for each, decodes/encodes vectors on the real Param class.  Oracle: the parameter
names returned by the class itself plus the configuration (which entry is fixed / linked / scaled).
"""
import itertools
import re

import numpy as np

from lenstronomy.LensModel.lens_model import LensModel
from lenstronomy.LightModel.light_model import LightModel
from lenstronomy.LensModel.profile_list_base import _SUPPORTED_MODELS as LENS_MODELS
from lenstronomy.LightModel.light_model_base import _MODELS_SUPPORTED as LIGHT_MODELS
from lenstronomy.Sampling.parameters import Param
from vmc.core import snap

SKIP_LENS = {"PEMD", "SPEMD",  # need fastell4py
             "SYNTHESIS", "TABULATED_DEFLECTIONS",  # need user supplied classes
             "INTERPOL", "INTERPOL_SCALED", "RADIAL_INTERPOL"}  # array valued inputs are not sampled parameters
SKIP_LIGHT = {"INTERPOL", "SLIT_STARLETS", "SLIT_STARLETS_GEN2"}

GROUPS = ["kwargs_lens", "kwargs_source", "kwargs_lens_light", "kwargs_ps", "kwargs_special", "kwargs_extinction",
          "kwargs_tracer_source"]


# ------------------------------------------------------------------ generic oracle
def frac(j, salt):
    return 0.25 + 0.5 * ((j + 1) * 0.6180339887 + salt * 0.371) % 0.5


def vector(param, salt):
    low, up = param.param_limits()
    low, up = np.array(low, dtype=float), np.array(up, dtype=float)
    return np.array([l + (u - l) * frac(j, salt) for j, (l, u) in enumerate(zip(low, up))])


def resolve(names, cfg):
    """Map every slot of the vector to (group, index, name, element) from the published names."""
    slots = []
    count = {}
    ps_fields = list(cfg["ps_fields"])  # ordered (model index, name, length) that are free
    ps_cursor = 0
    for name in names:
        m = re.match(r"^(.*?)_(source_light|lens_light|light|lens)(\d+)$", name)
        if m:
            nm, typ, k = m.group(1), m.group(2), int(m.group(3))
            group = {"source_light": "kwargs_source", "lens_light": "kwargs_lens_light", "lens": "kwargs_lens",
                     "light": cfg["light_group"]}[typ]
            key = (group, k, nm)
        elif ps_cursor < len(ps_fields) and name == ps_fields[ps_cursor][1]:
            i_model, nm, n = ps_fields[ps_cursor]
            key = ("kwargs_ps", i_model, nm)
            if count.get(key, 0) + 1 == n or n is None:
                ps_cursor += 1
        else:
            key = ("kwargs_special", None, name)
        e = count.get(key, 0)
        count[key] = e + 1
        slots.append(key + (e,))
    return slots


def get(kwargs, slot):
    group, k, name, e = slot
    d = kwargs[group] if k is None else kwargs[group][k]
    v = d[name]
    if np.ndim(v) == 0:
        return v
    return v[e]


def verify(rec, cfg, label=""):
    """Build the real Param for cfg and check everything the property states."""
    args = snap(cfg["args"])
    before = snap(args)
    model = snap(cfg["model"])
    model_before = snap(model)
    try:
        param = Param(model, **args)
    except Exception as e:  # invalid user configuration must be declared invalid by the harness
        raise
    num, names = param.num_param()
    low, up = param.param_limits()
    rec.trans()
    rec.true("count" + label, num == len(names) == len(low) == len(up),
             "%s: num_param=%s names=%s lower=%s upper=%s" % (cfg["id"], num, len(names), len(low), len(up)))
    rec.true("limits" + label, bool(np.all(np.array(low) <= np.array(up))), "%s lower limit above upper" % cfg["id"])
    slots = resolve(names, cfg)
    rec.true("unique" + label, len(set(slots)) == len(slots), "%s: vector entries not distinct: %s" % (cfg["id"], slots))
    fixed = cfg["fixed"]
    log = cfg.get("log", set())
    # no slot may address a fixed or linked entry
    for s in slots:
        rec.true("fixed-not-sampled" + label, s[:3] not in cfg["not_free"], "%s: %s is fixed or linked but sampled" % (cfg["id"], s))
    expected_free = cfg.get("expected_free")
    if expected_free is not None:
        rec.true("all-free-sampled" + label, {s[:3] for s in slots} == expected_free,
                 "%s: sampled %s expected %s" % (cfg["id"], sorted(map(str, {s[:3] for s in slots} ^ expected_free)), ""))
    first = None
    for salt in (0, 1, 0):
        v = vector(param, salt)
        v0 = v.copy()
        dec = param.args2kwargs(v)
        rec.unchanged("vector-mutated" + label, v0, v, "parameter vector")
        bij = param.args2kwargs(v, bijective=True)
        rec.unchanged("vector-mutated" + label, v0, v, "parameter vector")
        rec.trans(2)
        for j, s in enumerate(slots):
            want = 10 ** v0[j] if (s[0] == "kwargs_lens" and s[:3] in log) else v0[j]
            rec.same("slot" + label, get(bij, s), want, 1e-9, 1e-11, what="%s entry %s" % (cfg["id"], s))
        bij_before = snap(bij)
        back = param.kwargs2args(**bij)
        rec.same("roundtrip" + label, back, v0, 1e-8, 1e-10, what="%s encode(decode(v))" % cfg["id"])
        rec.unchanged("kwargs-mutated" + label, bij_before, bij, "keyword arguments")
        for (g, k, name), val in fixed.items():
            d = dec[g] if k is None else dec[g][k]
            rec.true("fixed-value" + label, name in d, "%s fixed %s missing in decoded kwargs" % (cfg["id"], name))
            if name in d and (g, k, name) not in cfg.get("scaled", ()):
                rec.same("fixed-value" + label, d[name], val, what="%s fixed %s" % (cfg["id"], (g, k, name)))
        for j, s in enumerate(slots):
            if s[:3] in cfg.get("scaled", ()) or s[:3] in cfg.get("mapped", ()):
                continue
            want = 10 ** v0[j] if (s[0] == "kwargs_lens" and s[:3] in log) else v0[j]
            rec.same("slot-decoded" + label, get(dec, s), want, 1e-9, 1e-11, what="%s entry %s" % (cfg["id"], s))
        for chk in cfg.get("relations", []):
            chk(rec, cfg, dec, bij, label)
        rec.outcome(dec)
        rec.trace()
        if salt == 0:
            if first is None:
                first = snap(dec)
            else:
                rec.same("history" + label, dec, first, what="%s decode(v1) after decoding another vector" % cfg["id"])
    rec.unchanged("config-mutated" + label, before, args, "%s configuration" % cfg["id"])
    rec.unchanged("model-mutated" + label, model_before, model, "%s model description" % cfg["id"])
    # user limits are honoured slot by slot
    rec.state(cfg["id"])


def user_limits(rec, cfg, groups):
    """Rebuild with user limits holding a distinct number for each parameter, in shuffled key order."""
    args = snap(cfg["args"])
    base = Param(snap(cfg["model"]), **snap(args))
    _, names = base.num_param()
    slots = resolve(names, cfg)
    lows, ups = {}, {}
    for j, s in enumerate(slots):
        lows[s], ups[s] = -3.0 - 0.01 * j, 2.0 + 0.01 * j
    for sign, table in (("lower", lows), ("upper", ups)):
        for g in groups:
            mine = [s for s in slots if s[0] == g]
            n = cfg["n"][g]
            if n is None:
                d = {}
                _fill(d, mine, table)
                args["kwargs_%s_%s" % (sign, g[7:])] = d
            else:
                lst = [{} for _ in range(n)]
                for k in range(n):
                    _fill(lst[k], [s for s in mine if s[1] == k], table)
                args["kwargs_%s_%s" % (sign, g[7:])] = lst
    param = Param(snap(cfg["model"]), **args)
    low, up = param.param_limits()
    rec.trans()
    log = cfg.get("log", set())
    for j, s in enumerate(slots):
        if s[:3] in log:
            continue
        rec.same("user-limit", low[j], lows[s], what="%s lower limit of %s" % (cfg["id"], s))
        rec.same("user-limit", up[j], ups[s], what="%s upper limit of %s" % (cfg["id"], s))


def _fill(d, mine, table):
    arr = {}
    for s in mine:
        arr.setdefault(s[2], []).append(s)
    for name in sorted(arr, reverse=True):
        ss = arr[name]
        is_array = len(ss) > 1 or name in ("ra_image", "dec_image", "point_amp", "coeffs", "scale_factor", "tau0_list",
                                           "z_sampling", "delta_x_image", "delta_y_image") or name.endswith("_scale_factor") or name.endswith("_scale_pow")
        d[name] = [table[s] for s in ss] if is_array else table[ss[0]]


def empty_cfg(cid, model, args):
    return dict(id=cid, model=model, args=args, fixed={}, not_free=set(), ps_fields=[], light_group="kwargs_extinction",
                n={"kwargs_lens": len(model.get("lens_model_list", [])), "kwargs_source": len(model.get("source_light_model_list", [])),
                   "kwargs_lens_light": len(model.get("lens_light_model_list", [])), "kwargs_ps": len(model.get("point_source_model_list", [])),
                   "kwargs_extinction": len(model.get("optical_depth_model_list", [])),
                   "kwargs_tracer_source": len(model.get("tracer_source_model_list", [])), "kwargs_special": None})


# ------------------------------------------------------------------ A: lens profiles
LENS_MODELS = [m for m in LENS_MODELS if m not in SKIP_LENS]
LIGHT_MODELS = [m for m in LIGHT_MODELS if m not in SKIP_LIGHT]
LENS_FIX = {"MULTI_GAUSSIAN": {"sigma": [0.5, 1.0]}, "MULTI_GAUSSIAN_ELLIPSE_KAPPA": {"sigma": [0.5, 1.0]},
            "MULTI_GAUSSIAN_ELLIPSE_POTENTIAL": {"sigma": [0.5, 1.0]}}


def lens_names(m):
    return list(LensModel([m]).lens_model.func_list[0].param_names)


def lens_case(model, tier, rec, amp_free=False):
    try:
        names = lens_names(model)
    except ImportError:
        return
    pinned = {}
    if model.startswith("MULTI_GAUSSIAN"):
        pinned = {"sigma": [0.5, 1.0]} if amp_free else {"sigma": [0.5, 1.0], "amp": [1.5, 2.5]}
    scal = [n for n in names if n not in pinned]
    patterns = [()] + [(n,) for n in scal] + [tuple(scal)]
    if tier == "thorough":
        patterns += list(itertools.combinations(scal, 2))
    logs = [None]
    pos = [n for n in scal if n in ("theta_E", "alpha_Rs", "Rs", "sigma", "b", "kappa", "amp", "sigma0", "k_eff", "alpha_1", "M", "m")]
    pos = [n for n in pos if n not in ("amp",)]
    for n in pos[:2]:
        logs.append([n])
    if len(pos) >= 2:
        logs.append(pos[:2])
    for lens_list in ([model], ["SHEAR", model], [model, model]):
        if model.startswith("LOS") and len(lens_list) > 1 and lens_list[0] == model:
            continue  # at most one line-of-sight model is allowed
        k = len(lens_list) - 1
        for pat in (patterns if len(lens_list) == 1 else patterns[:3]):
            for lg in (logs if len(lens_list) == 1 else logs[:1]):
                args = dict(kwargs_fixed_lens=[dict() for _ in lens_list])
                fixed, not_free = {}, set()
                for kk, mm in enumerate(lens_list):
                    if mm == model:
                        for n, val in pinned.items():
                            args["kwargs_fixed_lens"][kk][n] = val
                            fixed[("kwargs_lens", kk, n)] = val
                for idx, n in enumerate(pat):
                    val = [0.1, 0.2, 0.3] if n == "coeffs" else ([1.5, 2.5] if (n == "amp" and pinned) else 0.11 + 0.07 * idx)
                    args["kwargs_fixed_lens"][k][n] = val
                    fixed[("kwargs_lens", k, n)] = val
                if "coeffs" in names:
                    args["num_shapelet_lens"] = 6 if model == "SHAPELETS_POLAR" else 6
                log = set()
                if lg:
                    # one setting per parameter: the settings add up
                    args["log_sampling_lens"] = [[k, [n]] for n in lg] if len(lens_list) == 1 else [[k, list(lg)]]
                    lo = LensModel([model]).lens_model.func_list[0].lower_limit_default
                    up = LensModel([model]).lens_model.func_list[0].upper_limit_default
                    lo, up = snap([dict(lo)]), snap([dict(up)])
                    for n in lg:
                        lo[0][n], up[0][n] = 0.01, 10.0
                    args["kwargs_lower_lens"], args["kwargs_upper_lens"] = lo, up
                    log = {("kwargs_lens", k, n) for n in lg}
                if "coeffs" in names:
                    lo = [dict(f.lower_limit_default) for f in LensModel(lens_list).lens_model.func_list]
                    up = [dict(f.upper_limit_default) for f in LensModel(lens_list).lens_model.func_list]
                    for kk, mm in enumerate(lens_list):
                        if mm == model:
                            lo[kk]["coeffs"], up[kk]["coeffs"] = [-1.0] * 6, [1.0] * 6
                    args["kwargs_lower_lens"], args["kwargs_upper_lens"] = lo, up
                if pinned:
                    lo = [dict(f.lower_limit_default) for f in LensModel(lens_list).lens_model.func_list]
                    up = [dict(f.upper_limit_default) for f in LensModel(lens_list).lens_model.func_list]
                    for kk, mm in enumerate(lens_list):
                        if mm == model:
                            lo[kk]["amp"], up[kk]["amp"] = [0.0] * 2, [5.0] * 2
                    args["kwargs_lower_lens"], args["kwargs_upper_lens"] = lo, up
                cfg = empty_cfg("lens:%s/%s fix=%s log=%s" % (",".join(lens_list), k, pat, lg), dict(lens_model_list=lens_list), args)
                cfg.update(fixed=fixed, not_free=set(fixed), log=log)
                allnames = {("kwargs_lens", kk, n) for kk, mm in enumerate(lens_list) for n in (names if mm == model else ["gamma1", "gamma2", "ra_0", "dec_0"])}
                cfg["expected_free"] = allnames - set(fixed)
                verify(rec, cfg)
                if not lg and not pinned and len(pat) <= 1:
                    user_limits(rec, cfg, ["kwargs_lens"])


# ------------------------------------------------------------------ B: light profiles
def light_case(model, tier, rec):
    pk = [{"n_comp": 3}] if model.startswith("MGE_SET") else None
    LM = lambda ml: LightModel(ml, profile_kwargs_list=None if pk is None else [None] * (len(ml) - 1) + pk)
    names = list(LM([model]).param_name_list[0])
    pinned = {}
    n_amp = 1
    if model in ("SHAPELETS", "SHAPELETS_POLAR", "SHAPELETS_POLAR_EXP", "SHAPELETS_ELLIPSE"):
        pinned = {"n_max": 1}
        n_amp = 4 if model == "SHAPELETS_POLAR_EXP" else 3
    if model in ("MULTI_GAUSSIAN", "MULTI_GAUSSIAN_ELLIPSE"):
        pinned = {"sigma": [0.5, 1.0, 2.0]}
        n_amp = 3
    if model.startswith("MGE_SET"):
        n_amp = 3
    scal = [n for n in names if n not in pinned and n != "amp"]
    patterns = [()] + [(n,) for n in scal] + [tuple(scal)]
    if tier == "thorough":
        patterns += list(itertools.combinations(scal, 2))
    vector_amp = model in ("SHAPELETS", "SHAPELETS_POLAR", "SHAPELETS_POLAR_EXP", "SHAPELETS_ELLIPSE", "MULTI_GAUSSIAN",
                           "MULTI_GAUSSIAN_ELLIPSE", "MGE_SET", "MGE_SET_ELLIPSE")
    for group, key, lk in (("kwargs_source", "source_light_model_list", "source"), ("kwargs_lens_light", "lens_light_model_list", "lens_light"),
                           ("kwargs_extinction", "optical_depth_model_list", "extinction"), ("kwargs_tracer_source", "tracer_source_model_list", "tracer_source")):
        if pk is not None and group not in ("kwargs_source", "kwargs_lens_light"):
            continue  # profile set-up arguments can only be given for the light models
        for lin in (True, False):
            for mlist in ([model], ["GAUSSIAN", model]):
                k = len(mlist) - 1
                for pat in (patterns if (group == "kwargs_source" and k == 0) else patterns[:2]):
                    args = {"kwargs_fixed_" + lk: [dict() for _ in mlist], "linear_solver": lin}
                    fixed = {}
                    for n, val in pinned.items():
                        args["kwargs_fixed_" + lk][k][n] = val
                        fixed[(group, k, n)] = val
                    for idx, n in enumerate(pat):
                        args["kwargs_fixed_" + lk][k][n] = 0.21 + 0.03 * idx
                        fixed[(group, k, n)] = 0.21 + 0.03 * idx
                    lo = [dict(f.lower_limit_default) for f in LM(mlist).func_list]
                    up = [dict(f.upper_limit_default) for f in LM(mlist).func_list]
                    if "sigma" in pinned:
                        lo[k]["sigma"] = up[k]["sigma"] = pinned["sigma"]
                    if vector_amp:
                        lo[k]["amp"], up[k]["amp"] = [-1.0] * n_amp, [7.0] * n_amp
                    args["kwargs_lower_" + lk], args["kwargs_upper_" + lk] = lo, up
                    cfg = empty_cfg("%s:%s lin=%s fix=%s" % (group, ",".join(mlist), lin, pat), {key: mlist}, args)
                    cfg["light_group"] = group
                    if pk is not None:
                        cfg["model"][{"kwargs_source": "source_light", "kwargs_lens_light": "lens_light"}[group] + "_profile_kwargs_list"] = [None] * k + pk
                    allnames = {(group, kk, n) for kk, nl in enumerate(LM(mlist).param_name_list) for n in nl}
                    linear = lin and group in ("kwargs_source", "kwargs_lens_light")
                    if linear:
                        allnames -= {(group, kk, "amp") for kk in range(len(mlist))}
                    cfg.update(fixed=fixed, not_free=set(fixed) | ({(group, kk, "amp") for kk in range(len(mlist))} if linear else set()))
                    cfg["expected_free"] = allnames - set(fixed)
                    verify(rec, cfg)
                    if linear:
                        p = Param(snap(cfg["model"]), **snap(args))
                        rec.same("num-linear", p.num_param_linear(), n_amp + (len(mlist) - 1), what=cfg["id"])


# ------------------------------------------------------------------ C: joint constraints
JOINT = {
    "ll": ("joint_lens_with_lens", [[0, 1, ["center_x", "center_y"]]]),
    "ll_dict": ("joint_lens_with_lens", [[0, 2, {"ra_0": "center_x", "dec_0": "center_y"}]]),
    "lc": ("joint_lens_with_light", [[0, 0, ["center_x", "center_y"]]]),
    "lc1": ("joint_lens_with_light", [[1, 1, ["center_x", "center_y"]]]),
    "le": ("joint_lens_with_light", [[1, 0, ["e1", "e2"]]]),
    "lsl": ("joint_lens_with_source_light", [[0, 1, ["center_x", "center_y"]]]),
    "lll": ("joint_lens_light_with_lens_light", [[0, 1, ["center_x", "center_y", "R_sersic"]]]),
    "lll_r": ("joint_lens_light_with_lens_light", [[1, 0, ["n_sersic"]]]),
    "ss": ("joint_source_with_source", [[0, 1, ["center_x", "center_y"]]]),
    "ss_r": ("joint_source_with_source", [[1, 0, ["R_sersic"]]]),
    "sp": ("joint_source_with_point_source", [[0, 0]]),
    "sp1": ("joint_source_with_point_source", [[0, 1, ["center_x"]]]),
    "lp": ("joint_lens_light_with_point_source", [[1, 1]]),
    "ext": ("joint_extinction_with_lens_light", [[0, 0, ["R_sersic", "center_x"]]]),
    "tr": ("joint_source_light_with_tracer", [[0, 0, ["center_x", "center_y"]]]),
    "tr1": ("joint_source_light_with_tracer", [[1, 0, ["center_x", "R_sersic"]]]),
}
IMPLIED = {"ll_dict": {"ra_0": "center_x", "dec_0": "center_y"}}


def targets(names):
    """(group, index, name) entries that the constraints determine, or None if the combination links an
    entry twice or chains in an order the documented hierarchy does not define."""
    det = []
    src = []
    for j in names:
        kind, spec = JOINT[j]
        gf, gt = {"joint_lens_with_lens": ("kwargs_lens", "kwargs_lens"), "joint_lens_with_light": ("kwargs_lens_light", "kwargs_lens"),
                  "joint_lens_with_source_light": ("kwargs_source", "kwargs_lens"),
                  "joint_lens_light_with_lens_light": ("kwargs_lens_light", "kwargs_lens_light"),
                  "joint_source_with_source": ("kwargs_source", "kwargs_source"),
                  "joint_source_with_point_source": (None, "kwargs_source"),
                  "joint_lens_light_with_point_source": (None, "kwargs_lens_light"),
                  "joint_extinction_with_lens_light": ("kwargs_lens_light", "kwargs_extinction"),
                  "joint_source_light_with_tracer": ("kwargs_source", "kwargs_tracer_source")}[kind]
        for s in spec:
            plist = s[2] if len(s) > 2 else ["center_x", "center_y"]
            for to in plist:
                frm = plist[to] if isinstance(plist, dict) else to
                det.append((gt, s[1], to))
                if gf is not None:
                    src.append(((gf, s[0], frm), (gt, s[1], to)))
    if len(set(det)) != len(det):
        return None, None
    return det, src


# order in which the documentation says the constraints are applied; a link whose source is itself the
# target of a constraint applied later is outside the documented hierarchy
ORDER = ["lp", "lll", "lll_r", "lc", "lc1", "le", "lsl", "ext", "ll", "ll_dict", "sp", "sp1", "ss", "ss_r", "tr", "tr1"]


def legal(names):
    det, src = targets(names)
    if det is None or ("ext" in names and {"tr", "tr1"} & set(names)):
        return False  # (optical depth and tracer entries share one published name: checked separately)
    rank = {}
    for j in names:
        d, _ = targets([j])
        for x in d:
            rank[x] = ORDER.index(j)
    for j in names:
        _, s = targets([j])
        for frm, to in s:
            if frm in rank and rank[frm] >= ORDER.index(j):
                return False
    return True


def rel_joint(names):
    def check(rec, cfg, dec, bij, label):
        _, src = targets(names)
        for (g1, k1, n1), (g2, k2, n2) in src:
            if g1 == "kwargs_source" and g2 == "kwargs_lens" and cfg.get("image_plane"):
                continue
            rec.same("joint" + label, dec[g2][k2][n2], dec[g1][k1][n1], what="%s linked %s" % (cfg["id"], ((g1, k1, n1), (g2, k2, n2))))
        for j in names:
            kind, spec = JOINT[j]
            if kind == "joint_source_with_point_source":
                lm = cfg["lens"]
                for s in spec:
                    ps = dec["kwargs_ps"][s[0]]
                    if "ra_source" in ps:
                        x, y = ps["ra_source"], ps["dec_source"]
                    else:
                        x, y = lm.ray_shooting(np.array(ps["ra_image"]), np.array(ps["dec_image"]), dec["kwargs_lens"])
                    for n, val in (("center_x", np.mean(x)), ("center_y", np.mean(y))):
                        if n in (s[2] if len(s) > 2 else ["center_x", "center_y"]):
                            rec.same("joint-ps" + label, dec["kwargs_source"][s[1]][n], val, what=cfg["id"])
            if kind == "joint_lens_light_with_point_source":
                for s in spec:
                    ps = dec["kwargs_ps"][s[0]]
                    for n, val in (("center_x", np.mean(ps["ra_image"])), ("center_y", np.mean(ps["dec_image"]))):
                        rec.same("joint-ps" + label, dec["kwargs_lens_light"][s[1]][n], val, what=cfg["id"])
    return check


PS = {
    "none": ([], []),
    "img2": (["LENSED_POSITION", "UNLENSED"], [2, 1]),
    "src": (["SOURCE_POSITION", "UNLENSED"], [4, 2]),
}


def joint_case(cid, tier, rec):
    _, names, ps, lin, ip, fixmag = cid.split("|")
    names = [n for n in names.split("+") if n]
    lin = lin == "lin"
    ip = ip == "ip"
    fixmag = fixmag == "fm"
    model = dict(lens_model_list=["SIE", "SIS", "SHEAR"], source_light_model_list=["SERSIC", "SERSIC_ELLIPSE"],
                 lens_light_model_list=["SERSIC", "SERSIC_ELLIPSE"], optical_depth_model_list=["SERSIC"], tracer_source_model_list=[])
    light_group = "kwargs_extinction"
    if {"tr", "tr1"} & set(names):
        model["optical_depth_model_list"] = []
        model["tracer_source_model_list"] = ["SERSIC"]
        light_group = "kwargs_tracer_source"
    args = dict(linear_solver=lin)
    for j in names:
        kind, spec = JOINT[j]
        args.setdefault(kind, [])
        args[kind] = args[kind] + snap(spec)
    plist, pnum = PS[ps]
    model["point_source_model_list"] = plist
    model["fixed_magnification_list"] = [fixmag, False][: len(plist)]
    args["num_point_source_list"] = pnum
    if ip:
        args["image_plane_source_list"] = [True, False]
    cfg = empty_cfg(cid, model, args)
    cfg["light_group"] = light_group
    det, src = targets(names)
    # fix one unrelated parameter in every group
    fixed = {}
    args["kwargs_fixed_lens"] = [{}, {}, {"ra_0": 0.0, "dec_0": 0.0}]
    args["kwargs_fixed_source"] = [{"n_sersic": 1.7}, {}]
    args["kwargs_fixed_lens_light"] = [{}, {"e2": 0.03}]
    if "ll_dict" in names:
        args["kwargs_fixed_lens"] = [{}, {}, {}]
    else:
        fixed[("kwargs_lens", 2, "ra_0")] = 0.0
        fixed[("kwargs_lens", 2, "dec_0")] = 0.0
    fixed[("kwargs_source", 0, "n_sersic")] = 1.7
    if "le" not in names:
        fixed[("kwargs_lens_light", 1, "e2")] = 0.03
    else:
        fixed[("kwargs_lens_light", 1, "e2")] = 0.03
    ps_fields = []
    for i, (m, n) in enumerate(zip(plist, pnum)):
        ps_fields += [(i, "ra_source", 1), (i, "dec_source", 1)] if m == "SOURCE_POSITION" else [(i, "ra_image", n), (i, "dec_image", n)]
        if not lin:
            ps_fields += [(i, "source_amp", 1)] if (model["fixed_magnification_list"][i] and m != "UNLENSED") else [(i, "point_amp", n)]
    cfg["ps_fields"] = ps_fields
    lo_ps, up_ps = [], []
    for i, (m, n) in enumerate(zip(plist, pnum)):
        lo, up = {}, {}
        for (ii, nm, nn) in [(i, a, b) for (q, a, b) in ps_fields if q == i]:
            arr = nm in ("ra_image", "dec_image", "point_amp")
            lo[nm] = [-1.5 - 0.1 * e for e in range(nn)] if arr else -1.5
            up[nm] = [1.9 + 0.3 * e for e in range(nn)] if arr else 1.9
        lo_ps.append(lo)
        up_ps.append(up)
    args["kwargs_lower_ps"], args["kwargs_upper_ps"] = lo_ps, up_ps
    not_free = set(fixed) | set(det)
    cfg.update(fixed=fixed, not_free=not_free, relations=[rel_joint(names)], image_plane=ip)
    cfg["lens"] = LensModel(model["lens_model_list"])
    if ip:
        cfg["mapped"] = {("kwargs_source", 0, "center_x"), ("kwargs_source", 0, "center_y")}
        cfg["relations"].append(rel_image_plane)
    allnames = set()
    for k, m in enumerate(model["lens_model_list"]):
        allnames |= {("kwargs_lens", k, n) for n in lens_names(m)}
    for g, key in (("kwargs_source", "source_light_model_list"), ("kwargs_lens_light", "lens_light_model_list"),
                   ("kwargs_extinction", "optical_depth_model_list"), ("kwargs_tracer_source", "tracer_source_model_list")):
        for k, m in enumerate(model[key]):
            for n in LightModel([m]).param_name_list[0]:
                if n == "amp" and lin and g in ("kwargs_source", "kwargs_lens_light"):
                    continue
                allnames.add((g, k, n))
    allnames |= {("kwargs_ps", i, n) for (i, n, _) in ps_fields}
    cfg["expected_free"] = allnames - not_free
    verify(rec, cfg)
    user_limits(rec, cfg, ["kwargs_lens", "kwargs_source", "kwargs_lens_light", "kwargs_ps", light_group])


def rel_image_plane(rec, cfg, dec, bij, label):
    if ("kwargs_source", 0, "center_x") in cfg["not_free"] or ("kwargs_source", 0, "center_y") in cfg["not_free"]:
        return
    x, y = bij["kwargs_source"][0]["center_x"], bij["kwargs_source"][0]["center_y"]
    bx, by = cfg["lens"].ray_shooting(x, y, dec["kwargs_lens"])
    rec.same("image-plane" + label, [dec["kwargs_source"][0]["center_x"], dec["kwargs_source"][0]["center_y"]], [bx, by], what=cfg["id"])


def joint_cases(tier):
    out = []
    keys = list(JOINT)
    kmax = 3 if tier == "thorough" else 2
    for r in range(0, kmax + 1):
        for comb in itertools.combinations(keys, r):
            if not legal(comb):
                continue
            for ps in PS:
                if ps == "none" and any(c in comb for c in ("sp", "sp1", "lp")):
                    continue
                for lin in ("lin", "nolin"):
                    for ip in ("ip", "sp"):
                        if ip == "ip" and any(c in comb for c in ("lsl", "sp", "ss_r")):
                            continue
                        for fm in ("fm", "nofm"):
                            if fm == "fm" and ps == "none":
                                continue
                            if r == 2 and tier == "quick" and (fm == "fm" and lin == "lin"):
                                continue
                            if r == 3 and (fm == "fm" or lin == "lin"):
                                continue
                            out.append("J|%s|%s|%s|%s|%s" % ("+".join(comb), ps, lin, ip, fm))
    return out


# ------------------------------------------------------------------ D: special parameters and scalings
SPECIAL = ["ddt", "ms1", "ms12", "gs", "gs2", "off", "size", "tau", "kin", "solver2", "zs", "cosmo", "fixsp"]


def special_cases(tier):
    kmax = 3 if tier == "thorough" else 2
    out = []
    for r in range(0, kmax + 1):
        for comb in itertools.combinations(SPECIAL, r):
            s = set(comb)
            if {"ms1", "ms12"} <= s or {"gs", "gs2"} <= s or {"ddt", "kin"} <= s or ({"cosmo", "zs"} <= s):
                continue
            if s & {"cosmo"} and s & {"ddt", "kin", "zs"}:
                continue  # documented to be switched off with a warning
            if "solver2" in s and s & {"zs", "cosmo"}:
                if "cosmo" in s:
                    continue
            if {"gs", "solver2"} <= s or {"gs2", "solver2"} <= s or {"ms12", "solver2"} <= s or {"ms1", "solver2"} <= s:
                continue  # scaling of solver-determined masses has no defined meaning
            out.append("S|" + "+".join(comb))
    return out


def special_case(cid, tier, rec):
    opts = set(x for x in cid[2:].split("+") if x)
    lens = ["SIE", "SIS", "SHEAR", "SIS"]
    model = dict(lens_model_list=lens, source_light_model_list=["SERSIC"], point_source_model_list=["LENSED_POSITION"])
    nps = 2 if "solver2" in opts else 4
    args = dict(num_point_source_list=[nps])
    spec_free = []  # (name, n)
    if "zs" in opts or "cosmo" in opts:
        model.update(multi_plane=True, lens_redshift_list=[0.5, 0.5, 0.5, 0.7], z_source=1.5, source_redshift_list=[1.5])
    if "ddt" in opts or "kin" in opts:
        spec_free.append(("D_dt", 1))
        args["Ddt_sampling"] = True
    if "kin" in opts:
        args["kinematic_sampling"] = True
        spec_free += [("D_d", 1), ("b_ani", 1), ("incli", 1)]
    ms = None
    if "ms1" in opts:
        ms = [False, 1, False, 1]
        spec_free.append(("scale_factor", 1))
    if "ms12" in opts:
        ms = [False, 2, False, 1]
        spec_free.append(("scale_factor", 2))
    if ms:
        args["mass_scaling_list"] = ms
    gs = None
    if "gs" in opts:
        gs = {"theta_E": [1, False, False, 1]}
        spec_free += [("theta_E_scale_factor", 1), ("theta_E_scale_pow", 1)]
    if "gs2" in opts:
        gs = {"theta_E": [1, False, False, 2], "center_x": [False, 1, False, False]}
        spec_free += [("theta_E_scale_factor", 2), ("theta_E_scale_pow", 2), ("center_x_scale_factor", 1), ("center_x_scale_pow", 1)]
    if gs:
        args["general_scaling"] = gs
    if "off" in opts:
        args["point_source_offset"] = True
        spec_free += [("delta_x_image", nps), ("delta_y_image", nps)]
    if "size" in opts:
        args["source_size"] = True
        spec_free.append(("source_size", 1))
    if "tau" in opts:
        args["num_tau0"] = 2
        spec_free.append(("tau0_list", 2))
    if "zs" in opts:
        args["lens_redshift_sampling_indexes"] = [-1, -1, -1, 0]
        spec_free.append(("z_sampling", 1))
    if "cosmo" in opts:
        model["cosmology_sampling"] = True
        model["cosmology_model"] = "FlatLambdaCDM"
        spec_free += [("H0", 1), ("Om0", 1)]
    fixed = {}
    arr_names = ("scale_factor", "tau0_list", "z_sampling", "delta_x_image", "delta_y_image")
    is_arr = lambda n: n in arr_names or n.endswith("_scale_factor") or n.endswith("_scale_pow")
    rng = {"D_dt": (1000, 3000), "D_d": (500, 1500), "b_ani": (-0.5, 0.5), "incli": (0.1, 1.2), "source_size": (0.01, 0.1),
           "z_sampling": (0.55, 0.9), "H0": (50, 90), "Om0": (0.2, 0.4), "delta_x_image": (-0.1, 0.1), "delta_y_image": (-0.1, 0.1),
           "tau0_list": (0.1, 2.0), "scale_factor": (0.5, 2.0)}
    lo, up = {}, {}
    for n, c in spec_free:
        a, b = rng.get(n, (0.4, 1.6))
        lo[n] = [a] * c if is_arr(n) else a
        up[n] = [b] * c if is_arr(n) else b
    if "fixsp" in opts and spec_free:
        n, c = spec_free[0]
        val = np.full(c, 0.9) if is_arr(n) else (lo[n] + up[n]) / 2
        if n == "z_sampling":
            val = np.full(c, 0.8)
        args["kwargs_fixed_special"] = {n: val}
        fixed[("kwargs_special", None, n)] = val
    args["kwargs_lower_special"], args["kwargs_upper_special"] = lo, up
    # sensible limits for the rest, so that the point solver converges
    args["kwargs_lower_lens"] = [dict(theta_E=0.9, e1=-0.2, e2=-0.2, center_x=0.01, center_y=-0.1), dict(theta_E=0.05, center_x=0.5, center_y=0.4),
                                 dict(gamma1=0.02, gamma2=-0.03, ra_0=-1, dec_0=-1), dict(theta_E=0.02, center_x=-0.7, center_y=-0.9)]
    args["kwargs_upper_lens"] = [dict(theta_E=1.3, e1=0.2, e2=0.2, center_x=0.1, center_y=0.1), dict(theta_E=0.1, center_x=0.6, center_y=0.6),
                                 dict(gamma1=0.04, gamma2=-0.01, ra_0=1, dec_0=1), dict(theta_E=0.08, center_x=-0.5, center_y=-0.8)]
    args["kwargs_fixed_lens"] = [{}, {}, {"ra_0": 0, "dec_0": 0}, {}]
    fixed[("kwargs_lens", 2, "ra_0")] = 0
    fixed[("kwargs_lens", 2, "dec_0")] = 0
    quad_x, quad_y = np.array([-0.5632, 0.8817, 1.113, -0.6871]), np.array([1.1341, -0.8504, 0.5024, -0.8635])
    quad_x, quad_y = quad_x[:nps], quad_y[:nps]
    args["kwargs_lower_ps"] = [dict(ra_image=list(quad_x - 0.003), dec_image=list(quad_y - 0.003))]
    args["kwargs_upper_ps"] = [dict(ra_image=list(quad_x + 0.003), dec_image=list(quad_y + 0.003))]
    det = set()
    mapped = set()
    if "solver2" in opts:
        args["solver_type"] = "CENTER"
        args["kwargs_lens_init"] = [dict(theta_E=1.1, e1=0.1, e2=0.06, center_x=0.02, center_y=0.01), dict(theta_E=0.07, center_x=0.55, center_y=0.5),
                                    dict(gamma1=0.03, gamma2=-0.02, ra_0=0, dec_0=0), dict(theta_E=0.05, center_x=-0.6, center_y=-0.85)]
        det = {("kwargs_lens", 0, n) for n in ("center_x", "center_y")}
    cfg = empty_cfg(cid, model, args)
    cfg["ps_fields"] = [(0, "ra_image", nps), (0, "dec_image", nps)]
    cfg.update(fixed=fixed, not_free=set(fixed) | det, mapped=mapped)
    sc = set()
    if ms:
        sc |= {("kwargs_lens", k, "theta_E") for k, v in enumerate(ms) if v is not False}
    if gs:
        sc |= {("kwargs_lens", k, n) for n in gs for k, v in enumerate(gs[n]) if v is not False}
    cfg["scaled"] = sc
    cfg["relations"] = [rel_scaling(ms, gs)]
    if "solver2" in opts:
        cfg["relations"].append(rel_solver(model, "zs" in opts))
    free = {("kwargs_special", None, n) for n, _ in spec_free} | {("kwargs_ps", 0, "ra_image"), ("kwargs_ps", 0, "dec_image")}
    for k, m in enumerate(lens):
        free |= {("kwargs_lens", k, n) for n in lens_names(m)}
    free |= {("kwargs_source", 0, n) for n in LightModel(["SERSIC"]).param_name_list[0] if n != "amp"}
    cfg["expected_free"] = free - set(fixed) - det
    verify(rec, cfg)
    # vectors outside the declared special limits must not be written back into the caller's vector
    if spec_free and "solver2" not in opts:
        p = Param(snap(model), **snap(args))
        low, up_ = p.param_limits()
        for bound, d in ((low, -0.05), (up_, 0.05)):
            v = np.array(bound, dtype=float) + d
            v0 = v.copy()
            p.args2kwargs(v)
            rec.unchanged("vector-mutated-outside", v0, v, "%s out-of-bounds vector" % cid)
            rec.trans()


def rel_scaling(ms, gs):
    def check(rec, cfg, dec, bij, label):
        raw = snap(bij["kwargs_lens"])
        sp = bij["kwargs_special"]
        if ms:
            for k, v in enumerate(ms):
                if v is not False:
                    raw[k]["theta_E"] = raw[k]["theta_E"] * sp["scale_factor"][v - 1]
        if gs:
            for n in gs:
                for k, v in enumerate(gs[n]):
                    if v is not False:
                        raw[k][n] = sp[n + "_scale_factor"][v - 1] * raw[k][n] ** sp[n + "_scale_pow"][v - 1]
        for k in range(len(raw)):
            for n in raw[k]:
                if ("kwargs_lens", k, n) in cfg["scaled"]:
                    rec.same("scaling" + label, dec["kwargs_lens"][k][n], raw[k][n], what="%s scaled %s" % (cfg["id"], (k, n)))
    return check


def rel_solver(model, zs):
    def check(rec, cfg, dec, bij, label):
        if zs:
            zl = list(model["lens_redshift_list"])
            zl[3] = float(dec["kwargs_special"]["z_sampling"][0])
            lm = LensModel(model["lens_model_list"], multi_plane=True, lens_redshift_list=zl, z_source=model["z_source"])
        elif model.get("multi_plane"):
            lm = LensModel(model["lens_model_list"], multi_plane=True, lens_redshift_list=model["lens_redshift_list"], z_source=model["z_source"])
        else:
            lm = LensModel(model["lens_model_list"])
        ps = dec["kwargs_ps"][0]
        bx, by = lm.ray_shooting(np.array(ps["ra_image"]), np.array(ps["dec_image"]), dec["kwargs_lens"])
        spread = max(np.ptp(bx), np.ptp(by))
        rec.true("solver" + label, spread < 1e-5, "%s: images of one source trace back to positions differing by %g" % (cfg["id"], spread))
    return check


# ------------------------------------------------------------------ E: parameters determined by the image positions
EPL0 = dict(theta_E=1.1, gamma=1.95, e1=0.1, e2=0.06, center_x=0.02, center_y=0.01)
SIE0 = dict(theta_E=1.1, e1=0.1, e2=0.06, center_x=0.02, center_y=0.01)
SH0 = dict(gamma1=0.05, gamma2=-0.02, ra_0=0, dec_0=0)
NFW0 = dict(Rs=2.0, alpha_Rs=2.2, e1=0.04, e2=0.03, center_x=0.02, center_y=0.01)
# id: (number of images, solver, lens models, model values, what the solver determines, what it turns (keeping the strength))
SOLVERS = {
    "2-center": (2, "CENTER", ["SIE", "SHEAR"], [SIE0, SH0], {(0, "center_x"), (0, "center_y")}, None),
    "2-ellipse": (2, "ELLIPSE", ["SIE", "SHEAR"], [SIE0, SH0], {(0, "e1"), (0, "e2")}, None),
    "2-theta-phi": (2, "THETA_E_PHI", ["SIE", "SHEAR"], [SIE0, SH0], {(0, "theta_E")}, (1, "gamma1", "gamma2")),
    "2-theta-ellipse": (2, "THETA_E_ELLIPSE", ["SIE", "SHEAR"], [SIE0, SH0], {(0, "theta_E")}, (0, "e1", "e2")),
    "4-profile": (4, "PROFILE", ["EPL", "SHEAR"], [EPL0, SH0], {(0, n) for n in ("theta_E", "e1", "e2", "center_x", "center_y")}, None),
    "4-shear": (4, "PROFILE_SHEAR", ["EPL", "SHEAR"], [EPL0, SH0], {(0, n) for n in ("theta_E", "e1", "e2", "center_x", "center_y")}, (1, "gamma1", "gamma2")),
    "4-nfw": (4, "PROFILE_SHEAR", ["NFW_ELLIPSE_POTENTIAL", "SHEAR"], [NFW0, SH0],
              {(0, n) for n in ("alpha_Rs", "e1", "e2", "center_x", "center_y")}, (1, "gamma1", "gamma2")),
}


def solver_case(cid, tier, rec):
    nim, stype, lens, truth, det, turned = SOLVERS[cid.split("|")[1]]
    lm = LensModel(lens)
    from lenstronomy.LensModel.Solver.lens_equation_solver import LensEquationSolver
    x, y = LensEquationSolver(lm).image_position_from_source(0.09, 0.05, truth, min_distance=0.05, search_window=6)
    if len(x) == 5:  # with a core: leave the central image out
        keep = np.sort(np.argsort(np.hypot(x, y))[1:])
        x, y = x[keep], y[keep]
    rec.true("solver-setup", len(x) == 4, "%s: the lens has %d images" % (cid, len(x)))
    if len(x) != 4:
        return
    x, y = (x[[0, 2]], y[[0, 2]]) if nim == 2 else (x, y)
    p = Param(dict(lens_model_list=list(lens), point_source_model_list=["LENSED_POSITION"]), solver_type=stype, num_point_source_list=[nim],
              kwargs_lens_init=snap(truth), kwargs_fixed_lens=[{}, dict(ra_0=0, dec_0=0)])
    num, names = p.num_param()
    ps = [dict(ra_image=x, dec_image=y)]
    v = p.kwargs2args(kwargs_lens=snap(truth), kwargs_ps=snap(ps), kwargs_source=[], kwargs_lens_light=[])
    rec.true("solver-length", len(v) == num == len(names), "%s: %d values for %d names" % (cid, len(v), num))
    low, up = p.param_limits()
    rec.true("solver-limits", len(low) == len(up) == num and np.all(np.array(low) <= np.array(up)), "%s: limits" % cid)
    moves = [(None, 0.0)] + [(j, d) for j in range(num) for d in ((0.003, -0.003) if tier == "quick" else (0.003, -0.003, 0.006, -0.006))]
    for j, d in moves:
        w = np.array(v, dtype=float)
        if j is not None:
            w[j] += d
        w0 = w.copy()
        rec.state((cid, j, d))
        what = "%s, %s moved by %g" % (cid, names[j] if j is not None else "nothing", d)
        dec = p.args2kwargs(w)
        rec.trans()
        rec.unchanged("solver-vector", w0, w, what)
        kl = dec["kwargs_lens"]
        bx, by = lm.ray_shooting(np.array(dec["kwargs_ps"][0]["ra_image"]), np.array(dec["kwargs_ps"][0]["dec_image"]), kl)
        spread = max(np.ptp(bx), np.ptp(by))
        if j is not None and spread >= 1e-5:
            continue  # no model of this family reproduces these positions
        rec.true("solver-source", spread < 1e-5, "%s: images of one source trace back to positions differing by %g" % (what, spread))
        # what is not determined by the image positions is what has been sampled
        at = {}
        for n, val in zip(names, w):
            m = re.match(r"^(.*?)_lens(\d+)$", n)
            if m:
                at[(int(m.group(2)), m.group(1))] = val
        for (k, n), val in at.items():
            if (k, n) in det or (turned and k == turned[0] and n in turned[1:]):
                continue
            rec.same("solver-kept", kl[k][n], val, what="%s: sampled %s" % (what, (k, n)))
        if turned:
            k, n1, n2 = turned
            rec.same("solver-strength", np.hypot(kl[k][n1], kl[k][n2]), np.hypot(at[(k, n1)], at.get((k, n2), 0.0)), rtol=1e-6,
                     what="%s: strength of %s" % (what, (n1, n2)))
        # the decoded model, encoded and decoded again, is the same model
        back = p.kwargs2args(**{g: snap(p.args2kwargs(w, bijective=True)[g]) for g in GROUPS})
        again = p.args2kwargs(back)
        rec.trans()
        for k in range(len(lens)):
            for n in kl[k]:
                rec.same("solver-roundtrip", again["kwargs_lens"][k][n], kl[k][n], rtol=1e-4, atol=1e-5, what="%s: decoded again %s" % (what, (k, n)))
        for n in ("ra_image", "dec_image"):
            rec.same("solver-roundtrip-images", again["kwargs_ps"][0][n], dec["kwargs_ps"][0][n], what="%s: decoded again %s" % (what, n))


# ------------------------------------------------------------------ driver
def cases(tier):
    out = ["L|" + m for m in LENS_MODELS] + ["LA|" + m for m in LENS_MODELS if m.startswith("MULTI_GAUSSIAN")] + ["B|" + m for m in LIGHT_MODELS]
    return out + joint_cases(tier) + special_cases(tier) + ["V|" + k for k in SOLVERS]


def run_case(cid, tier, rec):
    kind = cid.split("|")[0]
    if kind == "L":
        lens_case(cid[2:], tier, rec)
    elif kind == "LA":
        lens_case(cid[3:], tier, rec, amp_free=True)
    elif kind == "B":
        light_case(cid[2:], tier, rec)
    elif kind == "J":
        joint_case(cid, tier, rec)
    elif kind == "V":
        solver_case(cid, tier, rec)
    else:
        special_case(cid, tier, rec)
    rec.sample(case=cid, states=len(rec.states), transitions=rec.transitions)
