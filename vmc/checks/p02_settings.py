"""P02: fitting settings and the parameter state are exactly what the history of edits says.

Enumerates every sequence of settings edits / value edits / restarts / band fixing / optimisation steps up
to a depth on the real FittingSequence and update manager and compares every observable with a small
reference machine (plain dicts), plus: the caller's inputs and results handed out earlier never change.
"""
import itertools

import numpy as np

from lenstronomy.Workflow.fitting_sequence import FittingSequence
from lenstronomy.Workflow.multi_band_manager import MultiBandUpdateManager
from vmc.core import snap, digest

G = ["kwargs_lens", "kwargs_source", "kwargs_lens_light", "kwargs_ps", "kwargs_special", "kwargs_extinction", "kwargs_tracer_source"]


def base():
    model = dict(lens_model_list=["EPL", "SIS"], source_light_model_list=["SERSIC", "GAUSSIAN"], lens_light_model_list=["SERSIC"],
                 point_source_model_list=["LENSED_POSITION"], optical_depth_model_list=["GAUSSIAN"], tracer_source_model_list=["GAUSSIAN"],
                 index_lens_model_list=[[0], [0, 1]], index_source_light_model_list=[[0], [1]], index_lens_light_model_list=[[0], [0]],
                 tau0_index_list=[0, 0], tracer_source_band=0)
    epl = dict(theta_E=1.1, gamma=2.0, e1=0.05, e2=-0.03, center_x=0.02, center_y=0.01)
    sis = dict(theta_E=0.1, center_x=1.2, center_y=0.7)
    ser = dict(amp=2.0, R_sersic=0.4, n_sersic=1.5, center_x=0.1, center_y=-0.1)
    gau = dict(amp=1.0, sigma=0.3, center_x=0.0, center_y=0.2)
    ps = dict(ra_image=np.array([1.0, -0.8]), dec_image=np.array([0.5, -0.4]), point_amp=np.array([3.0, 2.0]))
    init = {"lens_model": [epl, sis], "source_model": [ser, gau], "lens_light_model": [snap(ser)], "point_source_model": [ps],
            "extinction_model": [snap(gau)], "tracer_source_model": [snap(gau)], "special": dict(D_dt=3000.0)}
    fixed = {"lens_model": [{"e2": -0.03}, {"center_y": 0.7}], "source_model": [{}, {"center_x": 0.0}], "lens_light_model": [{"n_sersic": 1.5}],
             "point_source_model": [{}], "extinction_model": [{}], "tracer_source_model": [{"amp": 1.0}], "special": {}}
    params = {}
    for key in init:
        if key == "special":
            params[key] = [init[key], {"D_dt": 100.0}, fixed[key], {"D_dt": 0.0}, {"D_dt": 10000.0}]
        else:
            sig = [{k: np.abs(v) * 0 + 0.05 for k, v in d.items()} for d in init[key]]
            low = [{k: v - 1.0 for k, v in d.items()} for d in init[key]]
            up = [{k: v + 1.0 for k, v in d.items()} for d in init[key]]
            params[key] = [snap(init[key]), sig, snap(fixed[key]), low, up]
    constraints = dict(Ddt_sampling=True, num_point_source_list=[2], num_tau0=0)
    likelihood = dict(image_likelihood=False, check_bounds=True)
    data = dict(multi_band_list=[[{}, {}, {}], [{}, {}, {}]], multi_band_type="multi-linear")
    return data, model, constraints, likelihood, params


KEY = dict(zip(["lens_model", "source_model", "lens_light_model", "point_source_model", "special", "extinction_model", "tracer_source_model"], G))


class Ref:
    """Reference state machine."""

    def __init__(self, params, model, constraints, likelihood):
        p = snap(params)
        self.init = {KEY[k]: v[0] for k, v in p.items()}
        self.sigma = {KEY[k]: v[1] for k, v in p.items()}
        self.fixed = {KEY[k]: v[2] for k, v in p.items()}
        self.lower = {KEY[k]: v[3] for k, v in p.items()}
        self.upper = {KEY[k]: v[4] for k, v in p.items()}
        self.fixed0 = snap(self.fixed)
        self.temp = snap(self.init)
        self.model, self.constraints, self.likelihood = dict(model), dict(constraints), dict(likelihood)

    def add_fixed(self, g, i, names, values=None):
        for j, n in enumerate(names):
            v = None if values is None else values[j]
            if g == "kwargs_special":
                if n not in self.fixed[g]:
                    self.fixed[g][n] = self.temp[g][n]
            else:
                self.fixed[g][i][n] = snap(self.temp[g][i][n]) if v is None else v

    def remove_fixed(self, g, i, names):
        d = self.fixed[g] if i is None else self.fixed[g][i]
        for n in names:
            d.pop(n, None)

    def observe(self):
        return dict(temp=self.temp, fixed=self.fixed, lower=self.lower, upper=self.upper, sigma=self.sigma,
                    constraints=self.constraints, likelihood=self.likelihood)


# name -> (fitting step, reference effect)
def _upd(**kw):
    return ["update_settings", kw]


OPS = {
    "fixL_cur": (_upd(lens_add_fixed=[[0, ["gamma", "theta_E"]]]), lambda r: r.add_fixed("kwargs_lens", 0, ["gamma", "theta_E"])),
    "fixL_val": (_upd(lens_add_fixed=[[0, ["gamma"], [2.25]], [1, ["theta_E"], [0.2]]]),
                 lambda r: (r.add_fixed("kwargs_lens", 0, ["gamma"], [2.25]), r.add_fixed("kwargs_lens", 1, ["theta_E"], [0.2]))),
    "unfixL": (_upd(lens_remove_fixed=[[0, ["gamma", "e2"]], [1, ["center_x"]]]),
               lambda r: (r.remove_fixed("kwargs_lens", 0, ["gamma", "e2"]), r.remove_fixed("kwargs_lens", 1, ["center_x"]))),
    "swapL": (_upd(lens_add_fixed=[[0, ["e1"]]], lens_remove_fixed=[[0, ["e1", "e2"]]]),
              lambda r: (r.add_fixed("kwargs_lens", 0, ["e1"]), r.remove_fixed("kwargs_lens", 0, ["e1", "e2"]))),
    "fixS": (_upd(source_add_fixed=[[1, ["sigma", "amp"], [None, 0.0]]], source_remove_fixed=[[1, ["center_x"]]]),
             lambda r: (r.add_fixed("kwargs_source", 1, ["sigma", "amp"], [None, 0.0]), r.remove_fixed("kwargs_source", 1, ["center_x"]))),
    "fixLL": (_upd(lens_light_add_fixed=[[0, ["R_sersic"], [0.0]]], lens_light_remove_fixed=[[0, ["n_sersic"]]]),
              lambda r: (r.add_fixed("kwargs_lens_light", 0, ["R_sersic"], [0.0]), r.remove_fixed("kwargs_lens_light", 0, ["n_sersic"]))),
    "fixPS": (_upd(ps_add_fixed=[[0, ["ra_image"]]]), lambda r: r.add_fixed("kwargs_ps", 0, ["ra_image"])),
    "unfixPS": (_upd(ps_remove_fixed=[[0, ["ra_image"]]]), lambda r: r.remove_fixed("kwargs_ps", 0, ["ra_image"])),
    "fixSp": (_upd(special_add_fixed=["D_dt"]), lambda r: r.add_fixed("kwargs_special", None, ["D_dt"])),
    "unfixSp": (_upd(special_remove_fixed=["D_dt"]), lambda r: r.remove_fixed("kwargs_special", None, ["D_dt"])),
    "fixTr": (_upd(tracer_source_add_fixed=[[0, ["sigma"]]], tracer_source_remove_fixed=[[0, ["amp"]]]),
              lambda r: (r.add_fixed("kwargs_tracer_source", 0, ["sigma"]), r.remove_fixed("kwargs_tracer_source", 0, ["amp"]))),
    "limits": (_upd(change_lens_lower_limit=[[0, ["theta_E", "gamma"], [0.3, 1.2]]], change_lens_upper_limit=[[1, ["theta_E"], [0.9]]],
                    change_source_lower_limit=[[1, ["sigma"], [0.01]]], change_source_upper_limit=[[0, ["R_sersic"], [3.3]]]),
               lambda r: (r.lower["kwargs_lens"][0].update(theta_E=0.3, gamma=1.2), r.upper["kwargs_lens"][1].update(theta_E=0.9),
                          r.lower["kwargs_source"][1].update(sigma=0.01), r.upper["kwargs_source"][0].update(R_sersic=3.3))),
    "sigmas": (_upd(change_sigma_lens=[[1, ["theta_E"], [0.011]]], change_sigma_source=[[0, ["n_sersic"], [0.012]]],
                    change_sigma_lens_light=[[0, ["amp", "R_sersic"], [0.013, 0.014]]]),
               lambda r: (r.sigma["kwargs_lens"][1].update(theta_E=0.011), r.sigma["kwargs_source"][0].update(n_sersic=0.012),
                          r.sigma["kwargs_lens_light"][0].update(amp=0.013, R_sersic=0.014))),
    "options": (_upd(kwargs_constraints={"joint_lens_with_light": [[0, 0, ["center_x", "center_y"]]]}, kwargs_likelihood={"check_bounds": False}),
                lambda r: (r.constraints.update(joint_lens_with_light=[[0, 0, ["center_x", "center_y"]]]), r.likelihood.update(check_bounds=False))),
    "options2": (_upd(kwargs_constraints={"joint_lens_with_light": [], "linear_solver": False}, kwargs_likelihood={"prior_lens": [[0, "gamma", 2.0, 0.1]]}),
                 lambda r: (r.constraints.update(joint_lens_with_light=[], linear_solver=False), r.likelihood.update(prior_lens=[[0, "gamma", 2.0, 0.1]]))),
    "set": (["set_param_value", dict(lens=[[0, ["gamma", "theta_E"], [1.9, 1.3]]], source=[[1, ["sigma"], [0.44]]], lens_light=[[0, ["amp"], [7.0]]],
                                     ps=[[0, ["ra_image"], [np.array([0.9, -0.9])]]])],
            lambda r: (r.temp["kwargs_lens"][0].update(gamma=1.9, theta_E=1.3), r.temp["kwargs_source"][1].update(sigma=0.44),
                       r.temp["kwargs_lens_light"][0].update(amp=7.0), r.temp["kwargs_ps"][0].update(ra_image=np.array([0.9, -0.9])))),
    "set2": (["set_param_value", dict(lens=[[0, ["gamma"], [2.1]], [1, ["theta_E"], [0.15]]])],
             lambda r: (r.temp["kwargs_lens"][0].update(gamma=2.1), r.temp["kwargs_lens"][1].update(theta_E=0.15))),
    "restart": (["restart", None], lambda r: setattr(r, "temp", snap(r.init))),
    "bandTF": (["fix_not_computed", dict(free_bands=[True, False])], lambda r: bands(r, [True, False])),
    "bandFT": (["fix_not_computed", dict(free_bands=[False, True])], lambda r: bands(r, [False, True])),
    "bandTT": (["fix_not_computed", dict(free_bands=[True, True])], lambda r: bands(r, [True, True])),
    "state": (None, None),
}


def bands(r, free):
    idx = [[0], [0, 1]]
    for b in (True, False):
        for j, f in enumerate(free):
            if f is b:
                for i in idx[j]:
                    r.fixed["kwargs_lens"][i] = snap(r.fixed0["kwargs_lens"][i]) if b else snap(r.temp["kwargs_lens"][i])


def new_state():
    _, _, _, _, p = base()
    t = {KEY[k]: snap(v[0]) for k, v in p.items()}
    t["kwargs_lens"][0]["theta_E"] = 1.21
    t["kwargs_lens"][1]["center_x"] = 1.11
    t["kwargs_source"][0]["R_sersic"] = 0.51
    t["kwargs_special"]["D_dt"] = 3333.0
    t["kwargs_ps"][0]["dec_image"] = np.array([0.45, -0.35])
    t["kwargs_tracer_source"][0]["sigma"] = 0.41
    t["kwargs_extinction"][0]["sigma"] = 0.42
    return t


def obs_manager(m):
    f = m.fixed_kwargs
    return dict(temp=m.parameter_state, fixed=dict(zip(["kwargs_lens", "kwargs_source", "kwargs_lens_light", "kwargs_ps", "kwargs_special",
                                                         "kwargs_extinction", "kwargs_tracer_source"], f)),
                lower=m.lower_kwargs, upper=m.upper_kwargs, sigma=m.sigma_kwargs, constraints=m.kwargs_constraints, likelihood=m.kwargs_likelihood)


def apply_manager(m, step):
    kind, kw = step
    kw = kw or {}
    if kind == "update_settings":
        opt = {k: kw[k] for k in ("kwargs_model", "kwargs_constraints", "kwargs_likelihood") if k in kw}
        fx = {k: v for k, v in kw.items() if k.endswith("_fixed")}
        lim = {k: v for k, v in kw.items() if k.endswith("_limit")}
        sg = {k: v for k, v in kw.items() if k.startswith("change_sigma")}
        if opt:
            m.update_options(**opt)
        if fx:
            m.update_fixed(**fx)
        if lim:
            m.update_limits(**lim)
        if sg:
            m.update_sigmas(**sg)
    elif kind == "set_param_value":
        m.update_param_value(**kw)
    elif kind == "restart":
        m.set_init_state()
    elif kind == "fix_not_computed":
        m.fix_not_computed(**kw)


def free_names(ref):
    """names of the sampled entries according to the reference state"""
    out = set()
    lin = ref.constraints.get("linear_solver", True)
    linked = set()
    for s in ref.constraints.get("joint_lens_with_light", []):
        linked |= {("kwargs_lens", s[1], n) for n in s[2]}
    for g in G:
        entries = [(None, ref.temp[g], ref.fixed[g])] if g == "kwargs_special" else [(i, t, ref.fixed[g][i]) for i, t in enumerate(ref.temp[g])]
        for i, t, f in entries:
            for n in t:
                if n in f or (g, i, n) in linked:
                    continue
                if lin and ((n == "amp" and g in ("kwargs_source", "kwargs_lens_light")) or n == "point_amp"):
                    continue
                out.add((g, i, n))
    return out


def history(seq, rec, label):
    data, model, constraints, likelihood, params = base()
    inputs = dict(data=data, model=model, constraints=constraints, likelihood=likelihood, params=params)
    inputs0 = snap(inputs)
    fs = FittingSequence(data, model, constraints, likelihood, params, verbose=False)
    data2, model2, constraints2, likelihood2, params2 = base()
    mg = MultiBandUpdateManager(model2, constraints2, likelihood2, params2, num_bands=2)
    ref = Ref(params, model, constraints, likelihood)
    handed, given = [], []
    for op in seq:
        step, eff = OPS[op]
        if op == "state":
            st = new_state()
            fs.update_state(st)
            st2 = new_state()
            mg.update_param_state(**st2)
            given += [(st, snap(st)), (st2, snap(st2))]
            ref.temp = new_state()
        else:
            s1, s2 = snap(step), snap(step)
            fs.fit_sequence([s1])
            apply_manager(mg, s2)
            given += [(s1, snap(step)), (s2, snap(step))]
            eff(ref)
        rec.trans()
        r1 = fs.best_fit(bijective=True)
        r2 = mg.parameter_state
        handed += [(r1, snap(r1)), (r2, snap(r2))]
    name = ">".join(seq)
    o = obs_manager(mg)
    e = ref.observe()
    for part in e:
        rec.same(label + "-" + part, o[part], e[part], what="history [%s] %s" % (name, part))
    rec.same(label + "-fs-state", fs.best_fit(bijective=True), e["temp"], what="history [%s] best fit" % name)
    rec.same(label + "-fs-fixed", list(fs.kwargs_fixed), [e["fixed"][g] for g in ["kwargs_lens", "kwargs_source", "kwargs_lens_light", "kwargs_ps",
                                                                                "kwargs_special", "kwargs_extinction", "kwargs_tracer_source"]],
             what="history [%s] fixed" % name)
    p = fs.param_class
    num, names = p.num_param()
    vec = p.kwargs2args(**fs.best_fit(bijective=True))
    dec = p.args2kwargs(vec, bijective=True)
    # the sampled set is what the reference says
    free = free_names(ref)
    cnt = sum(2 if n in ("ra_image", "dec_image", "point_amp") else 1 for (_, _, n) in free)
    rec.true(label + "-count", num == cnt, "history [%s]: %d sampled parameters (%s), reference %d" % (name, num, names, cnt))
    for g in G:
        for i, d in ([(None, ref.temp[g])] if g == "kwargs_special" else enumerate(ref.temp[g])):
            f = ref.fixed[g] if i is None else ref.fixed[g][i]
            got = dec[g] if i is None else dec[g][i]
            for n in d:
                if (g, i, n) in free:
                    rec.same(label + "-vector", got[n], d[n], what="history [%s] free %s" % (name, (g, i, n)))
                elif n in f and n not in ("amp", "point_amp") and (g, i, n) not in {("kwargs_lens", s[1], q) for s in ref.constraints.get("joint_lens_with_light", []) for q in s[2]}:
                    rec.same(label + "-vector-fixed", got[n], f[n], what="history [%s] fixed %s" % (name, (g, i, n)))
    low, up = p.param_limits()
    lowr = p.kwargs2args(**snap(ref.lower))
    upr = p.kwargs2args(**snap(ref.upper))
    rec.same(label + "-limits", [low, up], [lowr, upr], what="history [%s] limits" % name)
    rec.unchanged(label + "-inputs", inputs0, inputs, "the caller's configuration after [%s]" % name)
    restart_case(fs, ref, rec, label, name)
    for obj, ref_obj in handed:
        rec.unchanged(label + "-handed", ref_obj, obj, "a result returned during [%s]" % name)
    for obj, ref_obj in given:
        rec.unchanged(label + "-given", ref_obj, obj, "a step passed in during [%s]" % name)
    rec.state(digest([ref.observe()]))
    rec.outcome(dec)
    rec.trace()


# ------------------------------------------------------------------ optimisation steps inside histories
FIT = {
    "SIMPLEX": ["SIMPLEX", dict(n_iterations=30)],
    "PSO": ["PSO", dict(n_particles=6, n_iterations=4, sigma_scale=1, threadCount=1)],
    "MCMC": ["MCMC", dict(n_burn=1, n_run=3, n_walkers=12, sigma_scale=0.1, progress=False)],
    "emcee": ["emcee", dict(n_burn=0, n_run=2, walkerRatio=4, sigma_scale=0.1, progress=False)],
    "fix": _upd(lens_add_fixed=[[0, ["gamma"]]]),
    "fixv": _upd(lens_add_fixed=[[0, ["gamma"], [2.2]]]),
    "free": _upd(lens_remove_fixed=[[0, ["gamma"]]]),
    "set": ["set_param_value", dict(lens=[[0, ["theta_E"], [1.4]]])],
    "restart": ["restart", None],
}


def target(kwargs_lens=None, **kw):
    k = kwargs_lens[0]
    return -((k["theta_E"] - 1.3) ** 2 / 0.01 + (k["gamma"] - 1.9) ** 2 / 0.04 + (k["e1"] - 0.1) ** 2 / 0.01)


def fit_setup():
    model = dict(lens_model_list=["EPL"])
    params = {"lens_model": [[dict(theta_E=1.0, gamma=2.0, e1=0.0, e2=0.0, center_x=0.0, center_y=0.0)],
                             [dict(theta_E=0.1, gamma=0.1, e1=0.05, e2=0.05, center_x=0.1, center_y=0.1)],
                             [dict(e2=0.0, center_x=0.0, center_y=0.0)],
                             [dict(theta_E=0.5, gamma=1.5, e1=-0.5, e2=-0.5, center_x=-1, center_y=-1)],
                             [dict(theta_E=2.0, gamma=2.5, e1=0.5, e2=0.5, center_x=1, center_y=1)]]}
    like = dict(image_likelihood=False, custom_logL_addition=target, check_bounds=True)
    return model, like, params


def fit_history(seq, rec):
    model, like, params = fit_setup()
    inputs = dict(model=model, params=params)
    inputs0 = snap(inputs)
    fs = FittingSequence(dict(multi_band_list=[], multi_band_type="multi-linear"), model, {}, like, params, verbose=False)
    steps = [snap(FIT[s]) for s in seq]
    name = ">".join(seq)
    cur = dict(snap(params["lens_model"][0][0]))
    fixed = {"e2": 0.0, "center_x": 0.0, "center_y": 0.0}
    np.random.seed(7)
    for i, (op, step) in enumerate(zip(seq, steps)):
        before = dict(cur)
        start = dict(cur)
        start.update(fixed)
        l0 = target([start])
        try:
            out = fs.fit_sequence([step])
        except ValueError as e:
            if "re-use previous MCMC samples" in str(e) and op in ("MCMC", "emcee"):
                return  # documented refusal: the number of sampled parameters changed
            raise
        got = fs.best_fit(bijective=True)["kwargs_lens"][0]
        rec.trans()
        if op in ("SIMPLEX", "PSO", "MCMC", "emcee"):
            for n, v in fixed.items():
                rec.same("fit-fixed", got[n], v, what="[%s] step %d fixed %s" % (name, i, n))
            for n in ("theta_E", "gamma", "e1"):
                lo, up = params["lens_model"][3][0][n], params["lens_model"][4][0][n]
                rec.true("fit-bounds", lo <= got[n] <= up, "[%s] step %d %s=%s outside [%s, %s]" % (name, i, n, got[n], lo, up))
            l1 = target([got])
            if op in ("SIMPLEX", "PSO"):
                rec.true("fit-worse", l1 >= l0 - 1e-9, "[%s] step %d (%s) lowered the likelihood from %s to %s" % (name, i, op, l0, l1))
            else:
                samples, plist, dist = out[-1][1], out[-1][2], out[-1][3]
                rec.true("fit-names", samples.shape[1] == len(plist) == 3 - (1 if "gamma" in fixed else 0), "[%s] chain columns %s" % (name, plist))
                j = int(np.argmax(dist))
                rec.same("fit-best-sample", l1, dist[j], 1e-6, 1e-8, what="[%s] best-fit likelihood vs best sample" % name)
                best = dict(zip([p_.replace("_lens0", "") for p_ in plist], samples[j]))
                for n in best:
                    rec.same("fit-best-sample", got[n], best[n], what="[%s] best sample %s" % (name, n))
                n_run, n_w = (3, 12) if op == "MCMC" else (2, 4 * len(plist))
                rec.true("fit-chain-length", len(samples) == n_run * n_w == len(dist), "[%s] chain has %d samples" % (name, len(samples)))
            rec.same("fit-logL", fs.best_fit_likelihood(), l1, 1e-8, 1e-9, what="[%s] reported best-fit likelihood" % name)
            cur = dict(got)
        else:
            if op == "fix":
                fixed["gamma"] = cur["gamma"]
            elif op == "fixv":
                fixed["gamma"] = 2.2
            elif op == "free":
                fixed.pop("gamma", None)
            elif op == "set":
                cur["theta_E"] = 1.4
            elif op == "restart":
                cur = dict(inputs0["params"]["lens_model"][0][0])
            rec.same("fit-state", got, cur, what="[%s] state after step %d (%s), before it was %s" % (name, i, op, before))
        rec.unchanged("fit-step", FIT[op], step, "the fitting step in [%s]" % name)
    rec.unchanged("fit-inputs", inputs0, inputs, "the caller's configuration after [%s]" % name)
    rec.trace()
    rec.outcome(cur)
    rec.state(name)


def restart_case(fs, ref, rec, label, name):
    """whatever a user does with the reported best fit, a restart returns to the initial state"""
    fs.fit_sequence([["restart", None]])
    for g, v in fs.best_fit(bijective=True).items():
        for d in [v] if isinstance(v, dict) else v:
            for n in d:
                d[n] = 17.25
    fs.fit_sequence([["restart", None]])
    rec.same(label + "-restart", fs.best_fit(bijective=True), ref.init, what="history [%s] then restart" % name)


def best_case(rec):
    """the best of a set of samples, for every order and sign of their likelihoods"""
    model, like, params = fit_setup()
    fs = FittingSequence(dict(multi_band_list=[], multi_band_type="multi-linear"), model, {}, like, params, verbose=False)
    num = fs.param_class.num_param()[0]
    smp = np.array([[1.0 + 0.1 * i + 0.01 * j for j in range(num)] for i in range(4)])
    for n in (1, 2, 3, 4):
        for v in itertools.permutations((-1e15, -40.0, -0.5, 0.0, 3.0, 31.0), n):
            got = fs.best_fit_from_samples(smp[:n], np.array(v))
            exp = smp[int(np.array(v).argsort()[-1])]
            rec.same("best", fs.param_class.kwargs2args(**got), exp, 1e-12, what="%s" % (v,))
            rec.trans()
    rec.trace()
    rec.state("best")
    rec.outcome(exp)


def cases(tier):
    names = list(OPS)
    out = ["B|b|b"]
    for a, b in itertools.product(names, repeat=2):
        out.append("H|%s|%s" % (a, b))
    fit = list(FIT)
    for a, b in itertools.product(fit, repeat=2):
        if {"SIMPLEX", "PSO", "MCMC", "emcee"} & {a, b} or True:
            out.append("F|%s|%s" % (a, b))
    return out


def run_case(cid, tier, rec):
    kind, a, b = cid.split("|")
    if kind == "B":
        best_case(rec)
    elif kind == "H":
        names = list(OPS)
        if a == b == names[0]:
            history([], rec, "h")
        if a == b:
            history([a], rec, "h")
        history([a, b], rec, "h")
        depth3 = names
        for c in depth3:
            history([a, b, c], rec, "h")
            if tier == "thorough":
                for d in names:
                    history([a, b, c, d], rec, "h")
    else:
        fit_history([a, b], rec)
        for c in FIT:
            fit_history([a, b, c], rec)
            if tier == "thorough":
                for d in FIT:
                    fit_history([a, b, c, d], rec)
    rec.sample(case=cid, states=len(rec.states), transitions=rec.transitions)
