"""P17: samplers and optimizers return what they evaluated.

The particle swarm is run on every assignment of likelihood values to its successive evaluations; every assignment of evaluations to
workers and every evaluation order is run through a stand-in pool with copies of the real likelihood; every history of chain runs,
resumptions and crashes of the ensemble sampler with a storage file is replayed; the prior transforms of the nested samplers are compared
with their quantile functions.
"""
import itertools
import random
import json
import os
import pickle
import subprocess
import sys
import tempfile

import numpy as np
from scipy import special

from lenstronomy.Sampling.likelihood import Likelihood
from lenstronomy.Sampling.parameters import Param
from lenstronomy.Sampling.sampler import Sampler
from lenstronomy.Sampling.Samplers.base_nested_sampler import NestedSampler
from lenstronomy.Sampling.Samplers.pso import ParticleSwarmOptimizer
from lenstronomy.Util import prob_density, sampling_util
from vmc.core import snap

LOW, HIGH = np.array([-1.0, -2.0]), np.array([1.5, 2.5])
KM = dict(lens_model_list=["SHIFT"])


class Bowl:
    """smooth deterministic likelihood of the two deflections, records its calls"""

    def __init__(self, x0=0.3, y0=-0.4, k=0.0):
        self.x0, self.y0, self.k = x0, y0, k
        self.calls = []

    def __call__(self, kwargs_lens=None, **kw):
        x, y = kwargs_lens[0]["alpha_x"], kwargs_lens[0]["alpha_y"]
        v = self.value([x, y])
        self.calls.append(((float(x), float(y)), v))
        return v

    def value(self, p):
        return float(-3.0 * (p[0] - self.x0) ** 2 - 2 * (p[1] - self.y0) ** 2 - np.sin(3 * p[0] * p[1]) ** 2 - self.k)


class Table(Bowl):
    """the n-th evaluation returns the n-th entry of a table"""

    def __init__(self, values):
        Bowl.__init__(self)
        self.values = list(values)

    def value(self, p):
        return self.values[len(self.calls)]


class Crash(Bowl):
    def __init__(self, at, **kw):
        Bowl.__init__(self, **kw)
        self.at = at

    def value(self, p):
        if self.at is not None and len(self.calls) >= self.at:
            raise KeyboardInterrupt("stopped by the user")
        return Bowl.value(self, p)


def likelihood(func):
    low = [dict(alpha_x=LOW[0], alpha_y=LOW[1])]
    upp = [dict(alpha_x=HIGH[0], alpha_y=HIGH[1])]
    par = Param(KM, kwargs_fixed_lens=[{}], kwargs_lower_lens=low, kwargs_upper_lens=upp)
    return Likelihood(dict(multi_band_list=[]), KM, par, image_likelihood=False, check_bounds=True, custom_logL_addition=func)


# ------------------------------------------------------------------ particle swarm
def best_of(calls):
    ok = [c for c in calls if c[1] == c[1]]
    return max(c[1] for c in ok) if ok else None


def check_pso(rec, key, func, result, lists, n_iter, what, outside_ok=True):
    """result and history lists against everything that was evaluated"""
    pos = {}
    for p, v in func.calls:
        pos.setdefault(p, []).append(v)
    best = best_of(func.calls)
    got = tuple(float(x) for x in result)
    rec.true(key + "-evaluated", got in pos, "%s: returned position %s was never evaluated" % (what, got))
    rec.true(key + "-best", got in pos and best in pos[got], "%s: returned position has value %s, best evaluated value is %s" % (what, pos.get(got), best))
    ll, pp, vv = lists
    rec.true(key + "-lengths", len(ll) == len(pp) == len(vv) and len(ll) <= n_iter, "%s: history lists of lengths %s for %d iterations" % (what, (len(ll), len(pp), len(vv)), n_iter))
    rec.true(key + "-monotone", all(a <= b for a, b in zip(ll, ll[1:])), "%s: best likelihood decreases: %s" % (what, ll))
    rec.true(key + "-listed", all(tuple(float(x) for x in p) in pos and v in pos[tuple(float(x) for x in p)] for v, p in zip(ll, pp)), "%s: likelihood list does not belong to the position list" % what)
    rec.true(key + "-ends", not ll or ll[-1] <= best, "%s: likelihood list ends above the best evaluated value" % what)


def table_case(tier, rec, n_part, n_it, first):
    """all likelihood histories of the swarm"""
    values = (-1.0, -2.0, -3.0, -7.0)
    n = n_part * (n_it + 1)
    for rest in itertools.product(values if tier == "thorough" else values[:3] if n > 6 else values, repeat=n):
        tab = (first,) + rest
        func = Table(tab)
        s = Sampler(likelihood(func)) if sum(map(abs, rest[:2])) == 2 else None
        what = "values %s" % (tab,)
        start = np.array([0.11, -0.17])
        if s is not None:
            keep = start.copy()
            res, lists = s.pso(n_part, n_it, init_pos=start, verbose=False)
            rec.unchanged("init", keep, start)
            check_pso(rec, "sampler", func, res, lists, n_it, what)
        else:
            calls = func.calls
            f = direct(func)
            pso = ParticleSwarmOptimizer(f, LOW, HIGH, n_part)
            pso.set_global_best(start, [0, 0], f(start))
            res, lists = pso.optimize(n_it, verbose=False)
            check_pso(rec, "swarm", func, res, lists, n_it, what)
            rec.same("fitness", pso.global_best.fitness, best_of(calls), 0, 0, what=what)
            its = (len(calls) - 1) // n_part
            for i, part in enumerate(pso.swarm):
                own = [calls[1 + i + n_part * k] for k in range(its)]
                rec.same("personal-best", part.personal_best.fitness, best_of(own), 0, 0, what="%s: particle %d" % (what, i))
                rec.true("personal-position", any(v == part.personal_best.fitness and np.array_equal(p, part.personal_best.position) for p, v in own), "%s: personal best of particle %d is not one of its positions" % (what, i))
        rec.trans(len(func.calls))
        rec.trace()
        rec.outcome(tab)
        rec.state("pso" + str((n_part, n_it, best_of(func.calls), tab.index(max(tab)))))


def direct(func):
    def f(x):
        v = func.value(x)
        func.calls.append((tuple(float(a) for a in x), v))
        return v

    return f


def dynamics_case(tier, rec):
    """positions move by inertia and towards the personal and the global best only"""
    for c1, c2, n_part, seed in itertools.product((0.0, 1.193, 2.0), (0.0, 1.193), (2, 3, 4), range(3 if tier == "quick" else 10)):
        np.random.seed(seed)
        func = Bowl()
        pso = ParticleSwarmOptimizer(direct(func), LOW, HIGH, n_part)
        for part in pso.swarm:
            rec.true("start", np.all(part.position >= LOW) and np.all(part.position <= HIGH), "particle starts at %s" % part.position)
        start = np.array([0.4, 0.6])
        pso.set_global_best(start, [0, 0], direct(func)(start))
        x = [np.array(p.position) for p in pso.swarm]
        v = [np.zeros(2) for _ in x]
        pb = [(func.value(q), q) for q in x]
        for it, swarm in enumerate(pso.sample(4, c1=c1, c2=c2, verbose=False)):
            gb = max(((val, p) for p, val in func.calls[: 1 + n_part * (it + 1)]), key=lambda t: t[0])[1]
            for i, part in enumerate(swarm):
                new = np.array(part.position)
                step = new - x[i]
                rec.same("velocity", part.velocity, step, 1e-9, 1e-12, what="velocity is the last displacement")
                a, b, c = v[i], c1 * (pb[i][1] - x[i]), c2 * (np.array(gb) - x[i])
                lo = np.minimum(0.5 * a, a) + np.minimum(0, b) + np.minimum(0, c)
                hi = np.maximum(0.5 * a, a) + np.maximum(0, b) + np.maximum(0, c)
                rec.true("step", np.all(step >= lo - 1e-9) and np.all(step <= hi + 1e-9), "c1=%s c2=%s iteration %d particle %d: displacement %s outside of [%s, %s]" % (c1, c2, it, i, step, lo, hi))
                rec.same("value", part.fitness, func.value(new), 1e-12)
                x[i], v[i] = new, step
                if func.value(new) > pb[i][0]:
                    pb[i] = (func.value(new), new)
                rec.trans()
        rec.trace()
        rec.state("dyn%s" % ((c1, c2, n_part),))
        rec.outcome(x)
        # a copy for another process continues like the original, which keeps its pool
        pso2 = ParticleSwarmOptimizer(Value(), LOW, HIGH, n_part, pool=Permuted(None, None))
        cp = pickle.loads(pickle.dumps(pso2))
        rec.true("pool-kept", pso2.pool is not None, "pickling the optimizer removed its pool")
        rec.same("pickled", [p.position for p in cp.swarm], [p.position for p in pso2.swarm], 0, 0)


class Value:
    def __call__(self, x):
        return Bowl().value(x)


def bounds_case(tier, rec):
    """start region is intersected with the limits; result is never worse than the start"""
    for lo, hi in itertools.product((None, (-3.0, -3.0), (0.2, 0.1)), (None, (0.5, 0.4), (9.0, 9.0))):
        for init, seed in itertools.product((None, (0.3, 0.2), (-0.9, 2.4)), range(2)):
            np.random.seed(seed)
            func = Bowl()
            like = likelihood(func)
            s = Sampler(like)
            args = [None if a is None else np.array(a) for a in (lo, hi, init)]
            keep = snap(args)
            res, lists = s.pso(3, 3, lower_start=args[0], upper_start=args[1], init_pos=args[2], verbose=False)
            rec.unchanged("args", keep, args)
            what = "start region %s-%s from %s" % (lo, hi, init)
            rec.true("inside", np.all(np.array(res) >= LOW) and np.all(np.array(res) <= HIGH), "%s: %s outside of the limits" % (what, res))
            check_pso(rec, "bounds", func, res, lists, 3, what)
            l, h = (LOW, HIGH) if lo is None or hi is None else (np.maximum(lo, LOW), np.minimum(hi, HIGH))
            start = init if init is not None else (l + h) / 2
            rec.true("improves", like.logL(np.array(res)) >= like.logL(np.array(start)), "%s: worse than the start" % what)
            inside = [p for p, _ in func.calls[:4]]
            # the start and the first swarm lie in the start region
            rec.true("region", sum(all(l[k] - 1e-12 <= p[k] <= h[k] + 1e-12 for k in (0, 1)) for p in inside) >= 3, "%s: first swarm %s outside of the start region" % (what, inside))
            rec.trans(len(func.calls))
            rec.trace()
            rec.outcome(res)
            func2 = Bowl()
            x0 = np.array(start, dtype=float)
            keep = x0.copy()
            res = Sampler(likelihood(func2)).simplex(x0, 4 + seed * 20, "Nelder-Mead")
            rec.unchanged("simplex-start", keep, x0)
            rec.true("simplex", func2.value(res) >= func2.value(x0) - 1e-12, "%s: simplex result %s is worse than its start" % (what, func2.value(res)))
            rec.trace()
            rec.state("bounds%s%s%s" % (lo, hi, init))


# ------------------------------------------------------------------ worker schedules
class Permuted:
    """a pool of two workers, each with its own copy of the function; evaluation order and worker assignment given per batch"""

    def __init__(self, workers, plan):
        self.workers, self.plan, self.k = workers, plan, 0

    def is_master(self):
        return True

    def map(self, func, tasks):
        tasks = list(tasks)
        order, assign = self.plan[min(self.k, len(self.plan) - 1)]
        self.k += 1
        out = [None] * len(tasks)
        for i in order:
            out[i] = self.workers[assign[i]](tasks[i])
        return out


def model_likelihood():
    from vmc.checks import p16_likelihood as p16

    data = [p16.bands()[0]]
    km = dict(lens_model_list=["SIE"], source_light_model_list=["SERSIC"], point_source_model_list=["SOURCE_POSITION"])
    lens = dict(theta_E=0.7, e1=0.1, e2=-0.05, center_x=0.0, center_y=0.0)
    lo, up = [dict(lens, theta_E=0.5)], [dict(lens, theta_E=0.9)]
    fixed = {k: v for k, v in lens.items() if k != "theta_E"}
    src = dict(R_sersic=0.3, n_sersic=1.3, center_x=0.05, center_y=0.1)
    par = Param(km, kwargs_fixed_lens=[fixed], kwargs_lower_lens=lo, kwargs_upper_lens=up, kwargs_fixed_source=[{k: v for k, v in src.items() if k != "center_x"}],
                kwargs_lower_source=[dict(src, center_x=-0.2)], kwargs_upper_source=[dict(src, center_x=0.2)],
                kwargs_fixed_ps=[dict(ra_source=0.05, dec_source=0.04)], kwargs_lower_ps=[dict(ra_source=0.0, dec_source=0.0)], kwargs_upper_ps=[dict(ra_source=0.1, dec_source=0.1)],
                num_point_source_list=[4], linear_solver=True)
    return Likelihood(dict(multi_band_list=data, multi_band_type="multi-linear"), km, par, image_likelihood=True)


def own_random(f):
    """a worker process has its own random numbers (the image finder perturbs stuck iterations)"""

    def g(x):
        st = np.random.get_state()
        try:
            np.random.seed(1)
            return f(x)
        finally:
            np.random.set_state(st)

    return g


def schedule_case(tier, rec, kind):
    """all evaluation orders and worker assignments of two batches of three evaluations"""
    like = model_likelihood() if kind == "model" else likelihood(Bowl())
    low, high = like.param_limits
    low, high = np.array(low), np.array(high)
    orders = list(itertools.permutations(range(3)))
    assigns = list(itertools.product((0, 1), repeat=3))
    batch = [(o, a) for o in orders for a in assigns]
    dump = pickle.dumps(like)

    def run(plan):
        workers = [own_random(pickle.loads(dump).logL), own_random(pickle.loads(dump).logL)]
        np.random.seed(5)
        pool = None if plan is None else Permuted(workers, plan)
        pso = ParticleSwarmOptimizer(workers[0], low, high, 3, pool=pool)
        mid = (low + high) / 2
        pso.set_global_best(mid, [0] * len(mid), workers[0](mid))
        res, lists = pso.optimize(2, verbose=False)
        return [res, lists, [p.position for p in pso.swarm], [p.fitness for p in pso.swarm]]

    ref = run(None)
    second = [b for b in batch if b[0] in ((2, 0, 1), (1, 0, 2)) and sum(b[1]) in (0, 1)] if tier == "quick" else batch
    if kind == "model" and tier == "quick":
        second = second[:1]
    for p1, p2 in itertools.product(batch, second):
        got = run([p1, p2, p1])
        rec.same("schedule", got, ref, 0 if kind != "model" else 1e-9, 0 if kind != "model" else 1e-9, what="evaluation order %s" % ([p1, p2],))
        rec.trans(9)
        rec.trace()
        rec.state("sched%s%s" % (p1, p2))
    rec.outcome(ref)


def processes_case(tier, rec):
    """real worker processes and two interleaved samplers"""
    code = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "mp_child.py")
    r = subprocess.run([sys.executable, code], capture_output=True, text=True, timeout=300)
    line = [x for x in r.stdout.splitlines() if x.startswith("RESULT ")]
    if not rec.true("runs", bool(line), "worker processes failed: %s" % (r.stdout + r.stderr)[-1500:]):
        return
    d = json.loads(line[-1][7:])
    for k, (got, exp) in d.items():
        rec.same("processes-" + k, got, exp, 1e-12, 1e-12, what="run with 2 worker processes against a serial run")
        rec.trace()
    rec.trans(len(d))
    rec.outcome(d)
    rec.state("processes")


# ------------------------------------------------------------------ chains
def chain_case(tier, rec):
    """ensemble samplers: samples carry their own likelihood, burn-in is dropped, limits are respected"""
    for n_burn, n_run, walkers in itertools.product((0, 1, 3), (1, 2, 4), (4, 6)):
        for name in ("emcee", "emcee-init", "zeus"):
            np.random.seed(n_burn + 10 * n_run)
            func = Bowl()
            s = Sampler(likelihood(func))
            mean, sig = np.array([0.3, -0.4]), np.array([0.2, 0.3])
            keep = mean.copy(), sig.copy()
            init = None
            if name == "emcee-init":
                init = np.array([[0.01 * i - 0.3, 0.02 * i * i - 0.5] for i in range(walkers)])
                ki = init.copy()
            if name == "zeus":
                got = slices(lambda: s.mcmc_zeus(walkers, n_run, n_burn, mean, sig, verbose=False))
                if got is None:
                    continue
                samples, dist = got
            else:
                samples, dist = s.mcmc_emcee(walkers, n_run, n_burn, mean, sig, initpos=init)
            rec.unchanged("arguments", keep, (mean, sig))
            if init is not None:
                rec.unchanged("initpos", ki, init)
            what = "%s with %d walkers, %d+%d steps" % (name, walkers, n_burn, n_run)
            rec.same("shape", np.shape(samples), (walkers * n_run, 2), what=what)
            rec.same("likelihoods", dist, [func.value(p) for p in samples], 1e-12, 1e-12, what=what)
            rec.true("limits", np.all(samples >= LOW) and np.all(samples <= HIGH), "%s: samples outside of the limits" % what)
            first = {p for p, _ in func.calls[:walkers]}
            rec.true("start-inside", all(LOW[k] <= p[k] <= HIGH[k] for p in first for k in (0, 1)), "%s: walkers start outside of the limits" % what)
            rec.trans(n_burn + n_run)
            rec.trace()
            rec.state("chain%s" % ((n_burn, n_run, walkers, name),))
            rec.outcome(samples)


def stored(path):
    import emcee

    b = emcee.backends.HDFBackend(path, name="lenstronomy_mcmc_emcee", read_only=True)
    try:
        n = b.iteration
    except Exception:
        return np.zeros((0, 4, 2)), np.zeros((0, 4))
    if n == 0:
        return np.zeros((0, 4, 2)), np.zeros((0, 4))
    return b.get_chain(), b.get_log_prob()


def backend_case(tier, rec, first):
    """all histories of runs, resumptions and interruptions with one storage file"""
    W = 4
    ops = [("new", 1), ("new", 2), ("resume", 1), ("resume", 3), ("new-crash", 5), ("new-crash", 9), ("resume-crash", 1), ("resume-crash", 6)]
    depth = 3 if tier == "quick" else 4
    mean, sig = np.array([0.3, -0.4]), np.array([0.2, 0.3])
    for seq in itertools.product(range(len(ops)), repeat=depth - 1):
        names = [ops[first]] + [ops[i] for i in seq]
        if names[0][0].startswith("resume"):
            continue
        tmp = tempfile.mkdtemp(dir=os.environ.get("VMC_SCRATCH"))
        path = os.path.join(tmp, "chain.h5")
        np.random.seed(3)
        old, oldp = np.zeros((0, W, 2)), np.zeros((0, W))
        for i, (op, n) in enumerate(names):
            resume = op.startswith("resume")
            if resume and len(old) == 0:
                break
            crash = n if op.endswith("crash") else None
            steps = 3 if crash else n
            burn = 1 if i % 2 else 0
            func = Crash(crash)
            s = Sampler(likelihood(func))
            out = None
            try:
                out = s.mcmc_emcee(W, steps, burn, mean, sig, backend_filename=path, start_from_backend=resume)
            except KeyboardInterrupt:
                pass
            chain, logp = stored(path)
            what = "history %s, step %d" % (names, i)
            base = len(old) if resume else 0
            full = steps if resume else steps + burn
            if resume:
                rec.true("kept", len(chain) >= base and np.array_equal(chain[:base], old) and np.array_equal(logp[:base], oldp), "%s: samples stored before the resumption were changed" % what)
            if out is None:
                # W evaluations per step, plus W for the start of a new run
                done = func.calls
                n_done = (len(done) - (0 if resume else W)) // W
                rec.same("crash-stored", len(chain) - base, max(n_done, 0), 0, 0, what="%s: stored steps after %d evaluations" % (what, len(done)))
            else:
                rec.same("steps", len(chain) - base, full, 0, 0, what="%s: stored steps" % what)
                rec.same("returned", out[0], chain[burn:].reshape(-1, 2), 0, 0, what="%s: returned samples are the stored ones after the burn-in" % what)
                rec.same("returned-logL", out[1], logp[burn:].reshape(-1), 0, 0, what=what)
            rec.same("stored-logL", logp.ravel(), [func_value(p) for row in chain for p in row], 1e-12, 1e-12, what="%s: stored likelihoods" % what)
            if resume and len(chain) > base:
                # each walker either stays or moves to an evaluated position
                seen = {p for p, _ in func.calls}
                for w in range(W):
                    p = tuple(float(x) for x in chain[base][w])
                    rec.true("continues", np.array_equal(chain[base][w], old[-1][w]) or p in seen, "%s: walker %d does not continue from the stored state" % (what, w))
            old, oldp = chain, logp
            rec.trans()
        rec.trace()
        rec.state("backend%s" % (names,))
        rec.outcome(old)
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)


def func_value(p):
    return Bowl().value(p)


# ------------------------------------------------------------------ nested samplers
def ndtri(q):
    return special.ndtri(q)


def prior_case(tier, rec):
    """prior transforms against quantile functions, on a full grid of the unit square"""
    grid = np.linspace(0, 1, 9 if tier == "quick" else 21)
    likes = likelihood(Bowl())
    for kind, ws, ss in itertools.product(("uniform", "gaussian"), (0.3, 0.5, 1), (0.5, 1, 2)):
        means, sig = np.array([0.3, 2.0]), np.array([0.4, 0.7])
        if kind == "uniform" and ss != 1:
            continue
        ns = NestedSampler(likes, kind, None if kind == "uniform" else means, None if kind == "uniform" else sig, ws, ss)
        mid, half = (LOW + HIGH) / 2, (HIGH - LOW) / 2 * ws
        for u in itertools.product(grid, repeat=2):
            u = np.array(u)
            work = u.copy()
            p = np.array(ns.prior(work))
            if kind == "uniform":
                exp = mid - half + 2 * half * u
            else:
                s = sig * ss
                ca, cb = special.ndtr((LOW - means) / s), special.ndtr((HIGH - means) / s)
                exp = np.clip(means + s * special.ndtri(ca + u * (cb - ca)), LOW, HIGH)
            rec.same("quantile-" + kind, p, exp, 1e-6, 1e-7, what="%s prior, width scale %s, sigma scale %s at %s" % (kind, ws, ss, u))
            rec.true("prior-inside", np.all(p >= LOW - 1e-12) and np.all(p <= HIGH + 1e-12), "prior transform of %s leaves the limits: %s" % (u, p))
            rec.same("in-place", work, p, 0, 0, what="vector of the sampler is replaced by the parameters")
            rec.same("list", ns.prior(list(u)), p, 0, 0, what="transform of a list")
            rec.same("likelihood", ns.log_likelihood(p), Bowl().value(p), 1e-12, 1e-12)
            rec.trans()
        rec.trace()
        rec.state("prior%s%s%s" % (kind, ws, ss))
    rec.same("limits-kept", likes.param_limits, (LOW, HIGH), 0, 0, what="limits of the likelihood")
    for v in (np.nan, np.inf, -np.inf):
        ns = NestedSampler(Const(likes, v), "uniform", None, None, 1, 1)
        for _ in range(2):
            rec.true("finite", np.isfinite(ns.log_likelihood([0.1, 0.2])) and ns.log_likelihood([0.1, 0.2]) <= -1e14, "likelihood %s is passed to the nested sampler" % v)
    # utilities
    for n in (1, 2, 3):
        lo, up = np.array([-1.0, 0.5, 3.0])[:n], np.array([2.0, 0.7, 9.0])[:n]
        for u in itertools.product(grid[::2], repeat=n):
            u = np.array(u)
            keep = u.copy()
            a = sampling_util.cube2args_uniform(u, lo, up, n, copy=True)
            rec.unchanged("cube-copy", keep, u)
            rec.same("cube", a, lo + u * (up - lo), 1e-12, 1e-12)
            rec.same("inverse", [sampling_util.uniform2unit(x, l, h) for x, l, h in zip(a, lo, up)], u, 1e-9, 1e-12)
            b = u.copy()
            c = sampling_util.cube2args_uniform(b, lo, up, n)
            rec.same("cube-in-place", [b, c], [a, a], 0, 0)
            rec.trans()
        for sc in (0.1, 0.5, 1.0, 2.0):
            for f in (np.array, list):
                l2, u2 = sampling_util.scale_limits(f(lo), f(up), sc)
                rec.same("scale-limits", [(l2 + u2) / 2, u2 - l2], [(lo + up) / 2, sc * (up - lo)], 1e-12, 1e-12)
    for dist, size, n in itertools.product(("uniform", "normal", "truncated"), (1, 2, 5), (1, 2, 3)):
        mu, s = np.array([0.3, 1.0, 8.9])[:n], np.array([0.2, 0.1, 4.0])[:n]
        lo, up = np.array([-1.0, 0.5, 3.0])[:n], np.array([2.0, 1.1, 9.0])[:n]
        if dist == "truncated":
            d = sampling_util.sample_ball_truncated(mu, s, lo, up, size)
            rec.true("truncated", np.all(d >= lo) and np.all(d <= up), "truncated draws leave the limits")
        else:
            d = sampling_util.sample_ball(mu, s, size, dist)
            if dist == "uniform":
                rec.true("ball", np.all(np.abs(d - mu) <= s), "uniform ball leaves its radius")
        rec.same("ball-shape", np.shape(d), (size, n))
        rec.trace()


class Const:
    """the likelihood interface with a fixed value"""

    def __init__(self, like, v):
        self.param, self.param_limits, self.v = like.param, like.param_limits, v

    def __call__(self, a):
        return self.v

    def logL(self, a, **kw):
        return self.v

    likelihood = logL


def nested_case(tier, rec):
    """dynesty and nautilus: samples carry their own likelihood and respect the limits"""
    from lenstronomy.Sampling.Samplers.dynesty_sampler import DynestySampler
    from lenstronomy.Sampling.Samplers.nautilus_sampler import NautilusSampler

    for name, kind in itertools.product(("dynesty", "nautilus"), ("uniform", "gaussian")):
        np.random.seed(11)
        func = Bowl()
        kw = dict(prior_type=kind)
        if kind == "gaussian":
            kw.update(prior_means=np.array([0.3, 2.0]), prior_sigmas=np.array([0.4, 0.7]))
        if name == "dynesty":
            s = DynestySampler(likelihood(func), **kw)
            samples, means, log_z, err, logl, res = s.run(dict(dlogz_init=0.5, nlive_init=30, maxcall=400, maxbatch=0, print_progress=False))
        else:
            s = NautilusSampler(likelihood(func), n_live=60, n_networks=0, seed=3, **kw)
            samples, means, log_z, err, logl, res = s.run(n_eff=50, n_like_max=400, verbose=False)
        what = "%s with a %s prior" % (name, kind)
        rec.same("nested-likelihoods", logl, [func.value(p) for p in samples], 1e-9, 1e-9, what="%s: likelihood of each sample" % what)
        rec.true("nested-limits", np.all(samples >= LOW) and np.all(samples <= HIGH), "%s: samples outside of the limits" % what)
        rec.true("nested-mean", np.all(means >= samples.min(axis=0) - 0.5) and np.all(means <= samples.max(axis=0) + 0.5), "%s: mean %s outside of the samples" % (what, means))
        rec.trans(len(func.calls))
        rec.trace()
        rec.state(what)
        rec.outcome(samples)


def slices(fn):
    """a slice sampler may give up on an unlucky start: try again with other random numbers"""
    for seed in range(20):
        try:
            return fn()
        except RuntimeError as e:
            if "expansions" not in str(e) and "contractions" not in str(e):
                raise
            random.seed(seed)
            np.random.seed(seed)
    return None


def fit_case(tier, rec):
    """every sampling step of a fitting sequence leaves the best sampled model as the current state"""
    from lenstronomy.Workflow.fitting_sequence import FittingSequence

    steps = {
        "PSO": dict(n_particles=4, n_iterations=3, sigma_scale=1),
        "emcee": dict(n_burn=1, n_run=4, n_walkers=6, sigma_scale=1, progress=False),
        "zeus": dict(n_burn=1, n_run=4, n_walkers=6, sigma_scale=1, progress=False),
        "dynesty": dict(kwargs_run=dict(dlogz_init=0.5, nlive_init=20, maxcall=250, maxbatch=0, print_progress=False)),
        "Nautilus": dict(n_live=60, n_networks=0, seed=3, n_eff=50, n_like_max=300, verbose=False),
    }
    for seq in itertools.product(sorted(steps), repeat=2):
        np.random.seed(8)
        func = Bowl()
        start = dict(alpha_x=-0.2, alpha_y=0.5)
        lens = [[start], [dict(alpha_x=0.3, alpha_y=0.3)], [{}], [dict(alpha_x=LOW[0], alpha_y=LOW[1])], [dict(alpha_x=HIGH[0], alpha_y=HIGH[1])]]
        keep = snap(lens)
        fs = FittingSequence(dict(multi_band_list=[], multi_band_type="multi-linear"), KM, {}, dict(image_likelihood=False, check_bounds=True, custom_logL_addition=func), dict(lens_model=lens), verbose=False)
        for name in seq:
            n0 = len(func.calls)
            before = fs.best_fit()["kwargs_lens"][0]
            chain = slices(lambda: fs.fit_sequence([[name, snap(steps[name])]])[-1])
            if chain is None:
                continue
            now = fs.best_fit()["kwargs_lens"][0]
            p = np.array([now["alpha_x"], now["alpha_y"]])
            what = "steps %s, after %s" % (seq, name)
            if name == "PSO":
                best = max([v for _, v in func.calls[n0:]])
                rec.true("fit-improves", Bowl().value(p) >= Bowl().value([before["alpha_x"], before["alpha_y"]]), "%s: state became worse" % what)
            elif name == "Nautilus":
                best = np.max(chain[-1]["log_l"])
            else:
                best = np.max(chain[3])
                rec.same("fit-logL", chain[3], [Bowl().value(q) for q in chain[1]], 1e-9, 1e-9, what="%s: likelihood of each returned sample" % what)
            rec.same("fit-state", Bowl().value(p), best, 1e-9, 1e-9, what="%s: likelihood of the current state against the best sample" % what)
            rec.trans()
        rec.unchanged("fit-arguments", keep, lens)
        rec.trace()
        rec.state("fit%s" % (seq,))
        rec.outcome(p)


# ------------------------------------------------------------------ sample statistics
def stats_case(tier, rec):
    """all small samples: median and error bars; shift, scale, reflection and order invariance"""
    top = 5 if tier == "quick" else 6
    for n in range(1, top + 1):
        for vals in itertools.product((0.0, 1.0, 4.0), repeat=n):
            for ns in (0, 1, 2, 3):
                s = np.array(vals)
                keep = s.copy()
                med, err = prob_density.compute_lower_upper_errors(s, ns)
                rec.unchanged("sample", keep, s)
                rec.same("median", med, np.median(s), 1e-12)
                err = [list(e) for e in err if len(e)]
                rec.same("levels", len(err), ns, what="number of confidence levels")
                for k, (lo, up) in enumerate(err):
                    rec.true("ordered", lo >= 0 and up >= 0 and (k == 0 or (lo >= err[k - 1][0] and up >= err[k - 1][1])), "sample %s: errors %s not ordered" % (vals, err))
                m2, e2 = prob_density.compute_lower_upper_errors(-s, ns)
                rec.same("reflection", [m2] + [x for e in e2 for x in e], [-med] + [x for e in err for x in e[::-1]], 1e-12, 1e-12, what="sample %s: reflected sample" % (vals,))
                m3, e3 = prob_density.compute_lower_upper_errors(2 * s + 3, ns)
                rec.same("affine", [m3] + [x for e in e3 for x in e], [2 * med + 3] + [2 * x for e in err for x in e], 1e-12, 1e-12)
                rec.trans()
            rec.trace()
            rec.state("stat%s" % (sorted(vals),))
    for n in (10, 101, 1000):
        s = special.ndtri((np.arange(n) + 0.5) / n)
        med, err = prob_density.compute_lower_upper_errors(s, 3 if n == 1000 else 1)
        for k, e in enumerate(err):
            rec.same("gaussian", e, [k + 1, k + 1], 0.35 if n == 10 else 0.06, 0, what="quantiles of %d normal deviates" % n)
    sg = prob_density.SkewGaussian()
    x = np.linspace(-30, 30, 24001)
    for mu, sg_, sk in itertools.product((-1.0, 0.0, 2.0), (0.5, 1.0, 3.0), (-0.9, -0.5, -0.1, 0.0, 0.1, 0.5, 0.9)):
        p = sg.pdf_skew(x, mu, sg_, sk)
        dx = x[1] - x[0]
        m = np.sum(p * x) * dx
        v = np.sum(p * (x - m) ** 2) * dx
        g = np.sum(p * (x - m) ** 3) * dx / v**1.5
        rec.same("skew-moments", [np.sum(p) * dx, m, np.sqrt(v), g], [1, mu, sg_, sk], 1e-5, 1e-5, what="moments of the skewed Gaussian %s" % ((mu, sg_, sk),))
        rec.trace()
        rec.outcome([mu, sg_, sk])


def cases(tier):
    out = ["table|%d|%d|%g" % (p, i, f) for p, i in ((1, 3), (2, 2), (3, 1)) for f in (-1.0, -2.0, -7.0)]
    if tier == "thorough":
        out += ["table|%d|%d|%g" % (p, i, f) for p, i in ((2, 3), (4, 1)) for f in (-2.0,)]
    out += ["dynamics", "bounds", "schedule|bowl", "schedule|model", "processes", "chain", "prior", "nested", "fit", "stats"]
    out += ["backend|%d" % i for i in (0, 1, 4, 5)]
    return out


def run_case(case, tier, rec):
    t = case.split("|")
    if t[0] == "table":
        table_case(tier, rec, int(t[1]), int(t[2]), float(t[3]))
    elif t[0] == "schedule":
        schedule_case(tier, rec, t[1])
    elif t[0] == "backend":
        backend_case(tier, rec, int(t[1]))
    else:
        dict(dynamics=dynamics_case, bounds=bounds_case, processes=processes_case, chain=chain_case, prior=prior_case, nested=nested_case, fit=fit_case, stats=stats_case)[t[0]](tier, rec)
