"""Runs samplers with real worker processes (two samplers alive at once) and prints parallel and serial results."""
import contextlib
import io
import json
import os

os.environ["NUMBA_DISABLE_JIT"] = "1"

import numpy as np


class Quad:
    def __init__(self, x0, y0):
        self.x0, self.y0 = x0, y0

    def __call__(self, kwargs_lens=None, **kw):
        k = kwargs_lens[0]
        return float(-3.0 * (k["alpha_x"] - self.x0) ** 2 - 2 * (k["alpha_y"] - self.y0) ** 2)


def main():
    from lenstronomy.Sampling.sampler import Sampler
    from vmc.checks.p17_sampling import likelihood
    from vmc.mp_child import Quad

    res = {}
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        pair = {}
        for threads in (1, 2):
            a, b = Sampler(likelihood(Quad(0.3, -0.4))), Sampler(likelihood(Quad(-0.7, 1.9)))
            for name, s in (("a", a), ("b", b)):
                np.random.seed(4)
                r, lists = s.pso(4, 4, threadCount=threads, verbose=False)
                np.random.seed(5)
                smp, d = s.mcmc_emcee(4, 3, 1, np.array([0.1, 0.2]), np.array([0.1, 0.1]), threadCount=threads)
                pair[threads, name] = dict(pso=[list(map(float, r)), [float(x) for x in lists[0]]], mcmc=[smp.tolist(), d.tolist()])
        for name in "ab":
            for k in ("pso", "mcmc"):
                res["%s-%s" % (name, k)] = [pair[2, name][k], pair[1, name][k]]
    print("RESULT " + json.dumps(res))


if __name__ == "__main__":
    main()
