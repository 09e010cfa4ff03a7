"""P26: instrument presets give the published settings of the requested band, whatever was configured before.

All histories (depth 2 in quick, 3 in thorough) of configuring an instrument (band x PSF type x years or survey mode), and of
editing the settings that were handed out, on the real preset classes; every object alive is compared after every step with
the settings of a module that was loaded anew for this one request, and those with the published table.
"""
import copy
import importlib
import importlib.util
import itertools
import json
import os

import numpy as np

from lenstronomy.SimulationAPI.observation_api import SingleBand

PKG = "lenstronomy.SimulationAPI.ObservationConfig."
TABLE = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "p26_table.json")))

# baseline years of the number of exposures in the table
BASE = {"DES": 3, "LSST": 10, "ZTF": 3, "Euclid": 6}
MAXY = {"DES": (1, 6), "LSST": (1, 10), "ZTF": (1, 3), "Euclid": (2, 6)}
ROMAN = {
    "wide_area": {b: (107, 6) for b in ("F106", "F129", "F158")},
    "time_domain_wide": dict(zip(("F062", "F087", "F106", "F129", "F158"), ((60, 1), (85, 1), (95, 1), (152, 1), (294, 1)))),
    "time_domain_deep": dict(zip(("F087", "F106", "F129", "F158", "F184"), ((193, 1), (294, 1), (307, 1), (420, 1), (409, 4)))),
    "microlensing": {"F146": (46.8, 41000), "F087": (286.0, 860)},
}
BANDS = {
    "DES": ["g", "r", "i", "z", "Y"],
    "LSST": ["u", "g", "r", "i", "z", "y"],
    "ZTF": ["g", "r", "i"],
    "Euclid": ["VIS", "Y", "J", "H"],
    "HST": ["TDLMC_F160W", "WFC3_F160W", "F160W"],
    "JWST": ["F115W", "F150W", "F200W", "F277W", "F356W", "F444W"],
    "Roman": ["F062", "F087", "F106", "F129", "F158", "F184", "F146"],
}


def configs(ins):
    """every supported request of an instrument"""
    out = []
    for b in BANDS[ins]:
        if ins in BASE:
            lo, hi = MAXY[ins]
            out += [dict(band=b, psf_type="GAUSSIAN", coadd_years=y) for y in range(lo, hi + 1)]
            out.append(dict(band=b))
        elif ins == "Roman":
            out += [dict(band=b, psf_type=p, survey_mode=m) for m in ROMAN if b in ROMAN[m] for p in ("GAUSSIAN", "PIXEL")]
        else:
            out += [dict(band=b, psf_type=p) for p in ("GAUSSIAN", "PIXEL")] + [dict(band=b)]
    out.append({})
    return out


def reduced(ins):
    """requests used inside histories: every band and option, fewer years"""
    out = []
    for b in BANDS[ins]:
        if ins in BASE:
            lo, hi = MAXY[ins]
            out += [dict(band=b), dict(band=b, coadd_years=lo), dict(band=b, coadd_years=BASE[ins])]
            if hi != BASE[ins]:
                out.append(dict(band=b, coadd_years=hi))
        elif ins == "Roman":
            out += [dict(band=b, psf_type=p, survey_mode=m) for m in ROMAN if b in ROMAN[m] for p in ("GAUSSIAN", "PIXEL")]
        else:
            out += [dict(band=b, psf_type=p) for p in ("GAUSSIAN", "PIXEL")] + [dict(band=b)]
    out.append({})
    return out


_n = [0]


def fresh(ins, cfg):
    """settings of this request on a newly loaded module"""
    real = importlib.import_module(PKG + ins)
    _n[0] += 1
    spec = importlib.util.spec_from_file_location("vmc_%s_%d" % (ins, _n[0]), real.__file__)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return copy.deepcopy(getattr(mod, ins)(**cfg).kwargs_single_band())


def name(cfg):
    return ",".join("%s" % v for v in cfg.values()) or "default"


def flat(kw):
    return {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in sorted(kw.items())}


def eq(a, b):
    if sorted(a) != sorted(b):
        return False
    return all(np.array_equal(a[k], b[k]) for k in a)


def full(ins, cfg):
    d = {"DES": dict(band="g", coadd_years=3), "LSST": dict(band="g", coadd_years=10), "ZTF": dict(band="g", coadd_years=3), "Euclid": dict(band="VIS", coadd_years=6),
         "HST": dict(band="TDLMC_F160W"), "JWST": dict(band="F200W"), "Roman": dict(band="F106", survey_mode="wide_area", psf_type="GAUSSIAN")}[ins]
    d = dict(d)
    d.update(cfg)
    return d


def table_case(ins, rec):
    """the published settings"""
    for cfg in configs(ins):
        kw = fresh(ins, cfg)
        c = full(ins, cfg)
        b = {"F160W": "WFC3_F160W"}.get(c["band"], c["band"])
        want = dict(TABLE[ins][b])
        key = name(cfg)
        if ins in BASE:
            want["num_exposures"] = int(want["num_exposures"] * c["coadd_years"] // BASE[ins])
            want["psf_type"] = "GAUSSIAN"
        elif ins == "Roman":
            want["exposure_time"], want["num_exposures"] = ROMAN[c["survey_mode"]][b]
            want["psf_type"] = c["psf_type"]
            rec.true("kernel|" + key, ("kernel_point_source" in kw) == (c["psf_type"] == "PIXEL"), sorted(kw))
        elif c.get("psf_type") == "GAUSSIAN":
            want["psf_type"] = "GAUSSIAN"
        for k in want:
            rec.true("published|%s|%s" % (key, k), kw.get(k) == want[k], "%r instead of %r" % (kw.get(k), want[k]))
        rec.true("keys|" + key, set(kw) - {"kernel_point_source"} == set(want), sorted(set(kw) ^ set(want)))
        if "kernel_point_source" in kw or kw["psf_type"] == "GAUSSIAN":
            band = SingleBand(**kw)
            rec.same("exposure|" + key, band.exposure_time, want["exposure_time"] * want["num_exposures"], 1e-12, 0)
        rec.state((ins, key))
        rec.trans()
    cls = getattr(importlib.import_module(PKG + ins), ins)
    for bad in ({"band": "no_band"}, {"psf_type": "blah"}) + (({"coadd_years": MAXY[ins][0] - 1}, {"coadd_years": MAXY[ins][1] + 1}) if ins in BASE else ()):
        rec.raises("refused|" + name(bad), lambda: cls(**bad), ValueError)
    if ins == "Roman":
        for m in ROMAN:
            for b in BANDS[ins]:
                if b not in ROMAN[m]:
                    rec.raises("refused|%s|%s" % (m, b), lambda: cls(band=b, survey_mode=m), ValueError)
        rec.raises("refused|mode", lambda: cls(survey_mode="blah"), ValueError)
    elif ins not in BASE:
        rec.raises("refused|years", lambda: cls(coadd_years=3), ValueError)


EDITS = ("none", "obs", "camera", "kwargs")


def edit(obj, how):
    if how == "obs":
        obj.obs["num_exposures"] = 77
        obj.obs["psf_type"] = "NONE"
        obj.obs["sky_brightness"] = 1.5
    elif how == "camera":
        obj.camera["read_noise"] = 99.0
        obj.camera["pixel_scale"] = 5.0
    elif how == "kwargs":
        kw = obj.kwargs_single_band()
        kw["num_exposures"] = 55
        kw["ccd_gain"] = 44.0
        kw.pop("magnitude_zero_point")
        if isinstance(kw.get("kernel_point_source"), np.ndarray):
            kw["kernel_point_source"] = kw["kernel_point_source"] * 0


def expected(obj_kw, how):
    kw = dict(obj_kw)
    if how == "obs":
        kw.update(num_exposures=77, psf_type="NONE", sky_brightness=1.5)
    elif how == "camera":
        kw.update(read_noise=99.0, pixel_scale=5.0)
    return kw


def hist_case(ins, depth, rec):
    cls = getattr(importlib.import_module(PKG + ins), ins)
    cfgs = reduced(ins)
    ref = [fresh(ins, c) for c in cfgs]
    if depth == 3:
        keep = [i for i, c in enumerate(cfgs) if c.get("band") in (None, BANDS[ins][0], BANDS[ins][-1], "F087", "F106")]
        if len(keep) > 12:
            keep = keep[:: max(1, len(keep) // 12)]
        idx = keep
    else:
        idx = range(len(cfgs))
    for seq in itertools.product(idx, repeat=depth):
        for hows in itertools.product(EDITS, repeat=depth - 1):
            alive = []
            for j, i in enumerate(seq):
                o = cls(**cfgs[i])
                rec.trans()
                key = "%s after %s" % (name(cfgs[i]), "; ".join(name(cfgs[s]) + (" edited " + h if h != "none" else "") for s, h in zip(seq[:j], hows)))
                if not eq(o.kwargs_single_band(), ref[i]):
                    got = o.kwargs_single_band()
                    rec.true("new|%s" % key, False, str([(k, got.get(k), ref[i].get(k)) for k in sorted(set(got) | set(ref[i])) if k != "kernel_point_source" and got.get(k) != ref[i].get(k)])[:200] or "kernel")
                alive.append([o, ref[i], key])
                if j < depth - 1:
                    edit(o, hows[j])
                    alive[-1][1] = expected(ref[i], hows[j])
                for o2, want, k2 in alive:
                    rec.trans()
                    if not eq(o2.kwargs_single_band(), want):
                        rec.true("earlier|%s|%s" % (k2, key), False, "settings of an instrument configured earlier changed")
            rec.trace()
    rec.true("histories", True, "")
    rec.state((ins, depth))


def cases(tier):
    for ins in BANDS:
        yield "published|%s" % ins
        yield "history|%s|2" % ins
        if tier == "thorough":
            yield "history|%s|3" % ins


def run_case(cid, tier, rec):
    p = cid.split("|")
    if p[0] == "published":
        table_case(p[1], rec)
    else:
        hist_case(p[1], int(p[2]), rec)
