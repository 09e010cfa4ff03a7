"""P18: cosmological distances and conversions between physical and angular quantities are consistent and history independent."""
import itertools

import numpy as np
from astropy.cosmology import FlatLambdaCDM, Flatw0waCDM, FlatwCDM, LambdaCDM, default_cosmology, w0waCDM, wCDM
from scipy import integrate

from lenstronomy.Cosmo import cosmo_solver, micro_lensing
from lenstronomy.Cosmo.background import Background
from lenstronomy.Cosmo.cosmo_interp import CosmoInterp
from lenstronomy.Cosmo.gnfw_param import GNFWParam
from lenstronomy.Cosmo.kde_likelihood import KDELikelihood
from lenstronomy.Cosmo.lcdm import LCDM
from lenstronomy.Cosmo.lens_cosmo import LensCosmo
from lenstronomy.Cosmo.nfw_param import NFWParam
from lenstronomy.LensModel.lens_model import LensModel
from lenstronomy.LensModel.profile_list_base import lens_class
from lenstronomy.LightModel.light_model import LightModel
from lenstronomy.Util import constants as const
from lenstronomy.Util.cosmo_util import get_astropy_cosmology

ARCSEC = np.pi / 180 / 3600
CLIGHT = 299792.458  # km/s
COSMOS = {
    "flat": dict(H0=70.0, Om0=0.3, Ode0=0.7),
    "closed": dict(H0=65.0, Om0=0.4, Ode0=0.8),
    "open": dict(H0=74.0, Om0=0.25, Ode0=0.6),
    "lowom": dict(H0=50.0, Om0=0.05, Ode0=0.95),
}
ZS = (0.1, 0.3, 0.5, 0.9, 1.5, 2.5, 4.0)


def astro(name):
    k = COSMOS[name]
    if name in ("flat", "lowom"):
        return FlatLambdaCDM(H0=k["H0"], Om0=k["Om0"])
    return LambdaCDM(H0=k["H0"], Om0=k["Om0"], Ode0=k["Ode0"])


def efunc(name, z):
    k = COSMOS[name]
    return np.sqrt(k["Om0"] * (1 + z) ** 3 + k["Ode0"] + (1 - k["Om0"] - k["Ode0"]) * (1 + z) ** 2)


_CHI = {}


def chi(name, z):
    """comoving distance, Mpc, by direct quadrature"""
    if (name, z) not in _CHI:
        _CHI[name, z] = CLIGHT / COSMOS[name]["H0"] * integrate.quad(lambda t: 1 / efunc(name, t), 0, z, epsabs=1e-13, epsrel=1e-12)[0]
    return _CHI[name, z]


def dist(name, z1, z2):
    """transverse comoving distance between two redshifts"""
    c = chi(name, z2) - chi(name, z1)
    ok = 1 - COSMOS[name]["Om0"] - COSMOS[name]["Ode0"]
    if abs(ok) < 1e-12:
        return c
    dh = CLIGHT / COSMOS[name]["H0"]
    s = np.sqrt(abs(ok)) / dh
    return (np.sinh(c * s) if ok > 0 else np.sin(c * s)) / s


def dang(name, z1, z2):
    return dist(name, z1, z2) / (1 + z2)


# ------------------------------------------------------------------ distances
def distance_case(name, tier, rec):
    cosmo = astro(name)
    b = Background(cosmo)
    for z1, z2 in itertools.product((0,) + ZS, repeat=2):
        if z2 < z1:
            continue
        # radiation is switched off in these cosmologies
        rec.same("angular", b.d_xy(z1, z2), dang(name, z1, z2), 1e-6, 1e-6, what="angular diameter distance %s-%s" % (z1, z2))
        rec.same("transverse", b.T_xy(z1, z2), dist(name, z1, z2), 1e-6, 1e-6, what="transverse distance %s-%s" % (z1, z2))
        rec.trans()
        rec.state("d%s-%s" % (z1, z2))
        if 0 < z1 < z2:
            lc = LensCosmo(z1, z2, cosmo)
            dd, ds, dds = dang(name, 0, z1), dang(name, 0, z2), dang(name, z1, z2)
            ddt = (1 + z1) * dd * ds / dds
            for _ in range(2):
                rec.same("lens-distances", [lc.dd, lc.ds, lc.dds, lc.ddt, b.ddt(z1, z2), lc.h], [dd, ds, dds, ddt, ddt, COSMOS[name]["H0"] / 100], 1e-6, what="lens %s source %s" % (z1, z2))
                # c^2/4 pi G Ds/Dd/Dds in solar masses per Mpc^2
                sc = (CLIGHT * 1e3) ** 2 / (4 * np.pi * 6.6743e-11) * ds / (dd * dds) / 3.0856776e22 * (3.0856776e22) ** 2 / 1.98841e30
                rec.same("sigma-crit", [lc.sigma_crit, lc.sigma_crit_angle], [sc, sc * (dd * ARCSEC) ** 2], 2e-3, what="critical density")
                rec.same("sigma-crit-ratio", lc.sigma_crit_angle / lc.sigma_crit, (dd * ARCSEC) ** 2, 1e-6)
            z = cosmo_solver.cosmo2angular_diameter_distances(COSMOS[name]["H0"], COSMOS[name]["Om0"], z1, z2) if name in ("flat", "lowom") else None
            if z is not None:
                rec.same("cosmo2distances", z, [dd, ds / dds], 1e-6)
            flat = name in ("flat", "lowom")
            k = COSMOS[name]
            l = LCDM(z1, z2, flat=flat)
            a = (k["H0"], k["Om0"]) if flat else (k["H0"], k["Om0"], k["Ode0"])
            rec.same("lcdm", [l.D_d(*a), l.D_s(*a), l.D_ds(*a), l.D_dt(*a)], [dd, ds, dds, ddt], 1e-6)
            for f in (0.7, 1.0, 1.3):
                rec.same("ddt2h0", cosmo_solver.ddt2h0(ddt * f, z1, z2, cosmo), k["H0"] / f, 1e-6, what="Hubble constant from a time-delay distance")
            rec.trace()
            rec.outcome([dd, ds, dds])
    for z in (0.0, 0.5, 2.0):
        h = COSMOS[name]["H0"] / 100
        rho = 3 * (100 * h * 1e3 / 3.0856776e22) ** 2 / (8 * np.pi * 6.6743e-11) * (3.0856776e22) ** 3 / 1.98841e30 * efunc(name, z) ** 2
        rec.same("rho-crit-z", [b.rho_crit_z(z), NFWParam(cosmo).rhoc_z(z) * h**2, GNFWParam(cosmo).rhoc_z(z) * h**2], [rho] * 3, 2e-3, what="critical density at %s" % z)
    rec.same("rho-crit", b.rho_crit, b.rho_crit_z(0), 2e-3)
    # ratios of two source planes
    for zl, a, c, d in itertools.product((0.3, 0.5), *[(0.9, 1.5, 2.5)] * 3):
        bt = b.beta_double_source_plane
        beta = dang(name, zl, a) / dang(name, 0, a) * dang(name, 0, c) / dang(name, zl, c)
        rec.same("beta", [bt(zl, a, c), LensCosmo(0.2, 3.0, cosmo).beta_double_source_plane(zl, a, c)], [beta, beta], 1e-6)
        rec.same("beta-chain", bt(zl, a, c) * bt(zl, c, d), bt(zl, a, d), 1e-9)
        rec.same("ddt-scaling", b.ddt_scaling(zl, a, c), b.ddt(zl, c) / b.ddt(zl, a), 1e-9)
        for te, ke, g in itertools.product((0.8, 1.6), (0.0, 0.1), (1.7, 2.0, 2.3)):
            lc = LensCosmo(zl, a, cosmo)
            got = lc.theta_E_power_law_scaling(te, ke, g, zl, c, a)
            # deflection of a power law plus sheet scaled to the other source: theta_E where the mean convergence is one
            be = beta if a != c else 1.0
            f = lambda t: be * ((te / t) ** (g - 1) + ke) - 1
            lo, hi = 1e-3, 50.0
            for _ in range(200):
                m = 0.5 * (lo + hi)
                lo, hi = (m, hi) if f(m) > 0 else (lo, m)
            rec.same("theta-E-scaling", got, m, 1e-5, what="Einstein radius %s, sheet %s, slope %s from source %s to %s" % (te, ke, g, c, a))
            rec.trans()


def model_case(tier, rec):
    """all named cosmologies and parameter subsets"""
    cls = dict(FlatLambdaCDM=FlatLambdaCDM, LambdaCDM=LambdaCDM, FlatwCDM=FlatwCDM, wCDM=wCDM, Flatw0waCDM=Flatw0waCDM, w0waCDM=w0waCDM)
    uses = dict(FlatLambdaCDM=("H0", "Om0"), LambdaCDM=("H0", "Om0", "Ode0"), FlatwCDM=("H0", "Om0", "w0"), wCDM=("H0", "Om0", "Ode0", "w0"), Flatw0waCDM=("H0", "Om0", "w0", "wa"), w0waCDM=("H0", "Om0", "Ode0", "w0", "wa"))
    default = dict(H0=70, Om0=0.3, Ode0=0.7, w0=-1, wa=0)
    alt = dict(H0=63.0, Om0=0.21, Ode0=0.65, w0=-0.8, wa=0.3)
    for m in cls:
        for r in range(6):
            for sub in itertools.combinations(sorted(alt), r):
                par = {k: alt[k] for k in sub}
                keep = dict(par)
                c = get_astropy_cosmology(m, par)
                rec.unchanged("parameters", keep, par)
                ref = cls[m](**{k: par.get(k, default[k]) for k in uses[m]})
                rec.true("class", type(c) is type(ref), "%s returned %s" % (m, type(c)))
                rec.same("model", [c.angular_diameter_distance(1.3).value, c.H(0.7).value, c.angular_diameter_distance_z1z2(0.4, 2.0).value],
                         [ref.angular_diameter_distance(1.3).value, ref.H(0.7).value, ref.angular_diameter_distance_z1z2(0.4, 2.0).value], 1e-10, what="%s with %s" % (m, par))
                rec.trans()
                rec.state(m + str(sub))
                rec.outcome(c.H(0.7).value)
        rec.trace()
    rec.raises("unknown", lambda: get_astropy_cosmology("NoSuchModel", {}), ValueError)
    d = default_cosmology.get()
    rec.same("default", [Background().d_xy(0, 1.0), LensCosmo(0.5, 1.5).ddt], [d.angular_diameter_distance(1.0).value, Background(d).ddt(0.5, 1.5)], 1e-10)


def interp_case(name, tier, rec):
    """interpolated distances agree with direct integration at all redshift pairs"""
    cosmo = astro(name)
    zmax, num = 4.0, 400
    b = Background(cosmo, interp=True, z_stop=zmax, num_interp=num)
    ci = CosmoInterp(cosmo, z_stop=zmax, num_interp=num)
    zl = np.linspace(0.0, zmax, 401)
    ok = 1 - COSMOS[name]["Om0"] - COSMOS[name]["Ode0"]
    dh = CLIGHT / COSMOS[name]["H0"]
    for start in (0, 1):
        lst = CosmoInterp(ang_dist_list=[dang(name, 0, z) for z in zl[start:]], z_list=list(zl[start:]), **({} if abs(ok) < 1e-12 else dict(Ok0=ok, K=-ok / dh**2)))
        for z1, z2 in itertools.product((0,) + ZS, repeat=2):
            if z2 < z1:
                continue
            exp = dang(name, z1, z2)
            for nm, f in (("background", b.d_xy), ("interp", lambda a, c: ci.angular_diameter_distance(a, c).value), ("list", lambda a, c: lst.angular_diameter_distance(a, c).value), ("z1z2", lambda a, c: ci.angular_diameter_distance_z1z2(a, c).value)):
                rec.same("interp-" + nm, f(z1, z2), exp, 2e-5, 1e-4, what="%s: interpolated distance %s-%s" % (name, z1, z2))
            rec.trans()
            rec.state("%s-%s" % (z1, z2))
        zz = np.array(ZS)
        rec.same("interp-array", ci.angular_diameter_distance(zz).value, [dang(name, 0, z) for z in ZS], 2e-5, 1e-4)
        rec.same("interp-list", ci.angular_diameter_distance(list(ZS)).value, [dang(name, 0, z) for z in ZS], 2e-5, 1e-4)
        rec.same("interp-array-pair", ci.angular_diameter_distance_z1z2(np.zeros(len(ZS)) + 0.1, zz).value, [dang(name, 0.1, z) for z in ZS], 2e-5, 1e-4)
        mixed = np.array([0.0, 0.1, 0.0, 0.4])[: len(ZS)]
        zm = zz[-len(mixed):]
        rec.same("interp-array-mixed", ci.angular_diameter_distance_z1z2(mixed, zm).value, [dang(name, a, z) for a, z in zip(mixed, zm)], 2e-5, 1e-4, what="array of pairs, some from redshift 0")
        rec.same("list-array-mixed", lst.angular_diameter_distance(mixed, zm).value, [dang(name, a, z) for a, z in zip(mixed, zm)], 2e-5, 1e-4, what="array of pairs, some from redshift 0")
        rec.same("interp-comoving", ci.comoving_transverse_distance(zz).value, [dist(name, 0, z) for z in ZS], 2e-5, 1e-4)
        rec.trace()
        rec.outcome(exp)
    # distances to high redshift, in steps that grow
    zh = np.concatenate([np.linspace(0.0, 3.0, 301), np.linspace(3.0, 12.0, 451)[1:]])
    hi = CosmoInterp(ang_dist_list=[dang(name, 0, z) for z in zh], z_list=zh, **({} if abs(ok) < 1e-12 else dict(Ok0=ok, K=-ok / dh**2)))
    bh = Background(cosmo, interp=True, z_stop=12.0, num_interp=1200)
    for z1, z2 in itertools.product((0, 0.5, 2.0, 5.5), (2.5, 6.0, 7.0, 11.9)):
        if z2 > z1:
            exp = dang(name, z1, z2)
            rec.same("high-list", hi.angular_diameter_distance(z1, z2).value, exp, 5e-5, 1e-3, what="%s: tabulated distance %s-%s" % (name, z1, z2))
            rec.same("high-interp", bh.d_xy(z1, z2), exp, 5e-5, 1e-3, what="%s: interpolated distance %s-%s" % (name, z1, z2))
            rec.trans()


def solver_case(tier, rec):
    for zd, zs in ((0.3, 1.5), (0.6, 2.0)):
        inv = cosmo_solver.InvertCosmo(zd, zs, H0_range=np.linspace(50, 90, 15), omega_m_range=np.linspace(0.1, 0.6, 16))
        sol = cosmo_solver.SolverFlatLCDM(zd, zs)
        for H, om in itertools.product((60.0, 70.0, 83.0), (0.15, 0.3, 0.45)):
            dd, r = cosmo_solver.cosmo2angular_diameter_distances(H, om, zd, zs)
            x = sol.solve([H * 1.02, om * 1.1], dd, r)
            rec.same("solve", x, [H, om], 1e-4, what="H0 and Omega_m from distances")
            y = inv.get_cosmo(dd, r)
            rec.same("invert", cosmo_solver.cosmo2angular_diameter_distances(float(y[0]), float(y[1]), zd, zs), [dd, r], 1.01e-2, what="distances of the interpolated inverse")
            y2 = inv.get_cosmo(dd, r)
            rec.same("invert-again", [float(y2[0]), float(y2[1])], [float(y[0]), float(y[1])], 0, 0)
            rec.trans()
            rec.trace()
            rec.state("%s%s%s" % (zd, H, om))
            rec.outcome(x)
        rec.same("no-solution", inv.get_cosmo(1e6, 50.0), (-1, -1))


# ------------------------------------------------------------------ halos
HALO = [(m, c, z) for m in (1e7, 1e10, 1e13) for c in (0.4, 0.8, 4.0, 9.5, 20.0, 29.0) for z in (0.2, 0.7, 1.6)]
GAM = (0.4, 1.0, 1.6, 2.2)


def nfw_profile_mass(rho0, rs, r, g):
    """mass of rho0 (r/rs)^-g (1+r/rs)^(g-3) inside r"""
    f = lambda t: 4 * np.pi * t ** (2 - g) * (1 + t) ** (g - 3)
    return rho0 * rs**3 * integrate.quad(f, 0, r / rs, epsabs=0, epsrel=1e-11)[0]


def halo_case(name, tier, rec):
    cosmo = astro(name)
    h = COSMOS[name]["H0"] / 100
    p, g = NFWParam(cosmo), GNFWParam(cosmo)
    for m, c, z in HALO:
        rho_c = p.rhoc_z(z)
        r200 = p.r200_M(m, z)
        rec.same("r200", 4 * np.pi / 3 * r200**3 * 200 * rho_c, m, 1e-9, what="mass inside r200 at 200 times the critical density")
        rec.same("M-r200", [p.M_r200(r200, z), g.r200_M(m, z), g.M_r200(r200, z)], [m, r200, m], 1e-9)
        rho0, rs = p.rho0_c(c, z), r200 / c
        rec.same("nfw-mass", [p.M200(rs, rho0, c), nfw_profile_mass(rho0, rs, r200, 1.0)], [m, m], 1e-8, what="NFW halo of mass %g" % m)
        rec.same("concentration", float(p.c_rho0(rho0, z)), c, 1e-4 if c > 1 else 3e-3, what="concentration of a halo at redshift %s" % z)
        q = p.nfw_Mz(m, z)
        cc = p.c_M_z(m, z)
        rec.same("nfw-Mz", q, [r200, p.rho0_c(cc, z), cc, r200 / cc], 1e-9)
        for gam in GAM:
            r0 = g.rho0_c(c, z, gam)
            rec.same("gnfw-mass", [g.M200(rs, r0, c, gam), nfw_profile_mass(r0, rs, r200, gam)], [m, m], 1e-8, what="gNFW halo with slope %s" % gam)
            if c < 1 and gam > 1:
                continue  # steep and diffuse: below the resolution of the tabulated inverse
            rec.same("gnfw-concentration", float(g.c_rho0(r0, z, gam)), c, 2e-4 if c > 1 else 1e-2, what="concentration of a gNFW halo of slope %s at redshift %s" % (gam, z))
            rec.same("gnfw-Mz", g.gnfw_Mz(m, z, gam), [r200, g.rho0_c(cc, z, gam), cc, r200 / cc], 1e-9)
            rec.trans()
        rec.state("%s%s%s" % (m, c, z))
        rec.outcome([rho0, r200])
    rec.trace()
    for (zl, zs), m, c in itertools.product(((0.2, 0.9), (0.7, 2.5)), (1e8, 1e11, 1e13), (4.0, 9.5, 20.0)):
        lc = LensCosmo(zl, zs, cosmo)
        what = "halo of mass %g, concentration %s at %s" % (m, c, zl)
        rs_a, al = lc.nfw_physical2angle(m, c)
        rho0, rs, r200 = lc.nfwParam_physical(m, c)
        back = [float(x) for x in lc.nfw_angle2physical(rs_a, al)]
        rec.same("nfw-back", back, [rho0, rs, c, r200, m], 3e-4, what=what)
        rec.same("nfw-physical", [nfw_profile_mass(rho0, rs, r200, 1.0), r200 / rs, rs], [m, c, rs_a * ARCSEC * dang(name, 0, zl)], 1e-6, what=what)
        rec.same("theta-r200", [lc.nfw_M_theta_r200(m), lc.gnfw_M_theta_r200(m)], [rs_a * c] * 2, 1e-8)
        # lensing mass of the halo
        nfw = lens_class("NFW")
        m2 = nfw.mass_3d_lens(c * rs_a, rs_a, al) * lc.sigma_crit_angle
        rec.same("nfw-lensing-mass", m2, m, 1e-6, what="mass of the lens model inside r200: " + what)
        rec.same("nfw-deflection", nfw.derivatives(rs_a, 0, rs_a, al)[0], al, 1e-8, what="deflection at the scale radius")
        for gam in GAM:
            rs_g, al_g = lc.gnfw_physical2angle(m, c, gam)
            r0, rsp, r2 = lc.gnfwParam_physical(m, c, gam)
            rec.same("gnfw-back", [float(x) for x in lc.gnfw_angle2physical(rs_g, al_g, gam)], [r0, rsp, c, r2, m], 1e-3, what=what + " slope %s" % gam)
            rec.same("gnfw-physical", [nfw_profile_mass(r0, rsp, r2, gam), rs_g], [m, rs_a], 1e-6, what=what)
            gn = LensModel(["GNFW"])
            kw = [dict(Rs=rs_g, alpha_Rs=al_g, gamma_in=gam)]
            rec.same("gnfw-deflection", gn.alpha(rs_g, 0.0, kw)[0], al_g, 1e-5, what="gNFW deflection at the scale radius")
            rec.trans()
        rec.trace()


def convert_case(name, tier, rec):
    """conversions and their inverses"""
    cosmo = astro(name)
    for zl, zs in ((0.2, 0.9), (0.5, 1.5), (0.9, 4.0)):
        lc = LensCosmo(zl, zs, cosmo)
        dd, ds, dds = dang(name, 0, zl), dang(name, 0, zs), dang(name, zl, zs)
        for v in (0.01, 1.0, 3.7, np.array([0.2, 5.0])):
            rec.same("arcsec", lc.arcsec2phys_lens(v), v * ARCSEC * dd, 1e-6)
            rec.same("arcsec-source", lc.arcsec2phys_source(v), v * ARCSEC * ds, 1e-6)
            rec.same("phys", lc.phys2arcsec_lens(lc.arcsec2phys_lens(v)), v, 1e-10)
            rec.same("kappa-mass", lc.kappa2proj_mass(v), v * lc.sigma_crit, 1e-10)
            rec.same("theta-E-mass", lc.mass_in_theta_E(v), np.pi * v**2 * lc.sigma_crit_angle, 1e-8)
            sv = lc.sis_theta_E2sigma_v(v)
            rec.same("sis", lc.sis_sigma_v2theta_E(sv), v, 1e-10)
            rec.same("sis-formula", v, 4 * np.pi * (np.asarray(sv) / CLIGHT) ** 2 * dds / ds / ARCSEC, 1e-6)
            for ke in (0.0, 0.1, -0.2):
                dt = lc.time_delay_units(v, kappa_ext=ke)
                rec.same("delay", dt, (1 + zl) * dd * ds / dds * 3.0856776e19 / CLIGHT / 86400 * v * ARCSEC**2 * (1 - ke), 1e-6, what="time delay")
                rec.same("fermat", lc.time_delay2fermat_pot(dt), np.asarray(v) * (1 - ke), 1e-10)
            rec.same("delay-distance", const.delay_arcsec2days(v, lc.ddt), lc.time_delay_units(v), 1e-10)
            rec.trans()
        coin = lc.mass_in_coin(1.3)
        rec.same("coin", coin, np.pi / 3 * (dist(name, 0, zl) * 1.3 * ARCSEC) ** 2 * dist(name, 0, zs) * lc.background.rho_crit, 1e-6, what="mass in the cone")
        for m, r in itertools.product((1e8, 1e11), (0.001, 0.02)):
            s0, ra = lc.hernquist_phys2angular(m, r)
            rec.same("hernquist", lc.hernquist_angular2phys(s0, ra), [m, r], 1e-10)
            hq = lens_class("HERNQUIST")
            rec.same("hernquist-mass", hq.mass_tot(hq.sigma2rho(s0, ra), ra) * lc.sigma_crit_angle, m, 1e-6, what="total mass of the Hernquist lens")
        for mm, MM in itertools.product((-22.5, -21.0), (8.0, 10.0)):
            k0, tc = lc.uldm_mphys2angular(mm, MM)
            rec.same("uldm", lc.uldm_angular2phys(k0, tc), [mm, MM], 1e-9)
        for ms, R, n in itertools.product((1e9, 1e11), (0.3, 2.0), (1.0, 2.5, 4.0)):
            k = lc.sersic_m_star2k_eff(ms, R, n)
            rec.same("sersic", lc.sersic_k_eff2m_star(k, R, n), ms, 1e-10)
            # light profile of the same amplitude integrated over the plane
            rec.same("sersic-mass", LightModel(["SERSIC"]).total_flux([dict(amp=k, R_sersic=R, n_sersic=n, center_x=0, center_y=0)])[0] * lc.sigma_crit_angle, ms, 1e-4)
        for vd, ra, rs in itertools.product((150.0, 300.0), (0.05, 0.1), (1.0, 5.0)):
            s = lc.vel_disp_dPIED_sigma0(vd, ra, rs)
            rec.same("dpied", s, (vd / CLIGHT) ** 2 * 2 * np.pi * dds / ds * (rs - ra) / (rs * ra) / ARCSEC, 1e-6)
        rec.trace()
        rec.state("%s%s" % (zl, zs))
        rec.outcome([lc.ddt, coin])
    for m, dl, dsr in itertools.product((0.1, 1.0, 30.0), (1000.0, 4000.0), (6000.0, 8000.0)):
        te = micro_lensing.einstein_radius(m, dl, dsr)
        rec.same("micro", te, np.sqrt(4 * 1.32712e20 * m / (CLIGHT * 1e3) ** 2 * (dsr - dl) / (dsr * dl) / 3.0856776e16) / ARCSEC, 1e-3)
        rec.same("source-size", micro_lensing.source_size(2 * m, dsr), 2 * micro_lensing.source_size(m, dsr), 1e-10)


def history_case(tier, rec, first):
    """all histories of halo and distance queries on one object agree with fresh objects"""
    cosmo = astro("flat")
    ops = []
    for z in (0.2, 0.7, 1.6):
        ops.append(("c%s" % z, lambda o, z=z: float(o[0].c_rho0(NFWParam(cosmo).rho0_c(8.0, z), z))))
        ops.append(("g%s" % z, lambda o, z=z: float(o[1].c_rho0(GNFWParam(cosmo).rho0_c(8.0, z, 1.3), z, 1.3))))
    ops.append(("gs", lambda o: float(o[1].c_rho0(GNFWParam(cosmo).rho0_c(8.0, 0.7, 2.0), 0.7, 2.0))))
    ops.append(("a2p", lambda o: [float(x) for x in o[2].nfw_angle2physical(0.4, 0.3)]))
    ops.append(("ga2p", lambda o: [float(x) for x in o[2].gnfw_angle2physical(0.4, 0.3, 1.4)]))
    ops.append(("inner", lambda o: float(o[2].nfw_param.c_rho0(NFWParam(cosmo).rho0_c(8.0, 1.6), 1.6))))
    ops.append(("ginner", lambda o: float(o[2].gnfw_param.c_rho0(GNFWParam(cosmo).rho0_c(8.0, 1.6, 1.0), 1.6, 1.0))))
    ops.append(("crit", lambda o: [o[2].sigma_crit, o[2].sigma_crit_angle]))
    new = lambda: (NFWParam(cosmo), GNFWParam(cosmo), LensCosmo(0.5, 1.5, cosmo))
    ref = [f(new()) for _, f in ops]
    depth = 3 if tier == "quick" else 4
    for seq in itertools.product(range(len(ops)), repeat=depth - 1):
        o = new()
        for i in (first,) + seq:
            got = ops[i][1](o)
            rec.same("history", got, ref[i], 1e-9, 1e-12, what="query %s after %s" % (ops[i][0], [ops[j][0] for j in (first,) + seq]))
            rec.trans()
        rec.trace()
        rec.state(str((first,) + seq))
    rec.outcome(ref[first])


NOPS = 12


def kde_case(tier, rec):
    """density estimate of distance samples against the explicit sum of kernels; order of the sample does not matter"""
    x = np.array([1.0, 1.3, 0.8, 1.1, 0.95])
    y = np.array([3.0, 2.7, 3.4, 2.9, 3.3])
    cov = np.cov(np.vstack([x, y])) * (len(x) ** (-1.0 / 6)) ** 2
    inv, norm = np.linalg.inv(cov), 1 / (2 * np.pi * np.sqrt(np.linalg.det(cov))) / len(x)
    for perm in itertools.permutations(range(5)):
        k = KDELikelihood(x[list(perm)], y[list(perm)])
        for a, b in ((1.0, 3.0), (1.2, 2.5), (0.7, 3.5)):
            d = np.vstack([x - a, y - b])
            exp = np.log(norm * np.sum(np.exp(-0.5 * np.einsum("in,ij,jn->n", d, inv, d))))
            rec.same("kde", np.ravel(k.log_likelihood(a, b))[0], exp, 1e-9)
            rec.trans()
        rec.trace()
        rec.state(str(perm))
    for bw in (0.2, 1.0):
        k = KDELikelihood(x, y, kde_type="gaussian", bandwidth=bw)
        for a, b in ((1.0, 3.0), (1.2, 2.5)):
            exp = np.log(np.mean(np.exp(-((x - a) ** 2 + (y - b) ** 2) / 2 / bw**2)) / (2 * np.pi * bw**2))
            rec.same("kde-bandwidth", np.ravel(k.log_likelihood(a, b))[0], exp, 1e-6)
    rec.outcome(exp)


def cases(tier):
    out = []
    for n in COSMOS:
        out += ["%s|%s" % (k, n) for k in ("distance", "interp", "halo", "convert")]
    return out + ["models", "solver", "kde"] + ["history|%d" % i for i in range(NOPS)]


def run_case(case, tier, rec):
    t = case.split("|")
    if t[0] == "history":
        return history_case(tier, rec, int(t[1]))
    if len(t) == 2:
        return dict(distance=distance_case, interp=interp_case, halo=halo_case, convert=convert_case)[t[0]](t[1], tier, rec)
    return dict(models=model_case, solver=solver_case, kde=kde_case)[t[0]](tier, rec)
