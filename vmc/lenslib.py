"""Sample parameter sets for every registered lens profile (used by several checks)."""
import numpy as np

from lenstronomy.LensModel.profile_list_base import _SUPPORTED_MODELS, lens_class

NEED_FASTELL = {"PEMD", "SPEMD"}
USER_CLASS = {"SYNTHESIS", "TABULATED_DEFLECTIONS"}
TABLES = {"INTERPOL", "INTERPOL_SCALED", "RADIAL_INTERPOL"}
LOS = {"LOS", "LOS_MINIMAL", "LOS_FLEXION", "LOS_FLEXION_MINIMAL"}

BY_NAME = {
    "theta_E": 1.1, "gamma": 2.1, "e1": 0.12, "e2": -0.09, "center_x": 0.13, "center_y": -0.07, "ra_0": 0.05, "dec_0": -0.02,
    "kappa": 0.07, "gamma1": 0.04, "gamma2": -0.03, "Rs": 1.3, "alpha_Rs": 0.8, "r_core": 0.4, "sigma0": 0.5, "sigma_0": 0.5,
    "kappa_0": 0.2, "theta_c": 0.6, "lambda_approx": 0.9, "a": 0.8, "s": 0.5, "b": 1.1, "q": 0.8, "phi": 0.4,
    "amp": 1.2, "sigma": 0.7, "sigma_x": 0.8, "sigma_y": 0.6, "gamma_in": 1.3, "gamma_inner": 1.2, "gamma_outer": 3.1,
    "r_trunc": 2.5, "k_eff": 0.4, "R_sersic": 0.9, "n_sersic": 2.0, "Ra": 0.4, "s_scale": 0.2, "slope": 4.5,
    "log10_theta_E": -0.1, "logM": 11.5, "concentration": 7.0, "gamma_ext": 0.06, "psi_ext": 0.5, "alpha_x": 0.11, "alpha_y": -0.06,
    "m": 4, "a_m": 0.03, "phi_m": 0.3, "varphi_m": 0.3, "phi_ref": 0.4, "r_E": 1.0,
    "a1_a": 0.02, "delta_phi_m1": 0.2, "a3_a": 0.03, "delta_phi_m3": -0.15, "a4_a": -0.04, "delta_phi_m4": 0.1,
    "g1": 0.01, "g2": -0.02, "g3": 0.015, "g4": 0.005, "F1": 0.01, "F2": -0.02, "G1": 0.015, "G2": 0.005,
    "f_xx": 0.1, "f_yy": -0.05, "f_xy": 0.03, "f_yx": 0.03, "alpha_1": 1.1, "w_c": 0.3, "w_t": 0.8,
    "ratio": 0.7, "ratio12": 0.6, "ratio13": 0.4, "w_c1": 0.2, "w_t1": 0.6, "e11": 0.1, "e21": -0.05, "w_c2": 0.3, "w_t2": 0.9,
    "e12": -0.07, "e22": 0.12, "w_c3": 0.5, "w_t3": 1.4, "e13": 0.03, "e23": 0.06,
    "tangential_stretch": 4.0, "radial_stretch": 1.3, "curvature": 0.8, "direction": 0.6, "dtan_dtan": 0.2,
    "com_x": 0.1, "com_y": -0.05, "phi_dipole": 0.4, "coupling": 0.05, "coeff": 0.1, "d_r": 0.9, "d_phi": 0.7,
    "mu_r": 1.3, "mu_t": 4.0, "parity": 1, "phi_G": 0.3, "f_b": 0.3, "c_s": 8.0, "rho0ang": 0.6, "r_s": 1.2, "rho_s": 0.5, "psi": 0.4,
    "scale_factor": 1.0, "n_max": 2,
}
OVERRIDE = {
    "CONST_MAG": dict(center_x=0.0, center_y=0.0),
    "MULTI_GAUSSIAN": dict(amp=np.array([0.7, 0.5]), sigma=np.array([0.4, 1.1])),
    "MULTI_GAUSSIAN_ELLIPSE_KAPPA": dict(amp=np.array([0.7, 0.5]), sigma=np.array([0.4, 1.1])),
    "MULTI_GAUSSIAN_ELLIPSE_POTENTIAL": dict(amp=np.array([0.7, 0.5]), sigma=np.array([0.4, 1.1])),
    "SHAPELETS_CART": dict(coeffs=(0.3, -0.1, 0.2), beta=0.8),
    "SHAPELETS_POLAR": dict(coeffs=(0.3, -0.1, 0.2), beta=0.8),
    "CTNFW_GAUSS_DEC": dict(a=2.0, r_core=0.2, r_trunc=4.0),
    "BPL": dict(b=1.1, a=1.2, a_c=0.7, r_c=0.3),
    "PJAFFE": dict(Ra=0.4, Rs=1.3), "PJAFFE_ELLIPSE_POTENTIAL": dict(Ra=0.4, Rs=1.3),
    "ElliSLICE": dict(a=2.0, b=1.1),
    "SIS_TRUNCATED": dict(r_trunc=1.7),
    "SPL_CORE": dict(gamma=2.3),
    "TNFWC": dict(r_core=0.3),
}


def profile_kwargs(model):
    return {"z_lens": 0.5, "z_source": 2.0} if model.startswith("NFW_MC") else {}


def available():
    return [m for m in _SUPPORTED_MODELS if m not in NEED_FASTELL | USER_CLASS | TABLES]


def plain():
    """profiles that can be used in an ordinary superposition"""
    return [m for m in available() if m not in LOS]


def params(model, salt=0):
    """Parameter set number ``salt`` (0, 1, 2, ...) of a profile: every entry differs between sets."""
    names = lens_class(model, profile_kwargs(model)).param_names
    out = {}
    for j, n in enumerate(names):
        if n in OVERRIDE.get(model, {}):
            v = OVERRIDE[model][n]
        elif model in LOS:
            v = 0.01 * (1 + j % 5) * (-1) ** j
        else:
            v = BY_NAME[n]
        f = 1 + 0.11 * salt * (1 + 0.3 * np.cos(3.0 * j + salt))
        if n in ("m", "parity", "gamma_outer"):
            f = 1
        if n == "gamma" and salt:
            f = 1 - 0.04 * salt
        if n == "logM" and salt:
            f = 1 + 0.01 * salt
        if n == "lambda_approx":
            f = 1 - 0.05 * salt
        if n in ("q",):
            f = 1 - 0.07 * salt
        if n == "coeffs":
            v = tuple(np.array(v) * f)
        else:
            v = v * f
        out[n] = v
    if "f_yx" in out:
        out["f_yx"] = out["f_xy"]
    return out
