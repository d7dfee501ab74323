"""What the simulated calculations are: systems, grids, options; built from JSON specs."""
import warnings

import numpy as np
import scipy.sparse

from . import core, env, modstate

_grids = {}


def grid(spec):
    """Grid [NP, NMa, NMr, a, box]; cached (a calculation must not change it: C11)."""
    cad = env.load()
    key = tuple(spec)
    g = _grids.get(key)
    if g is None:
        NP, na, nr, a, box = spec
        modstate.pristine()                 # as the first one of a process
        was = core.set_current(None)        # (whether it is there already must not show in a run)
        try:
            g = cad.Psgrid(NP, [na, nr], a, np.arccosh(box / a), np.arange(-4, 5))
            g.initialize()
        finally:
            core.set_current(was)
        _grids[key] = g
        _saved[key] = {k: (v, _content(v)) for k, v in vars(g).items()}
    return g


def prepare(case):
    """Make every grid a case mentions."""
    if isinstance(case, dict):
        for k, v in case.items():
            if k == "grid" and isinstance(v, (list, tuple)):
                grid(v)
            else:
                prepare(v)
    elif isinstance(case, (list, tuple)):
        for v in case:
            if isinstance(v, (dict, list, tuple)):
                prepare(v)


_saved = {}


def _content(v):
    if isinstance(v, np.ndarray):
        return v.copy() if v.dtype != object else None
    if scipy.sparse.issparse(v):
        # solvers sort the indices in place: values and where they stand belong together
        return {k: (x, x.copy() if isinstance(x, np.ndarray) and x.dtype != object else None) for k, x in vars(v).items()}
    return None


def _restore(x, c):
    if x.shape == c.shape and not np.array_equal(x, c, equal_nan=x.dtype.kind in "fc"):
        x[...] = c


def restore_grids():
    """Every run gets its grid as it was made: nothing is handed from run to run on it."""
    for key, g in _grids.items():
        d, was = vars(g), _saved[key]
        for k in [k for k in d if k not in was]:
            del d[k]
        for k, (v, c) in was.items():
            if d.get(k, was) is not v:
                d[k] = v
            if isinstance(c, dict):
                dv = vars(v)
                for n in [n for n in dv if n not in c]:
                    del dv[n]
                for n, (x, xc) in c.items():
                    if dv.get(n, c) is not x:
                        dv[n] = x
                    if xc is not None:
                        _restore(x, xc)
            elif c is not None:
                _restore(v, c)


def drop_grids():
    _grids.clear()
    _saved.clear()


# name: Za, Zb, pol, Nmo, N, bond(2a), opts
KS = {
    "H": (1, 0, 2, [[1, 0]], [[1, 0]], 1.4, {}),
    "Hni": (1, 0, 1, [[1]], [[1]], 1.4, {"interaction_type": "ni", "fractional": True}),
    "H2p_ni": (1, 1, 2, [[1, 0]], [[1, 0]], 2.0, {"interaction_type": "ni"}),
    "H2p_sym": (1, 1, 2, [[1, 0]], [[1, 0]], 2.0, {"interaction_type": "ni", "sym": True}),
    "He": (2, 0, 1, [[1]], [[2]], 1.5, {}),
    "He_pol": (2, 0, 2, [[1, 1]], [[1, 1]], 1.5, {}),
    "He_gga": (2, 0, 1, [[1]], [[2]], 1.5, {"xc_family": "gga", "xfunc_id": 101, "cfunc_id": 130}),
    "H2": (1, 1, 1, [[1]], [[2]], 1.4, {}),
    "H2_pol": (1, 1, 2, [[1, 1]], [[1, 1]], 1.4, {}),
    "H2_sym": (1, 1, 1, [[1]], [[2]], 1.4, {"sym": True}),
    "H2_trip": (1, 1, 2, [[2, 0]], [[2, 0]], 3.0, {}),
    "HeHp": (2, 1, 1, [[1]], [[2]], 1.46, {}),
    "He2p": (2, 2, 2, [[2, 1]], [[2, 1]], 2.0, {}),
    "Li": (3, 0, 2, [[2, 1]], [[2, 1]], 1.6, {}),
    "Li_frac": (3, 0, 1, [[2]], [[3]], 1.6, {"fractional": True}),
    "LiH": (1, 3, 1, [[2]], [[4]], 3.0, {}),
    "Be": (4, 0, 1, [[2]], [[4]], 1.8, {}),
    "He_p": (2, 0, 1, [[1], [1]], [[2], [0]], 1.5, {}),
    "Hp_ni": (1, 0, 2, [[1, 1], [1, 0]], [[1, 0], [1, 0]], 2.0,
              {"interaction_type": "ni", "fractional": True}),
    "pi_ni": (2, 1, 2, [[2, 1], [1, 1]], [[2, 1], [2, 1]], 2.0,
              {"interaction_type": "ni", "fractional": True}),
    "pi1_ni": (2, 1, 1, [[2], [1]], [[4], [4]], 2.0, {"interaction_type": "ni"}),
    "delta_ni": (2, 2, 2, [[1, 1], [1, 0], [1, 1]], [[1, 1], [2, 0], [1, 0]], 2.0,
                 {"interaction_type": "ni", "fractional": True}),
    "pi1f_ni": (2, 1, 1, [[2], [1]], [[3], [1.5]], 2.0, {"interaction_type": "ni", "fractional": True}),
    "delta1f_ni": (2, 2, 1, [[1], [2], [1]], [[2], [5], [1]], 2.0, {"interaction_type": "ni", "fractional": True}),
    "B_unpol": (5, 0, 1, [[2], [1]], [[4], [1]], 2.2, {"fractional": True}),
    "frac_ni": (1, 1, 1, [[2]], [[2.6]], 2.0, {"interaction_type": "ni", "fractional": True}),
    "frac2_ni": (1, 1, 2, [[2, 1]], [[1.3, 0.4]], 2.0, {"interaction_type": "ni", "fractional": True}),
    "B": (5, 0, 2, [[2, 2], [1, 0]], [[2, 2], [1, 0]], 2.2, {"fractional": True}),
    "He_gga_pol": (2, 0, 2, [[1, 1]], [[1, 1]], 1.5, {"xc_family": "gga", "xfunc_id": 101, "cfunc_id": 130}),
    "BeH": (4, 1, 2, [[3, 2]], [[3, 2]], 2.5, {}),
    "N": (7, 0, 2, [[2, 2], [1, 0]], [[2, 2], [2, 0]], 2.2, {}),
    "H2_flip": (1, 1, 2, [[1, 1]], [[1, 1]], 2.4, {"_scf": {"spinflipsym": True}}),
    "HeP_pi": (3, 0, 2, [[2, 2], [1, 1]], [[1, 1], [0.6, 0.2]], 2.0, {"fractional": True}),
    # in an external potential the caller has set
    "He_ext": (2, 0, 1, [[1]], [[2]], 1.5, {"_field": 0.4}),
    "Li_ext": (3, 0, 2, [[2, 1]], [[2, 1]], 1.6, {"_field": -0.3}),
    "H2p_ext": (1, 1, 2, [[1, 0]], [[1, 0]], 2.0, {"interaction_type": "ni", "_field": 0.5}),
}


def field(g, pol, amp):
    """A smooth external potential without any symmetry, other for the other spin."""
    Z, r = g.a * np.cosh(g.Xr) * np.cos(g.Xa), g.a * np.sinh(g.Xr) * np.sin(g.Xa)
    v = -amp / (1.0 + (Z - 0.4) ** 2 + r ** 2) + 0.2 * amp * np.tanh(Z)
    return np.stack([v, 0.7 * v], axis=1)[:, :pol]

GRIDS_SMALL = [(4, 3, 3), (3, 4, 4), (4, 3, 4), (3, 4, 5)]


def box_for(name):
    return 10.0 if "2.0" else 10.0


def build_ks(spec):
    cad = env.load()
    g = grid(spec["grid"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ks = cad.Kohnsham(g, spec["Za"], spec["Zb"], spec["pol"], spec["Nmo"], spec["N"],
                          dict(spec["opt"]))
    if spec.get("field"):
        ks.vext = field(g, spec["pol"], spec["field"])
    return ks


def ks_spec(name, shape=(4, 3, 3), box=10.0, bond=None):
    Za, Zb, pol, Nmo, N, b, opt = KS[name]
    a = (bond or b) / 2.0
    opt = dict(opt)
    scf, amp = opt.pop("_scf", None), opt.pop("_field", None)
    spec = {"kind": "ks", "name": name, "grid": [shape[0], shape[1], shape[2], a, box],
            "Za": Za, "Zb": Zb, "pol": pol, "Nmo": Nmo, "N": N, "opt": opt}
    if scf:
        spec["scf"] = scf
    if amp:
        spec["field"] = amp
    return spec


def scf_opt(spec, step):
    """The options handed to scf: those of the step and those that belong to the system."""
    return dict(spec.get("scf") or {}, **step["opt"])


def spelled(opt, how):
    """The same options, their names in other letters."""
    if how == "upper":
        return {k.upper(): v for k, v in opt.items()}
    if how == "title":
        return {k.title() if n % 2 else k: v for n, (k, v) in enumerate(opt.items())}
    return opt


# name: Za, Zb, pol, Nmo_a, N_a, nu_a, Nmo_b, N_b, nu_b, bond, opts, inverter
# inverter: None or (Nmo_m, N_m, optInv)
_ES = [[1, 0]]
PART = {
    "H2p_frac": (1, 1, 2, [[1, 0]], [[0.5, 0]], 1, [[1, 0]], [[0.5, 0]], 1, 2.0,
                 {"ab_sym": True, "kinetic_part_type": "libxcke", "k_family": "gga", "ke_func_id": 500,
                  "interaction_type": "ni", "fractional": True}, None),
    "He2_vw": (2, 2, 1, [[1]], [[2]], 1, [[1]], [[2]], 1, 3.0,
               {"ab_sym": True, "kinetic_part_type": "vonweiz"}, None),
    "He2_nosym": (2, 2, 1, [[1]], [[2]], 1, [[1]], [[2]], 1, 3.0,
                  {"ab_sym": False, "kinetic_part_type": "libxcke", "ke_func_id": 500}, None),
    "HeH_vw": (2, 1, 2, [[1, 1]], [[1, 1]], 1, [[1, 0]], [[1, 0]], 1, 3.0,
               {"kinetic_part_type": "libxcke", "k_family": "lda", "ke_func_id": 50}, None),
    "LiH_none": (3, 1, 2, [[2, 1]], [[2, 1]], 1, [[1, 1]], [[0, 1]], 1, 3.0,
                 {"kinetic_part_type": "none"}, None),
    "LiHe_p": (3, 2, 2, [[2, 2]], [[2, 1]], 1, [[1, 1]], [[1, 1]], 1, 3.4,
               {"kinetic_part_type": "libxcke", "k_family": "lda", "ke_func_id": 50}, None),
    "H2_ess": (1, 1, 2, [[1, 0]], [[1, 0]], 1, [[1, 0]], [[1, 0]], 1, 1.6,
               {"ab_sym": True, "ens_spin_sym": True, "kinetic_part_type": "libxcke",
                "ke_func_id": 500}, None),
    "H2_ess_nosym": (1, 1, 2, [[1, 0]], [[1, 0]], 1, [[1, 0]], [[1, 0]], 1, 1.6,
                     {"ab_sym": False, "ens_spin_sym": True, "kinetic_part_type": "none"}, None),
    "HeH_ess": (2, 1, 2, [[1, 1]], [[1, 1]], 1, [[1, 0]], [[1, 0]], 1, 2.6,
                {"ens_spin_sym": True, "kinetic_part_type": "libxcke", "k_family": "lda",
                 "ke_func_id": 50}, None),
    "He2p_ens": (2, 2, 2, [[[1, 1]], [[1, 1]]], [[[1, 0]], [[1, 1]]], 0.5,
                 [[[1, 1]], [[1, 1]]], [[[1, 0]], [[1, 1]]], 0.5, 2.4,
                 {"ab_sym": True, "kinetic_part_type": "none"}, None),
    "He2p_ens_nosym": (2, 2, 2, [[[1, 1]], [[1, 1]]], [[[1, 0]], [[1, 1]]], 0.5,
                       [[[1, 1]], [[1, 1]]], [[[1, 0]], [[1, 1]]], 0.5, 2.4,
                       {"ab_sym": False, "kinetic_part_type": "none"}, None),
    "HeLi_ens": (2, 3, 2, [[[1, 1]], [[1, 1]]], [[[1, 0]], [[1, 1]]], 0.7,
                 [[[1, 1]], [[2, 1]]], [[[1, 1]], [[2, 1]]], 0.3, 3.2,
                 {"kinetic_part_type": "none"}, None),
    "HeLi_ens_ke": (2, 3, 2, [[[1, 1]], [[1, 1]]], [[[1, 0]], [[1, 1]]], 0.7,
                    [[[1, 1]], [[2, 1]]], [[[1, 1]], [[2, 1]]], 0.7, 3.2,
                    {"kinetic_part_type": "libxcke", "k_family": "lda", "ke_func_id": 50,
                     "ens_spin_sym": True}, None),
    "H2p_ens": (1, 1, 2, [[[1, 0]], [[1, 0]]], [[[0, 0]], [[1, 0]]], 0.5,
                [[[1, 0]], [[1, 0]]], [[[0, 0]], [[1, 0]]], 0.5, 2.0,
                {"ab_sym": True, "interaction_type": "ni", "kinetic_part_type": "none"}, None),
    "He2_two": (2, 2, 1, [[1]], [[2]], 1, [[1]], [[2]], 1, 4.0,
                {"kinetic_part_type": "twoorbital"}, None),
    "He2_two_sym": (2, 2, 1, [[1]], [[2]], 1, [[1]], [[2]], 1, 4.0,
                    {"kinetic_part_type": "twoorbital", "ab_sym": True}, None),
    "H2_inv": (1, 1, 2, [[1, 0]], [[1, 0]], 1, [[1, 0]], [[1, 0]], 1, 1.466,
               {"ab_sym": True, "ens_spin_sym": True, "kinetic_part_type": "inversion"},
               ([[1, 1]], [[1, 1]], {"ab_sym": True, "ens_spin_sym": True,
                                     "invert_type": "orbitalinvert"})),
    "He2_inv": (2, 2, 1, [[1]], [[2]], 1, [[1]], [[2]], 1, 3.0,
                {"ab_sym": True, "kinetic_part_type": "inversion"},
                ([[2]], [[4]], {"ab_sym": True, "invert_type": "wuyang", "tol_invert": 1e-4})),
    "HeHp_inv": (2, 2, 1, [[1]], [[2]], 1, [[1]], [[2]], 1, 3.0,
                 {"ab_sym": False, "kinetic_part_type": "inversion"},
                 ([[2]], [[4]], {"ab_sym": False, "invert_type": "orbitalinvert"})),
    "Li2_pi": (2, 2, 2, [[1, 1], [1, 0]], [[1, 1], [1, 0]], 1, [[1, 1], [1, 0]], [[1, 1], [1, 0]], 1,
               3.0, {"ab_sym": True, "interaction_type": "ni", "fractional": True,
                     "kinetic_part_type": "none"}, None),
    "He2_gga": (2, 2, 1, [[1]], [[2]], 1, [[1]], [[2]], 1, 3.0,
                {"ab_sym": True, "kinetic_part_type": "libxcke", "ke_func_id": 500,
                 "xc_family": "gga", "xfunc_id": 101, "cfunc_id": 130}, None),
    "He2_hart": (2, 2, 1, [[1]], [[2]], 1, [[1]], [[2]], 1, 3.0,
                 {"ab_sym": False, "kinetic_part_type": "none", "hxc_part_type": "hartree"}, None),
    "He2_ovl": (2, 2, 1, [[1]], [[2]], 1, [[1]], [[2]], 1, 3.0,
                {"ab_sym": True, "kinetic_part_type": "none", "hxc_part_type": "overlap_xc"}, None),
    "HeH_ovl": (2, 1, 2, [[1, 1]], [[1, 1]], 1, [[1, 0]], [[1, 0]], 1, 3.0,
                {"kinetic_part_type": "none", "hxc_part_type": "overlap_xc"}, None),
    "He2p_ohxc_sym": (2, 2, 2, [[[1, 1]], [[1, 1]]], [[[1, 0]], [[1, 1]]], 0.5,
                      [[[1, 1]], [[1, 1]]], [[[1, 0]], [[1, 1]]], 0.5, 2.4,
                      {"ab_sym": True, "kinetic_part_type": "none", "hxc_part_type": "overlap_hxc"}, None),
    "He2p_ovl_ens": (2, 2, 2, [[[1, 1]], [[1, 1]]], [[[1, 0]], [[1, 1]]], 0.5,
                     [[[1, 1]], [[1, 1]]], [[[1, 0]], [[1, 1]]], 0.5, 2.4,
                     {"ab_sym": True, "kinetic_part_type": "none", "hxc_part_type": "overlap_xc"}, None),
    "BHe_pi": (5, 2, 2, [[2, 2], [1, 0]], [[2, 2], [1, 0]], 1, [[1, 1], [0, 0]], [[1, 1], [0, 0]], 1, 3.4,
               {"kinetic_part_type": "vonweiz", "fractional": True}, None),
    "He2p_ohxc": (2, 2, 2, [[[1, 1]], [[1, 1]]], [[[1, 0]], [[1, 1]]], 0.5,
                  [[[1, 1]], [[1, 1]]], [[[1, 0]], [[1, 1]]], 0.5, 2.4,
                  {"ab_sym": False, "kinetic_part_type": "none", "hxc_part_type": "overlap_hxc"}, None),
}


def part_spec(name, shape=(4, 3, 3), box=10.0, bond=None):
    (Za, Zb, pol, Nmo_a, N_a, nu_a, Nmo_b, N_b, nu_b, b, opt, inv) = PART[name]
    a = (bond or b) / 2.0
    return {"kind": "part", "name": name, "grid": [shape[0], shape[1], shape[2], a, box],
            "Za": Za, "Zb": Zb, "pol": pol, "Nmo_a": Nmo_a, "N_a": N_a, "nu_a": nu_a,
            "Nmo_b": Nmo_b, "N_b": N_b, "nu_b": nu_b, "opt": dict(opt),
            "inv": None if inv is None else [inv[0], inv[1], dict(inv[2])]}


def build_part(spec):
    cad = env.load()
    g = grid(spec["grid"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p = cad.Partition(g, spec["Za"], spec["Zb"], spec["pol"],
                          spec["Nmo_a"], spec["N_a"], spec["nu_a"],
                          spec["Nmo_b"], spec["N_b"], spec["nu_b"], dict(spec["opt"]))
    if spec["inv"] is not None:
        Nmo, N, o = spec["inv"]
        p.inverter = cad.Inverter(g, cad.Pssolver(g, Nmo, N), dict(o))
    return p
