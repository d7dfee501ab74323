"""Generators of SCF workloads shared by several properties."""
from sim import cases, workload as W

REAL = ["CADMium (all of it, unmodified, from /repo's working tree)", "numpy", "scipy (real solvers; calls can be made to fail)", "pydantic"]
STUBS = ["multiprocessing/concurrent.futures/threading: simulated tasks, deep-copied memory, pickled IPC",
         "sys.stdout, clocks, ambient random state: simulated"]
ASSUME = ["a worker's memory is a private copy made when it starts (fork); results travel only through the simulated IPC",
          "faults happen at calls that leave the package (processes, IPC, numerical library, output), interrupts also at source lines",
          "small prolate-spheroidal grids (about 100-200 points); the code has no size-dependent branch"]


def ks_opts(rng, maxiter=None, **fix):
    o = {"maxiter": maxiter or rng.choice([2, 3, 4, 5, 6]),
         "iterative": rng.random() < 0.5,
         "alpha": rng.choice([0.5, 0.5, 0.82, 1.0, 0.3]),
         "disp": rng.random() < 0.5,
         "e_tol": 1e-9}
    if o["iterative"] and rng.random() < 0.35:      # long enough for orbitals to be refined
        o["maxiter"], o["alpha"] = rng.choice([8, 10, 13]), rng.choice([0.5, 0.7])
    o.update(fix)
    return o


def part_opts(rng, max_iter=None, **fix):
    o = {"max_iter": max_iter or rng.choice([1, 2, 3, 4]),
         "iterative": rng.random() < 0.5,
         "alpha": [rng.choice([0.82, 0.5, 1.0])],
         "disp": rng.random() < 0.5,
         "e_tol": 1e-10}
    if o["iterative"] and max_iter is None and rng.random() < 0.25:
        o["max_iter"] = rng.choice([7, 9])
    if rng.random() < 0.3:
        o["alpha"] = [o["alpha"][0], rng.choice([0.82, 0.5, 0.3])]
    o.update(fix)
    return o


# what needs an isolated run before an interacting one (or cannot run interacting)
ISO_FIRST = {"He2_ovl", "He2p_ohxc", "HeH_ovl", "He2p_ohxc_sym", "He2p_ovl_ens"}
NO_INT = {"HeHp_inv"}
NO_SDFT = {"He2_ovl", "He2p_ohxc", "HeH_ovl", "He2p_ohxc_sym", "He2p_ovl_ens", "He2_inv", "H2_inv", "HeHp_inv", "He2_two",
           "He2_two_sym"}


def part_steps(rng, name, spec, nmax=3, freeze=0.35):
    """A sequence of runs on one partition."""
    n = 1 if rng.random() < 0.45 else rng.randrange(2, nmax + 1)
    steps = []
    sym = spec["opt"].get("ab_sym")
    for k in range(n):
        iso = rng.random() < (0.45 if k == 0 else 0.2)
        if name in NO_INT or (k == 0 and name in ISO_FIRST):
            iso = True
        o = part_opts(rng)
        if sym:
            o["alpha"] = o["alpha"][:1]
        if not iso and name not in NO_SDFT and rng.random() < 0.25:
            o["calc_type"] = "sdft"
        if k > 0 and rng.random() < 0.5:
            o["continuing"] = True
            if not iso and rng.random() < freeze:
                which = rng.choice(["a", "b", "ab"])
                if "a" in which:
                    o["freeze_a"] = True
                if "b" in which:
                    o["freeze_b"] = True
        steps.append({"do": "scf", "iso": iso, "opt": o})
    return steps


def ks_steps(rng, nmax=3):
    n = 1 if rng.random() < 0.55 else rng.randrange(2, nmax + 1)
    steps = []
    for k in range(n):
        o = ks_opts(rng)
        if k > 0 and rng.random() < 0.6:
            o["continuing"] = True
        steps.append({"do": "scf", "opt": o})
    return steps


def pick(rng, i, ks_share=0.5, ks=None, part=None):
    """Round robin over the systems, so that every one is met early."""
    ks = ks or cases.KS_ALL
    part = part or cases.PART_ALL
    if ks_share >= 1 or (ks_share > 0 and (i % 10) < ks_share * 10):
        name = ks[(i * 7 + i // 10) % len(ks)] if rng.random() < 0.5 else rng.choice(ks)
        return name, W.ks_spec(name, cases.shape(rng))
    name = part[(i * 5 + i // 10) % len(part)] if rng.random() < 0.5 else rng.choice(part)
    return name, W.part_spec(name, cases.shape(rng))
