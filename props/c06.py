from . import invariants as I, scfgen as G

LEVEL = "exploration"
RULE = ("a case is a random history of 1-4 runs (options, modes, continuation) on one system of a family, under a random "
        "schedule, half of them with faults or interrupts; checked at every iteration; non-trivial when at least one "
        "iteration was checked")
SECONDS = {"quick": 110, "thorough": 1500}
CASES = {"quick": 1900, "thorough": 100000}
REAL, STUBS, ASSUME = G.REAL, G.STUBS, G.ASSUME
KINDS = ("energy",)


def gen(rng, i, tier):
    return I.gen(rng, i, tier, 0.4, KINDS)


def execute(case):
    return I.execute(case, KINDS)
