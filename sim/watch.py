"""Probes on the public methods of the code under test, and the invariants checked there.

A `Watch` follows one calculation (a Kohnsham or Partition object).  It looks at
the objects only at two kinds of moments that any implementation has: when a
density evaluation returned, and at iteration boundaries (the first potential
update after a density evaluation, and the end of scf).  It recomputes what it
checks with sim.ref.
"""
import functools

import numpy as np
import scipy.special

from . import core, env, ref, workload as W

_installed = False
CAP = 4


def install():
    global _installed
    if _installed:
        return
    _installed = True
    cad = env.load()

    def wrap(cls, name, before=None, after=None, fail=None):
        fn = getattr(cls, name, None)
        if fn is None:
            return

        @functools.wraps(fn)
        def method(self, *a, **kw):
            s = core.active()
            ws = getattr(s, "watches", None) if s is not None else None
            hit = [w for w in ws if w.covers(self)] if ws else ()
            for w in hit:
                if before:
                    getattr(w, before)(self, a, kw)
            try:
                out = fn(self, *a, **kw)
            except BaseException as e:      # noqa: B902
                for w in hit:
                    if fail:
                        getattr(w, fail)(self, e)
                raise
            for w in hit:
                if after:
                    getattr(w, after)(self, out, a, kw)
            return out
        setattr(cls, name, method)

    wrap(cad.Kohnsham, "calc_density", "before_density", "after_density", "failed_density")
    wrap(cad.Kohnsham, "calc_hxc_potential", "before_hxc")
    wrap(cad.Partition, "partition_potential", None, "after_vp")


def _rel(a, b, scale=None):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return np.inf
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        fa, fb = np.isfinite(a), np.isfinite(b)
        if not np.array_equal(fa, fb):
            return np.inf
        a, b = a[fa], b[fb]
    if a.size == 0:
        return 0.0
    s = max(1e-300, np.max(np.abs(b)) if scale is None else scale)
    return float(np.max(np.abs(a - b)) / s)


class Watch:
    """kinds: subset of {"cons", "energy", "mirror", "pot"}; optionally a trace of (E, n)."""

    def __init__(self, obj, spec, kinds, trace=False):
        self.obj, self.spec, self.kinds = obj, spec, set(kinds)
        self.g = obj.grid
        self.part = spec["kind"] == "part"
        self.stage = "idle"
        self.viol = []
        self.checks = 0
        self.iters = 0
        self.trace = [] if trace else None
        self.prev = None
        self.in_scf = False
        self.opt = {}
        self.frozen_vext = {}
        self.nevals = 0           # density evaluations so far
        self.history = []         # kind "atomic": channels after each evaluation
        self.failures = []        # kind "atomic": (evaluation, object, channels before, channels after)
        self.before = None
        self.t_start = None
        self.own_vp = {}          # the fragments' own embedding potentials as they were averaged
        if self.part:
            p = obj
            self.ens = hasattr(p, "KSA")
            self.a = [p.KSa] + ([p.KSA] if self.ens else [])
            self.b = [p.KSb] + ([p.KSB] if self.ens else [])
            self.all = self.a + self.b
            nu_a, nu_b = spec["nu_a"], spec["nu_b"]
            self.wa = [1 - nu_a, nu_a] if self.ens else [nu_a]
            self.wb = [1 - nu_b, nu_b] if self.ens else [nu_b]
            self.ess = bool(spec["opt"].get("ens_spin_sym"))
            self.sym = bool(spec["opt"].get("ab_sym"))
            if self.ess:
                self.wa = [w / 2 for w in self.wa]
                self.wb = [w / 2 for w in self.wb]
            self.solved = self.a if self.sym else self.all
            self.weight = dict(zip(map(id, self.all), self.wa + self.wb))
            # what the fragments were configured with
            Ns = (spec["N_a"] if self.ens else [spec["N_a"]]) + (spec["N_b"] if self.ens else [spec["N_b"]])
            Nm = (spec["Nmo_a"] if self.ens else [spec["Nmo_a"]]) + (spec["Nmo_b"] if self.ens else [spec["Nmo_b"]])
            Z = [(spec["Za"], 0)] * len(self.a) + [(0, spec["Zb"])] * len(self.b)
        else:
            self.all = self.solved = [obj]
            Ns, Nm, Z = [spec["N"]], [spec["Nmo"]], [(spec["Za"], spec["Zb"])]
            self.sym = self.ess = False
        self.conf = {}
        o = spec["opt"]
        for ks, N, M, z in zip(self.all, Ns, Nm, Z):
            v = ref.coulomb(self.g, *z)
            v = np.repeat(v[:, None], spec["pol"], axis=1)
            if o.get("sym"):
                v = 0.5 * (v + ref.mirror(self.g, v))
            self.conf[id(ks)] = {"N": np.array(N, float), "Nmo": np.array(M), "Z": z, "vnuc": v}
        self.fractional = bool(o.get("fractional"))
        self.itype = o.get("interaction_type", "dft")
        self._names = {}
        for nm in ("KSa", "KSA", "KSb", "KSB"):
            if self.part and hasattr(obj, nm):
                self._names[id(getattr(obj, nm))] = nm

    def covers(self, o):
        return o is self.obj or any(o is k for k in self.all)

    def name(self, ks):
        return self._names.get(id(ks), "KS")

    def bad(self, key, msg):
        if len(self.viol) < CAP:
            self.viol.append((key, f"iteration {self.iters}: {msg}"))

    def near(self, key, what, a, b, tol, scale=None):
        self.checks += 1
        d = _rel(a, b, scale)
        if not d <= tol:
            self.bad(key, f"{what}: {_brief(a)} instead of {_brief(b)} (relative difference {d:.3g})")
            return False
        return True

    # ---------------------------------------------------------------- events
    def begin(self, opt, iso=False):
        """scf() is about to be called."""
        self.in_scf, self.opt, self.iso = True, dict(opt), iso
        self.own_vp = {}
        self.stage = "start"
        self.prev = None
        self.iters = 0
        self.loop_started = False
        self.frozen_vext = {}
        # a continued run takes the fragments up with the embedding potential they have
        self.kept_vext = {}
        if self.part and self.opt.get("continuing"):
            for ks in self.solved:
                if all(getattr(ks, q, None) is not None for q in ("n", "veff", "vext", "vhxc")):
                    self.kept_vext[id(ks)] = ks.vext.copy()

    def end(self, ok):
        if ok and self.in_scf and self.loop_started and self.stage == "solving":
            self.boundary(final=True)
        self.in_scf = False
        self.stage = "idle"

    def after_vp(self, p, out, a, kw):
        if "pot" in self.kinds and self.part:
            self.own_vp = {id(ks): np.array(ks.V.vp) for ks in self.all if getattr(ks.V, "vp", None) is not None}

    def before_density(self, ks, a, kw):
        if self.in_scf:
            self.stage = "solving"
        if "atomic" in self.kinds:
            self.before = self.channels(ks)

    def channels(self, ks):
        return {ij: (None if s.eig is None else np.array(s.eig, float),
                     None if s.phi is None else np.array(s.phi))
                for ij, s in np.ndenumerate(ks.solver)}

    def failed_density(self, ks, e):
        if "atomic" in self.kinds and not isinstance(e, (core.StepLimit, core.Deadlock, core.HarnessError, core.SimKill)):
            self.failures.append((self.nevals, self.name(ks), self.before, self.channels(ks), type(e).__name__))
        self.nevals += 1

    def after_density(self, ks, nout, a, kw):
        self.nevals += 1
        if "atomic" in self.kinds:
            self.history.append((self.name(ks), self.channels(ks)))
        if "cons" in self.kinds:
            self.check_electrons(ks, nout, "density evaluation")
        if "orb" in self.kinds:
            self.check_orbitals(ks)

    def before_hxc(self, ks, a, kw):
        if not self.in_scf:
            return
        if self.stage == "solving":
            if self.loop_started:
                self.boundary()
            else:
                self.initial()
            self.stage = "potential"
        elif self.stage == "start":            # a continued run
            self.initial()
            self.stage = "potential"
        self.loop_started = True

    # ------------------------------------------------------------ boundaries
    def snap(self):
        s = {}
        for ks in self.all:
            if ks.n is not None:
                s[id(ks)] = {"n": ks.n.copy(), "Q": np.array(ks.Q),
                             "vext": None if ks.vext is None else ks.vext.copy(),
                             "vhxc": None if ks.vhxc is None else np.array(ks.vhxc)}
        if self.part and getattr(self.obj, "nf", None) is not None:
            s["nf"] = self.obj.nf.copy()
            for k in ("na_frac", "nb_frac"):
                v = getattr(self.obj, k, None)
                s[k] = None if v is None else np.array(v)
            s["E"] = {id(ks): {q: float(getattr(ks.E, q)) for q in ("Eh", "Ex", "Ec") if np.size(getattr(ks.E, q, ())) == 1}
                      for ks in self.all}
        return s

    def initial(self):
        self.prev = self.snap()
        self.iters = 0
        if self.part:
            fa, fb = self.opt.get("freeze_a", False), self.opt.get("freeze_b", False)
            for ks in self.solved:
                fr = fa if any(ks is x for x in self.a) else fb
                if fr and ks.vext is not None:
                    self.frozen_vext[id(ks)] = self.kept_vext.get(id(ks), ks.vext).copy()
        if self.trace is not None and self.obj.n is not None if not self.part else False:
            self.trace.append((None, self.obj.n.copy()))

    def boundary(self, final=False):
        self.iters += 1
        s = core.active()
        if s is not None:
            s.probe("iterations_checked")
        ok = all(ks.n is not None and np.all(np.isfinite(ks.n)) for ks in self.solved)
        if ok:
            if "cons" in self.kinds:
                self.cons()
            if "energy" in self.kinds:
                self.energy()
            if "mirror" in self.kinds and self.part and self.sym:
                self.mirrored()
            if "pot" in self.kinds:
                self.potentials()
        if self.trace is not None:
            n = self.obj.nf if self.part else self.obj.n
            self.trace.append((float(self.obj.E.E), n.copy()))
        self.prev = self.snap()

    # --------------------------------------------------------------- C05
    def check_electrons(self, ks, n, where):
        c = self.conf[id(ks)]
        N = c["N"]
        if not self.fractional and not np.all(N == np.floor(N)):
            return
        if n is None or np.shape(n) != (self.g.Nelem, self.spec["pol"]):
            self.bad("shape", f"{self.name(ks)} {where}: density of shape {np.shape(n)}")
            return
        tot = N.sum(axis=0)
        self.near("electrons", f"{self.name(ks)} {where}: electrons per spin", ref.integrate(self.g, n), tot,
                  1e-9, scale=max(1.0, tot.max()))
        if not np.min(n) >= -1e-12:
            self.bad("negative", f"{self.name(ks)} {where}: density {np.min(n):.3g} < 0")

    def cons(self):
        for ks in self.all:
            if ks.n is not None:
                self.check_electrons(ks, ks.n, "mixed density")
        if not self.part or self.opt.get("from_target_density"):
            return
        p, g = self.obj, self.g
        fr = []
        for group, w in ((self.a, self.wa), (self.b, self.wb)):
            f = sum(x * ks.n for x, ks in zip(w, group))
            if self.ess:
                f = f + ref.spinflip(f)
            fr.append(f)
        top = max(np.max(fr[0]), np.max(fr[1]))
        self.near("na_frac", "ensemble density of fragment A", p.na_frac, fr[0], 1e-10, top)
        self.near("nb_frac", "ensemble density of fragment B", p.nb_frac, fr[1], 1e-10, top)
        self.near("nf", "molecular density is the sum of the fragments", p.nf, fr[0] + fr[1], 1e-10, top)
        tot = 0.0
        for ks, w in zip(self.all, self.wa + self.wb):
            t = w * self.conf[id(ks)]["N"].sum(axis=0)
            tot = tot + (t + t[::-1] if self.ess else t)
        self.near("total", "electrons of the molecular density", ref.integrate(g, p.nf), tot, 1e-9,
                  max(1.0, np.max(tot)))
        if not np.min(p.nf) >= -1e-12:
            self.bad("negative", f"molecular density {np.min(p.nf):.3g} < 0")
        Q = sum(ks.Q for ks in self.all)
        if self.ess:
            Q = Q + ref.spinflip(Q)
        mask = p.nf > 1e-20
        if not np.shape(Q) == np.shape(p.nf):
            self.bad("Q", f"weights of shape {np.shape(Q)}")
        else:
            self.near("Q", "fragment weights add up to one", Q[mask], np.ones(mask.sum()), 1e-8)
            for ks, w in zip(self.all, self.wa + self.wb):
                q = np.zeros_like(p.nf)
                q[mask] = (w * ks.n)[mask] / p.nf[mask]
                self.near("Qeach", f"weight of {self.name(ks)}", np.asarray(ks.Q)[mask], q[mask], 1e-8, 1.0)

    # --------------------------------------------------------------- C06
    def _channels(self, ks):
        c = self.conf[id(ks)]
        for i in range(c["N"].shape[0]):
            for j in range(c["N"].shape[1]):
                yield i, j, ks.solver[i, j], ref.occupations(c["N"][i, j], c["Nmo"][i, j], i,
                                                              self.spec["pol"], self.fractional)

    def ks_energy(self, ks):
        g, c = self.g, self.conf[id(ks)]
        nm = self.name(ks)
        pol = self.spec["pol"]
        Eks = np.zeros((1, pol))
        Vks = np.zeros((1, pol))
        evals = []
        u = -np.inf
        big = False
        for i, j, sol, occ in self._channels(ks):
            eig = np.asarray(sol.eig, float).ravel()
            evals.append(eig)
            if occ:
                Eks[0, j] += sum(o * e for o, e in zip(occ, eig))
                d = ref.orbital_density(g, np.asarray(sol.phi), occ)
                v = ref.integrate(g, np.asarray(sol.veff, float) * d)
                big = big or not abs(v) < 9e4
                Vks[0, j] += v
            u = max(u, ref.homo(eig, c["N"][i, j], i, pol))
        E = ks.E
        sc = max(1.0, abs(float(np.sum(Eks))), abs(float(np.sum(Vks))))
        evals = np.concatenate(evals) if evals else np.zeros(0)
        self.near("evals", f"{nm} eigenvalue list", np.sort(np.asarray(E.evals, float).ravel()), np.sort(evals), 1e-10)
        self.near("Eks", f"{nm} sum of orbital energies", np.asarray(E.Eks, float), Eks, 1e-9, sc)
        Ts = float(Eks.sum() - Vks.sum())
        if not big:
            self.near("Vks", f"{nm} orbital potential energy", np.asarray(E.Vks, float), Vks, 1e-8, sc)
            self.near("Ts", f"{nm} kinetic energy", E.Ts, Ts, 1e-8, sc)
        n = ks.n
        Enuc = ref.integrate(g, (n * c["vnuc"]).sum(axis=1))
        self.near("Enuc", f"{nm} nuclear energy", E.Enuc, Enuc, 1e-9, max(1.0, abs(Enuc)))
        given = self.spec.get("field")
        Vext = ref.integrate(g, (n * (W.field(g, self.spec["pol"], given) if given else ks.vext)).sum(axis=1))
        self.near("Vext", f"{nm} external energy", E.Vext, Vext, 1e-9, max(1.0, abs(Vext)))
        tot = float(E.Ts) + Enuc
        if self.itype == "dft":
            h = ref.hxc(g, ks.optKS, n)
            esc = max(1.0, abs(h["Eh"]), abs(h["Ex"]))
            self.near("Eh", f"{nm} Hartree energy", E.Eh, h["Eh"], 1e-8, esc)
            self.near("Ex", f"{nm} exchange energy", E.Ex, h["Ex"], 1e-8, esc)
            self.near("Ec", f"{nm} correlation energy", E.Ec, h["Ec"], 1e-8, esc)
            Vh = ref.integrate(g, (n * ks.vhxc).sum(axis=1))
            self.near("Vhxc", f"{nm} Hxc potential energy", E.Vhxc, Vh, 1e-8, max(1.0, abs(Vh)))
            tot += h["Eh"] + h["Ex"] + h["Ec"]
        Vnn = c["Z"][0] * c["Z"][1] / (2 * g.a)
        self.near("Et", f"{nm} electronic energy", E.Et, tot, 1e-8, max(1.0, abs(tot)))
        self.near("E", f"{nm} total energy", E.E, tot + Vnn, 1e-8, max(1.0, abs(tot)))
        if np.isfinite(u):
            self.near("u", f"{nm} chemical potential", ks.u, u, 1e-9, max(1.0, abs(u)))

    def energy(self):
        for ks in self.solved:
            self.ks_energy(ks)
        if self.part:
            self.part_energy()

    def part_energy(self):
        p, g = self.obj, self.g
        E = p.E
        dbl = 2.0 if self.ess else 1.0
        names = [("E", "Ef"), ("Ts", "Tsf"), ("Enuc", "Enucf")]
        if self.itype == "dft":
            names += [("Ex", "Exf"), ("Ec", "Ecf"), ("Eh", "Ehf"), ("Vhxc", "Vhxcf")]
        src = lambda ks: (self.a[[x is ks for x in self.b].index(True)] if self.sym and any(ks is x for x in self.b)
                          else ks)
        def wsum(group, w, at):
            return dbl * sum(x * float(getattr(src(ks).E, at)) for x, ks in zip(w, group))
        for at, out in names:
            va, vb = wsum(self.a, self.wa, at), wsum(self.b, self.wb, at)
            sc = max(1.0, abs(va) + abs(vb))
            self.near(out, f"fragment sum {out}", getattr(E, out), va + vb, 1e-9, sc)
            if at == "E":
                self.near("Ea", "energy of fragment A", E.Ea, va, 1e-9, sc)
                self.near("Eb", "energy of fragment B", E.Eb, vb, 1e-9, sc)
        wE = dbl * sum(x * np.asarray(src(ks).E.Eks, float)
                       for x, ks in zip(self.wa + self.wb, self.all))
        self.near("Eksf", "fragment sum of orbital energies", np.asarray(E.Eksf, float), wE, 1e-9,
                  max(1.0, np.max(np.abs(wE))))
        def flat(group):
            return np.concatenate([np.asarray(src(k).E.evals, float).ravel() for k in group])
        self.near("evals_a", "eigenvalue list of A", np.asarray(E.evals_a, float).ravel(), flat(self.a), 1e-12)
        self.near("evals_b", "eigenvalue list of B", np.asarray(E.evals_b, float).ravel(), flat(self.b), 1e-12)
        # the partition energy
        for q in ("Ep", "Ep_pot", "Ep_kin", "Ep_hxc", "E", "Et"):
            if np.size(getattr(E, q)) != 1:
                self.bad(q + "_number", f"{q} is not a number but has shape {np.shape(getattr(E, q))}")
                return
        parts = [float(E.Ep_pot), float(E.Ep_kin), float(E.Ep_hxc)]
        sc = max(1.0, sum(abs(x) for x in parts))
        self.near("Ep", "partition energy is the sum of its parts", float(E.Ep), sum(parts), 1e-9, sc)
        self.near("Et", "molecular electronic energy", float(E.Et), float(E.Ef) + float(E.Ep), 1e-9,
                  max(1.0, abs(float(E.Ef))))
        Vnn = self.spec["Za"] * self.spec["Zb"] / (2 * g.a)
        self.near("E", "molecular energy", float(E.E), float(E.Et) + Vnn, 1e-9, max(1.0, abs(float(E.Et))))
        if self.iso:
            self.near("Ep_iso", "partition energy of isolated fragments", float(E.Ep), 0.0, 1e-12, 1.0)
            return
        va, vb = ref.coulomb(g, self.spec["Za"], 0), ref.coulomb(g, 0, self.spec["Zb"])
        ep = ref.integrate(g, p.na_frac.sum(axis=1) * vb) + ref.integrate(g, p.nb_frac.sum(axis=1) * va)
        self.near("Ep_pot", "nuclear partition energy", float(E.Ep_pot), ep, 1e-9, max(1.0, abs(ep)))
        self.part_kin(E)
        self.part_hxc(E)

    def either(self, key, what, value, options, tol, scale):
        """The value may belong to the densities before or after mixing."""
        self.checks += 1
        ds = [_rel(value, o, scale) for o in options]
        if not min(ds) <= tol:
            self.bad(key, f"{what}: {_brief(value)} instead of {_brief(options[0])} (relative difference {min(ds):.3g})")

    def part_kin(self, E):
        o, g, p = self.spec["opt"], self.g, self.obj
        kind = o.get("kinetic_part_type", "vonweiz")
        dbl = 2.0 if self.ess else 1.0
        if kind == "none":
            self.near("Ep_kin", "kinetic partition energy", float(E.Ep_kin), 0.0, 1e-12, 1.0)
        elif kind == "vonweiz":
            def vw(n):
                s = np.sqrt(np.maximum(n.sum(axis=1), 0))
                return float(2 * np.pi * g.hr * g.ha * np.sum(g.wi * s * (-0.5 * (g.elap @ s))))
            t = vw(p.nf) - dbl * sum(w * vw(ks.n) for ks, w in zip(self.all, self.wa + self.wb))
            self.near("Ep_kin", "kinetic partition energy", float(E.Ep_kin), t, 1e-8, max(1.0, abs(vw(p.nf))))
        elif kind == "libxcke" and self.prev and "nf" in self.prev:
            fam, fid = o.get("k_family", "gga"), o.get("ke_func_id", 5)
            opts, sc = [], 1.0
            for get, nf in ((lambda k: self.prev[id(k)]["n"], self.prev["nf"]), (lambda k: k.n, p.nf)):
                m = ref.xc(g, fam, fid, nf)[0]
                fr = [dbl * w * ref.xc(g, fam, fid, get(k))[0] for k, w in zip(self.all, self.wa + self.wb)]
                opts.append(m - sum(fr))
                sc = max(sc, abs(m), *map(abs, fr))
            self.either("Ep_kin", "kinetic partition energy", float(E.Ep_kin), opts, 1e-7, sc)
        elif kind == "twoorbital" and self.spec["pol"] == 1:
            T = lambda x: ref.integrate(g, (x * (-0.5 * (g.elap @ x)) / g.w))       # noqa: E731
            with np.errstate(all="ignore"):
                n1, n2 = p.na_frac[:, 0], p.nb_frac[:, 0]
                diff = np.sqrt(n1) - np.sqrt(n2)
                p1 = diff * np.sqrt(ref.integrate(g, n1 + n2) / 2 / ref.integrate(g, diff ** 2))
                m = T(p1) + T(np.sqrt(n1 + n2 - p1 ** 2))
            t = m - sum(w * T(np.sqrt(ks.n.sum(axis=1))) for ks, w in zip(self.all, self.wa + self.wb))
            if np.isfinite(t) or np.isfinite(float(E.Ep_kin)):
                self.near("Ep_kin", "kinetic partition energy", float(E.Ep_kin), t, 1e-8, max(1.0, abs(m)))
        elif kind == "inversion" and not p.optPartition.isolated and p.inverter is not None:
            m, sc, ess = 0.0, 1.0, p.inverter.optInv.ens_spin_sym is True
            for (_, j), sol in np.ndenumerate(p.inverter.solver):
                if sol.phi is None or sol.eig is None:
                    return
                if j and ess:
                    continue
                occ = ref.occupations(sol.N, sol.Nmo, sol.m, sol.pol, sol.optSolver.fractional)
                e = sum(o * x for o, x in zip(occ, np.ravel(sol.eig)))
                v = ref.integrate(g, np.ravel(sol.veff) * ref.orbital_density(g, np.asarray(sol.phi), occ)) if occ else 0.0
                if not abs(v) < 9e4:
                    return
                m += (2 if ess else 1) * float(e - v)
                sc = max(sc, abs(float(e)), abs(float(v)))
            t = m - dbl * sum(w * float(ks.E.Ts) for ks, w in zip(self.all, self.wa + self.wb))
            self.near("Ep_kin", "kinetic partition energy", float(E.Ep_kin), t, 1e-7, sc)

    def part_hxc(self, E):
        o, g, p = self.spec["opt"], self.g, self.obj
        if self.itype == "ni":
            self.near("Ep_hxc", "Hxc partition energy", float(E.Ep_hxc), 0.0, 1e-12, 1.0)
            return
        h = ref.hxc(g, p.optPartition, p.nf)
        self.near("Ep_h", "Hartree partition energy", float(E.Ep_h), h["Eh"] - float(E.Ehf), 1e-7, max(1.0, h["Eh"]))
        hp = ref.hxc(g, p.optPartition, self.prev["nf"]) if self.prev and "nf" in self.prev else h
        for q, f in (("Ex", "Exf"), ("Ec", "Ecf")):
            name = "Ep_" + q[1]
            self.either(name, f"{name}", float(getattr(E, name)),
                        [hp[q] - float(getattr(E, f)), h[q] - float(getattr(E, f))], 1e-7, max(1.0, abs(h["Ex"]), abs(hp["Ex"])))
        kind = o.get("hxc_part_type", "exact")
        if kind.startswith("overlap"):
            S = ref.integrate(g, np.sqrt(p.na_frac.sum(axis=1) * p.nb_frac.sum(axis=1)))
            self.near("S", "overlap of the fragments", float(E.S), S, 1e-9, max(1.0, abs(S)))
            self.near("F", "overlap measure", float(E.F), float(scipy.special.erf(2 * S)), 1e-9, 1.0)
        s = float(E.Ep_h) + float(E.Ep_x) + float(E.Ep_c)
        if kind == "exact":
            self.near("Ep_hxc", "Hxc partition energy", float(E.Ep_hxc), s, 1e-9, max(1.0, abs(s)))
        elif kind == "hartree":
            self.near("Ep_hxc", "Hxc partition energy", float(E.Ep_hxc), float(E.Ep_h), 1e-9, max(1.0, abs(s)))
        elif kind == "overlap_xc":
            t = float(E.Ep_h) + float(E.F) * (float(E.Ep_x) + float(E.Ep_c))
            self.near("Ep_hxc", "Hxc partition energy", float(E.Ep_hxc), t, 1e-9, max(1.0, abs(t)))
        elif kind in ("overlap_hxc", "overlap_hxc_2"):
            t = float(E.F) * s + (1 - float(E.F)) * float(E.Ehcor)
            self.near("Ep_hxc", "Hxc partition energy", float(E.Ep_hxc), t, 1e-9, max(1.0, abs(t)))

    # --------------------------------------------------------------- C07
    def mirrored(self):
        p, g = self.obj, self.g
        for ka, kb in zip(self.a, self.b):
            na, nb = self.name(ka), self.name(kb)
            for at in ("n", "Q", "veff", "vext"):
                x, y = getattr(ka, at), getattr(kb, at)
                if x is None or y is None:
                    self.bad("missing", f"{nb}.{at} is missing")
                    continue
                self.near("mirror_" + at, f"{nb}.{at} is the mirror image of {na}.{at}", y, ref.mirror(g, x), 1e-12)
            for at in ("vx", "vc", "vh", "vp", "ex", "ec", "eh"):
                if hasattr(ka.V, at):
                    if not hasattr(kb.V, at):
                        self.bad("missing", f"{nb}.V.{at} is missing")
                        continue
                    self.near("mirror_" + at, f"{nb}.V.{at} is the mirror image of {na}.V.{at}",
                              getattr(kb.V, at), ref.mirror(g, getattr(ka.V, at)), 1e-12)
            for at, x in vars(ka.E).items():
                if isinstance(x, (int, float, np.floating, np.ndarray)) and at != "evals" or at == "evals":
                    self.near("mirror_E", f"{nb}.E.{at}", np.asarray(getattr(kb.E, at, np.nan), float),
                              np.asarray(x, float), 1e-13)
            self.near("mirror_u", f"{nb}.u", kb.u, ka.u, 1e-13, max(1e-300, abs(ka.u)))
            self.aliases(ka, kb)
        if not self.opt.get("from_target_density"):
            self.near("sym_nf", "molecular density is mirror symmetric", p.nf, ref.mirror(g, p.nf), 1e-10)
        if not self.iso and hasattr(p.V, "vp") and self.prev:
            self.near("sym_vp", "partition potential is mirror symmetric", p.V.vp, ref.mirror(g, p.V.vp), 1e-10)

    def aliases(self, ka, kb):
        for at in ("n", "Q", "veff", "vext"):
            self._alias(getattr(ka, at), getattr(kb, at), f"{self.name(kb)}.{at}")
        for at in ("vx", "vc", "vh", "vp", "ex", "ec", "eh"):
            self._alias(getattr(ka.V, at, None), getattr(kb.V, at, None), f"{self.name(kb)}.V.{at}")
        self.checks += 1
        if ka.E is kb.E:
            self.bad("alias", f"{self.name(kb)}.E is the same object as {self.name(ka)}.E")

    def _alias(self, x, y, what):
        self.checks += 1
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray) and np.shares_memory(x, y):
            self.bad("alias", f"{what} shares memory with fragment A's")

    # --------------------------------------------------------------- C15
    def hxc_of(self, ks, n):
        if self.itype == "ni":
            return {k: np.zeros_like(n) for k in ("v", "vh", "vx", "vc")}
        h = ref.hxc(self.g, ks.optKS, n)
        if self.spec["opt"].get("sym"):
            h["v"] = 0.5 * (h["v"] + ref.mirror(self.g, h["v"]))
        return h

    def potentials(self):
        g, p = self.g, self.obj
        if not self.prev or any(id(k) not in self.prev for k in self.solved):
            return
        hx = {}
        for ks in self.all:
            if id(ks) in self.prev:
                hx[id(ks)] = self.hxc_of(ks, self.prev[id(ks)]["n"])
        vscale = {}
        for ks in self.solved:
            nm, c = self.name(ks), self.conf[id(ks)]
            sc = np.max(np.abs(c["vnuc"])) + 1.0
            vscale[id(ks)] = sc
            self.near("vhxc", f"{nm} Hxc potential", ks.vhxc, hx[id(ks)]["v"], 1e-8,
                      1.0 + np.max(np.abs(hx[id(ks)]["v"])))
            self.near("veff", f"{nm} effective potential", ks.veff, c["vnuc"] + ks.vext + ks.vhxc, 1e-10, sc)
            for i, j, sol, occ in self._channels(ks):
                self.near("solver_veff", f"{nm} potential of channel ({i},{j})", np.asarray(sol.veff).ravel(),
                          ks.veff[:, j], 1e-10, sc)
        if not self.part and self.spec.get("field"):
            self.near("vext", "external potential", self.obj.vext, W.field(g, self.spec["pol"], self.spec["field"]), 1e-13, 1.0)
        if not self.part:
            return
        mode = "iso" if self.iso else self.opt.get("calc_type", "pdft")
        for ks in self.solved:
            nm = self.name(ks)
            if id(ks) in self.frozen_vext:
                self.near("frozen", f"embedding potential of frozen {nm}", ks.vext, self.frozen_vext[id(ks)], 1e-13,
                          1.0)
                continue
            if mode == "iso":
                self.near("iso", f"embedding potential of isolated {nm}", ks.vext, np.zeros_like(ks.n), 1e-13, 1.0)
            else:
                want = p.V.vp if mode == "pdft" else ks.V.vp
                self.near("vext", f"embedding potential of {nm} ({mode})", ks.vext, want, 1e-12,
                          1.0 + np.max(np.abs(np.nan_to_num(want))))
        if mode == "iso":
            return
        self.embedding(hx)

    def overlap(self, kind, hx):
        """The overlap approximation's Hxc part of a fragment's own potential (None: cannot be told)."""
        g, p, prev = self.g, self.obj, self.prev
        if self.iters < 2 or self.itype == "ni" or prev.get("na_frac") is None:
            return None             # the first iteration uses the energies of an earlier run
        E = prev["E"]
        # (a mirrored B's energies are those of A)
        pairs = [(w, ks) for w, ks in zip(self.wa + self.wb, (self.a + self.a) if self.sym else self.all)]
        if any(len(E[id(ks)]) < 3 for _, ks in pairs):
            return None
        h = ref.hxc(g, p.optPartition, prev["nf"])
        dbl = 2.0 if self.ess else 1.0
        ep = {q: h[q] - dbl * sum(w * E[id(ks)][q] for w, ks in pairs) for q in ("Eh", "Ex", "Ec")}
        na, nb = prev["na_frac"], prev["nb_frac"]
        S = ref.integrate(g, np.sqrt(na.sum(axis=1) * nb.sum(axis=1)))
        F = scipy.special.erf(2 * S)
        partner = {}
        if kind == "overlap_hxc":
            if not self.ens:
                return None
            partner = {id(self.a[0]): self.b[1], id(self.a[1]): self.b[0], id(self.b[0]): self.a[1], id(self.b[1]): self.a[0]}
            if any(id(k) not in hx for k in self.all):
                return None
            cor = sum(self.weight[id(k)] * 0.5 * ref.integrate(g, (prev[id(k)]["n"] * hx[id(partner[id(k)])]["vh"]).sum(axis=1))
                      for k in self.all)

        def mix(ks, d):
            x, y = (nb, na) if any(ks is k for k in self.a) else (na, nb)
            dS = self.weight[id(ks)] * 0.5 * np.sqrt(x / y)
            dS[~np.isfinite(dS)] = 0.0
            dF = 2 / np.sqrt(np.pi) * np.exp(-(2 * S) ** 2) * 2 * dS
            if kind == "overlap_xc":
                return d["vh"] + F * (d["vx"] + d["vc"]) + (ep["Ex"] + ep["Ec"]) * dF
            return F * (d["vh"] + d["vx"] + d["vc"]) + (ep["Eh"] + ep["Ex"] + ep["Ec"]) * dF \
                + (1 - F) * hx[id(partner[id(ks)])]["vh"] + cor * dF
        return mix

    def embedding(self, hx):
        """Every fragment's own embedding potential, and their average, from the parts."""
        g, p, o = self.g, self.obj, self.spec["opt"]
        kind, hk = o.get("kinetic_part_type", "vonweiz"), o.get("hxc_part_type", "exact")
        if o.get("vp_calc_type", "component") != "component" or "nf" not in self.prev:
            return
        nf = self.prev["nf"]
        vmol = ref.coulomb(g, self.spec["Za"], self.spec["Zb"])[:, None]
        exact = kind in ("none", "vonweiz", "libxcke", "twoorbital") and hk in ("exact", "hartree", "overlap_xc", "overlap_hxc")
        own = {}
        mix = None
        if exact and hk.startswith("overlap"):
            mix = self.overlap(hk, hx)
            exact = mix is not None
        if exact:
            hm = self.hxc_of(self.all[0], nf) if self.itype != "ni" else None
            with np.errstate(all="ignore"):
                if kind == "vonweiz":
                    tk = lambda n: (-0.5 * (g.elap @ np.sqrt(n))) / np.sqrt(n) / g.w[:, None]
                    tm = tk(nf)
                elif kind == "libxcke":
                    fam, fid = o.get("k_family", "gga"), o.get("ke_func_id", 5)
                    tk = lambda n: ref.xc(g, fam, fid, n)[1]
                    tm = tk(nf)
                elif kind == "twoorbital":
                    if self.ens or self.spec["pol"] != 1 or self.prev["na_frac"] is None:
                        return
                    two = ref.two_orbital(g, self.prev["na_frac"][:, 0], self.prev["nb_frac"][:, 0])
                for ks in self.all:
                    c = self.conf[id(ks)]
                    if id(ks) not in self.prev:
                        return
                    v = vmol - c["vnuc"]
                    if kind == "twoorbital":
                        n = self.prev[id(ks)]["n"]
                        d = (two[0] if ks is self.a[0] else two[1])[:, None] \
                            - (-0.5 * (g.elap @ np.sqrt(n))) / (2 * g.w[:, None] * np.sqrt(n))
                        d[np.isnan(d)] = 0.0
                        v = v + d
                    elif kind != "none":
                        t = tk(self.prev[id(ks)]["n"])
                        if kind == "vonweiz":
                            t = np.nan_to_num(t, nan=0.0, posinf=0.0, neginf=0.0)
                        d = tm - t
                        d[np.isnan(d)] = 0.0
                        v = v + d
                    if self.itype != "ni":
                        h = {k: hm[k] - hx[id(ks)][k] for k in ("vh", "vx", "vc")}
                        if mix is not None:
                            v = v + mix(ks, h)
                        else:
                            v = v + (h["vh"] if hk == "hartree" else h["vh"] + h["vx"] + h["vc"])
                    own[id(ks)] = v
            for ks in self.all:
                v = own[id(ks)]
                sc = 1.0 + np.median(np.abs(v))
                # compared where the density is not negligible (elsewhere rounding rules)
                m = self.prev[id(ks)]["n"] > 1e-10
                self.near("own_vp", f"own embedding potential of {self.name(ks)}",
                          self.own_vp.get(id(ks), np.asarray(ks.V.vp))[m], v[m],
                          1e-6, max(sc, np.max(np.abs(v[m])) if m.any() else 1.0))
        # the shared one is the weighted average of the fragments' own
        with np.errstate(all="ignore"):
            avg = sum(self.own_vp.get(id(ks), np.asarray(ks.V.vp)) * self.prev[id(ks)]["Q"] for ks in self.all)
            if self.ess:
                avg = avg + ref.spinflip(avg)
            if self.sym:
                avg = 0.5 * (avg + ref.mirror(g, avg))
        sc = 1.0 + np.max(np.abs(np.nan_to_num(avg, posinf=0, neginf=0)))
        tol = 1e-9
        if self.sym and len(self.own_vp) < len(self.all):
            # B's own potential was since replaced by A's mirror image
            vt = np.nan_to_num(np.asarray(p.V.vt, float), posinf=0, neginf=0)
            tol += 1e-6 + 2 * np.max(np.abs(vt - ref.mirror(g, vt))) / sc
        self.near("shared_vp", "shared partition potential is the weighted average", p.V.vp, avg, tol, sc)

    # --------------------------------------------------------------- C01
    def check_orbitals(self, ks):
        """Every channel holds eigenpairs of its own Hamiltonian."""
        for i, j, sol, occ in self._channels(ks):
            k = int(self.conf[id(ks)]["Nmo"][i, j])
            if k == 0:
                continue
            phi, eig = np.asarray(sol.phi), np.asarray(sol.eig, float).ravel()
            if phi.shape != (self.g.Nelem, k) or eig.shape != (k,):
                self.bad("channel_shape", f"{self.name(ks)} channel ({i},{j}): {phi.shape[1:]} orbitals, {eig.shape} eigenvalues for {k}")


def _brief(x):
    a = np.asarray(x)
    if a.size == 1:
        try:
            return f"{float(a.ravel()[0]):.10g}"
        except (TypeError, ValueError):
            return repr(x)[:60]
    if a.size <= 4:
        return np.array2string(a.ravel(), precision=9)
    return f"array{a.shape} max {np.nanmax(np.abs(a.astype(float))):.6g}"
