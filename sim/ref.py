"""Independent reference formulas and a sequential Kohn-Sham model.

Nothing here calls the code under test except to read the grid's arrays (weights,
coordinates, discretised Laplacians: properties N01/N02 are not claimed).
"""
import numpy as np
import scipy.linalg
import scipy.special


def _raw(fn):
    """scipy functions behind the simulator's seams: use the real one."""
    return getattr(fn, "__wrapped__", fn)


def integrate(g, f):
    """One number per column (or one number for a vector)."""
    f = np.asarray(f, float)
    c = 2 * np.pi * g.hr * g.ha * g.wi * g.w
    return float(c @ f) if f.ndim == 1 else c @ f


def mirror(g, f):
    f = np.asarray(f)
    a = f.reshape((g.Na, g.Nr) + f.shape[1:], order="F")
    return a[::-1].reshape(f.shape, order="F")


def spinflip(f):
    return f[:, ::-1] if np.ndim(f) == 2 else f


def coulomb(g, Za, Zb):
    ch, co = np.cosh(g.Xr), np.cos(g.Xa)
    return -((Za + Zb) * ch - (Za - Zb) * co) / (ch * ch - co * co) / g.a


_lap = {}


def v_hartree(g, n):
    """Hartree potential of a density (columns summed), one column."""
    n = np.asarray(n, float)
    if n.ndim == 2:
        n = n.sum(axis=1)
    z, rho = g.a * np.cosh(g.Xr) * np.cos(g.Xa), g.a * np.sqrt(np.cosh(g.Xr) ** 2 + np.cos(g.Xa) ** 2 - 1)
    bz, brho = g.a * np.cosh(g.bXr) * np.cos(g.bXa), g.a * np.sqrt(np.cosh(g.bXr) ** 2 + np.cos(g.bXa) ** 2 - 1)
    bv = 0.0
    for k in range(8):
        q = integrate(g, rho ** k * scipy.special.eval_legendre(k, z / rho) * n)
        bv = bv + q * scipy.special.eval_legendre(k, bz / brho) / brho ** (k + 1)
    b = -4 * np.pi * g.w * n
    bq = (g.blap @ bv).reshape(g.Na, g.bcN, order="F")
    b = b.reshape(g.Na, g.Nr, order="F").copy()
    b[:, -g.bcN:] -= bq
    key = id(g)
    ent = _lap.get(key)
    if ent is None or ent[0] is not g:
        L = _dense(g.elap)
        ent = _lap[key] = (g, scipy.linalg.lu_factor(L))
    return scipy.linalg.lu_solve(ent[1], b.reshape(-1, order="F"))


def _dense(m):
    return np.asarray(m.todense()) if hasattr(m, "todense") else np.asarray(m)


def drop():
    _lap.clear()
    _eig.clear()


def xc(g, family, func, n):
    """(energy, potential) of one functional, from libxc directly."""
    from pylibxc import LibXCFunctional
    pol = n.shape[1]
    f = LibXCFunctional(func, pol)
    ing = {"rho": n.copy()}
    if family == "gga":
        ga, gr = _dot(g.grada, n), _dot(g.gradr, n)
        if pol == 1:
            ing["sigma"] = ga ** 2 + gr ** 2
        else:
            ing["sigma"] = np.stack([ga[:, 0] ** 2 + gr[:, 0] ** 2,
                                     ga[:, 0] * ga[:, 1] + gr[:, 0] * gr[:, 1],
                                     ga[:, 1] ** 2 + gr[:, 1] ** 2], axis=1)
    out = f.compute(ing)
    eps = np.asarray(out["zk"]).reshape(-1, 1)
    e = integrate(g, (eps * n).sum(axis=1))
    v = np.array(out["vrho"], float).reshape(-1, pol)
    if family == "gga":
        vs = np.asarray(out["vsigma"])
        if pol == 1:
            vs = vs.reshape(-1, 1)
            v = v - 2 * (_dot(g.diva, vs * ga) + _dot(g.divr, vs * gr))
        else:
            for s, t, c in ((0, 1, 0), (1, 0, 2)):
                v[:, s] = v[:, s] - 2 * (_dot(g.diva, vs[:, c] * ga[:, s]) + _dot(g.divr, vs[:, c] * gr[:, s])) \
                    - (_dot(g.diva, vs[:, 1] * ga[:, t]) + _dot(g.divr, vs[:, 1] * gr[:, t]))
    return e, v


def _dot(A, x):
    return A @ x


def hxc(g, opt, n):
    """Dict with eh, ex, ec, v (pol columns), vh, vx, vc for a KS option record."""
    pol = n.shape[1]
    vh = v_hartree(g, n)
    ex, vx = xc(g, opt.xc_family, opt.xfunc_id, n)
    ec, vc = xc(g, opt.xc_family, opt.cfunc_id, n)
    vh2 = np.repeat(vh[:, None], pol, axis=1)
    return {"Eh": 0.5 * integrate(g, n.sum(axis=1) * vh), "Ex": ex, "Ec": ec,
            "vh": vh2, "vx": vx, "vc": vc, "v": vh2 + vx + vc}


def two_orbital(g, n1, n2):
    """Derivatives of the two-orbital kinetic energy with respect to the two fragment densities."""
    T = lambda x: (-0.5 * (g.elap @ x)) / g.w
    with np.errstate(all="ignore"):
        diff = np.sqrt(n1) - np.sqrt(n2)
        C = integrate(g, diff ** 2)
        p1 = diff / np.sqrt(C)
        p2 = np.sqrt((n1 + n2) / 2 - p1 ** 2)
        t1, t2 = T(p1), T(p2)
        out = []
        for s, n in ((1, n1), (-1, n2)):
            r = 1 / np.sqrt(C * n)
            i1 = integrate(g, p1 * t1)
            i2 = integrate(g, p1 ** 2 / p2 * t2)
            out.append(2 * (s * 0.5 * r * (t1 - p1 * i1) + t2 * ((0.25 - s * 0.5 * r * p1) / p2) + s * 0.5 * p1 * r * i2))
    return out


# ------------------------------------------------------------------ orbitals
def hamiltonian(g, m, veff):
    """Dense H and the diagonal of the overlap: H phi = eps W phi."""
    lap = g.elap if m % 2 == 0 else g.olap
    H = -0.5 * _dense(lap) + np.diag(g.w * (m * m * g.f + veff))
    return H


_eig = {}


def eigen(g, m, veff, k):
    """The k lowest eigenpairs by dense diagonalisation."""
    key = (id(g), m, k, veff.tobytes())
    r = _eig.get(key)
    if r is None:
        H = hamiltonian(g, m, veff) / g.w[:, None]
        w, v = scipy.linalg.eig.__wrapped__(H) if hasattr(scipy.linalg.eig, "__wrapped__") \
            else scipy.linalg.eig(H)
        order = np.argsort(w.real)[:k]
        if len(_eig) > 200:
            _eig.clear()
        r = _eig[key] = (w.real[order].copy(), v[:, order].real.copy())
    return r


def are_lowest(e, spectrum, k, e0, tol=1e-7):
    """e: the k lowest eigenvalues - or, if the spectrum reaches below the solver's
    estimate e0 of the lowest one, k different ones of them."""
    if e.shape != (k,):
        return False
    sc = max(1.0, np.max(np.abs(spectrum[:k])))
    if np.max(np.abs(e - spectrum[:k])) <= tol * sc:
        return True
    if spectrum[0] > e0:
        return False
    used = set()
    for x in e:
        d = np.abs(spectrum - x)
        if used:
            d[list(used)] = np.inf
        i = int(np.argmin(d))
        if d[i] > tol * max(1.0, abs(x)):
            return False
        used.add(i)
    return True


def occupations(N, Nmo, m, pol, fractional):
    """Number of electrons in each orbital of a channel."""
    full = (2.0 if pol == 1 else 1.0) * (1.0 if m == 0 else 2.0)
    x = N / full
    occ = [full] * int(np.floor(x))
    if fractional and x != np.floor(x):
        occ.append((x - np.floor(x)) * full)
    return occ


def orbital_density(g, phi, occ):
    n = np.zeros(g.Nelem)
    for i, o in enumerate(occ):
        p = phi[:, i] ** 2
        n += o * p / integrate(g, p)
    return n


def homo(eig, N, m, pol):
    full = (2.0 if pol == 1 else 1.0) * (1.0 if m == 0 else 2.0)
    k = int(np.ceil(N / full))
    return -np.inf if k == 0 else float(eig[k - 1])


# ------------------------------------------------------- sequential KS model
class _Opt:
    def __init__(self, d):
        self.interaction_type = d.get("interaction_type", "dft")
        self.sym = d.get("sym", False)
        self.fractional = d.get("fractional", False)
        self.xfunc_id = d.get("xfunc_id", 1)
        self.cfunc_id = d.get("cfunc_id", 12)
        self.xc_family = d.get("xc_family", "lda")


class KSModel:
    """Plain sequential Kohn-Sham SCF with dense diagonalisation."""

    def __init__(self, g, spec, ext=None):
        self.g, self.s, self.o = g, spec, _Opt(spec["opt"])
        self.N, self.Nmo = np.array(spec["N"], float), np.array(spec["Nmo"])
        self.pol = spec["pol"]
        v = coulomb(g, spec["Za"], spec["Zb"])
        self.vnuc = np.repeat(v[:, None], self.pol, axis=1)
        if self.o.sym:
            self.vnuc = 0.5 * (self.vnuc + mirror(g, self.vnuc))
        self.vext = np.zeros_like(self.vnuc) if ext is None else ext
        self.trace = []

    def density(self, veff):
        self.chan = {}
        n = np.zeros((self.g.Nelem, self.pol))
        for i in range(self.Nmo.shape[0]):
            for j in range(self.Nmo.shape[1]):
                occ = occupations(self.N[i, j], self.Nmo[i, j], i, self.pol, self.o.fractional)
                if self.Nmo[i, j] == 0:
                    continue
                e, p = eigen(self.g, i, np.ascontiguousarray(veff[:, j]), int(self.Nmo[i, j]))
                d = orbital_density(self.g, p, occ)
                n[:, j] += d
                self.chan[i, j] = (e, occ, d)
        if self.o.sym:
            n = 0.5 * (n + mirror(self.g, n))
        return n

    def scf(self, e_tol=1e-5, alpha=0.5, maxiter=100, start=None):
        g = self.g
        n = self.density(self.vnuc + self.vext) if start is None else start
        old_E, old_n, it, diff = 0.0, np.zeros_like(n), 1, 10.0
        while not diff <= e_tol and it < maxiter:
            if self.o.interaction_type == "ni":
                vh = np.zeros_like(n)
            else:
                vh = hxc(g, self.o, n)["v"]
                if self.o.sym:
                    vh = 0.5 * (vh + mirror(g, vh))
            veff = self.vnuc + self.vext + vh
            n = (1 - alpha) * n + alpha * self.density(veff)
            Ts = 0.0
            u = -np.inf
            for (i, j), (e, occ, d) in self.chan.items():
                Ts += sum(o * x for o, x in zip(occ, e)) - integrate(g, veff[:, j] * d)
                u = max(u, homo(e, self.N[i, j], i, self.pol))
            E = Ts + integrate(g, (n * self.vnuc).sum(axis=1)) + self.s["Za"] * self.s["Zb"] / (2 * g.a)
            if self.o.interaction_type != "ni":
                h = hxc(g, self.o, n)
                E += h["Eh"] + h["Ex"] + h["Ec"]
            diff = max(abs((E - old_E) / E),
                       np.max(integrate(g, abs(n - old_n)) / integrate(g, abs(n)))
                       if np.all(integrate(g, abs(n)) > 0) else
                       np.nanmax(integrate(g, abs(n - old_n)) /
                                 np.where(integrate(g, abs(n)) > 0, integrate(g, abs(n)), np.nan)))
            old_E, old_n = E, n
            it += 1
            self.trace.append(E)
        self.E, self.u, self.n, self.iters, self.diff = E, u, n, it - 1, diff
        return self
