"""Stand-in for pylibxc, which cannot be had in this sandbox.

Plain numpy versions of the few functionals the simulated workloads ask for,
behind the part of pylibxc's interface that CADMium uses:

    LibXCFunctional(func_id, spin).compute({"rho": ..., "sigma": ...})
        -> {"zk": (np,1), "vrho": (np,nspin), "vsigma": (np,1|3)}

The energy densities are written once, as analytic functions, and every
derivative is taken by the complex-step rule, so vrho and vsigma are the
derivatives of zk to rounding error.

ids: 1 LDA_X, 7 LDA_C_VWN, 12 LDA_C_PW, 13 LDA_C_PW_MOD, 50 LDA_K_TF,
     101 GGA_X_PBE, 130 GGA_C_PBE, 500 GGA_K_VW, 5 (repository default for
     ke_func_id) LDA_C_GL is not provided.
"""
import numpy as np

DENS = 1e-18        # below this total density everything is zero, as in libxc
H = 1e-30           # complex step
calls = 0           # how many times compute() ran (read by the simulator)

_PI = np.pi
_CX = 0.75 * (3.0 / _PI) ** (1.0 / 3.0)
_FZ2 = 1.709920934161365617563962776245


def _pw_g(rs, A, a1, b1, b2, b3, b4):
    q0 = -2.0 * A * (1.0 + a1 * rs)
    s = np.sqrt(rs)
    q1 = 2.0 * A * (b1 * s + b2 * rs + b3 * rs * s + b4 * rs * rs)
    return q0 * np.log(1.0 + 1.0 / q1)


def _zeta(ra, rb):
    n = ra + rb
    op, om = 2.0 * ra / n, 2.0 * rb / n          # 1+zeta, 1-zeta
    op = np.where(op.real < 1e-12, 1e-12 + 0j, op)
    om = np.where(om.real < 1e-12, 1e-12 + 0j, om)
    return n, op, om


def _pw(ra, rb, mod):
    n, op, om = _zeta(ra, rb)
    rs = (3.0 / (4.0 * _PI * n)) ** (1.0 / 3.0)
    if mod:
        A = (0.0310907, 0.01554535, 0.0168869)
        fz2 = _FZ2
    else:
        A = (0.031091, 0.015545, 0.016887)
        fz2 = 1.709921
    if mod:
        A = (0.0310906908696549, 0.01554534543482745, 0.0168868639404055)
    e0 = _pw_g(rs, A[0], 0.21370, 7.5957, 3.5876, 1.6382, 0.49294)
    e1 = _pw_g(rs, A[1], 0.20548, 14.1189, 6.1977, 3.3662, 0.62517)
    ac = -_pw_g(rs, A[2], 0.11125, 10.357, 3.6231, 0.88026, 0.49671)
    z = 0.5 * (op - om)
    f = (op ** (4.0 / 3.0) + om ** (4.0 / 3.0) - 2.0) / (2.0 ** (4.0 / 3.0) - 2.0)
    z4 = z ** 4
    return e0 + ac * f / fz2 * (1.0 - z4) + (e1 - e0) * f * z4


def _vwn_g(x, A, x0, b, c):
    X = x * x + b * x + c
    X0 = x0 * x0 + b * x0 + c
    Q = np.sqrt(4.0 * c - b * b)
    t = np.arctan(Q / (2.0 * x + b))
    return A * (np.log(x * x / X) + 2.0 * b / Q * t
                - b * x0 / X0 * (np.log((x - x0) ** 2 / X)
                                 + 2.0 * (b + 2.0 * x0) / Q * t))


def _lda_x(ra, rb):
    n, op, om = _zeta(ra, rb)
    return -_CX * n ** (1.0 / 3.0) * 0.5 * (op ** (4.0 / 3.0) + om ** (4.0 / 3.0))


def _lda_c_vwn(ra, rb):
    n, op, om = _zeta(ra, rb)
    x = (3.0 / (4.0 * _PI * n)) ** (1.0 / 6.0)
    e0 = _vwn_g(x, 0.0310907, -0.10498, 3.72744, 12.9352)
    e1 = _vwn_g(x, 0.01554535, -0.32500, 7.06042, 18.0578)
    ac = _vwn_g(x, -1.0 / (6.0 * _PI ** 2), -0.0047584, 1.13107, 13.0045)
    z = 0.5 * (op - om)
    f = (op ** (4.0 / 3.0) + om ** (4.0 / 3.0) - 2.0) / (2.0 ** (4.0 / 3.0) - 2.0)
    z4 = z ** 4
    return e0 + ac * f / _FZ2 * (1.0 - z4) + (e1 - e0) * f * z4


def _lda_k_tf(ra, rb):
    n, op, om = _zeta(ra, rb)
    cf = 0.3 * (3.0 * _PI ** 2) ** (2.0 / 3.0)
    return cf * n ** (2.0 / 3.0) * 0.5 * (op ** (5.0 / 3.0) + om ** (5.0 / 3.0))


def _gga_x_pbe(ra, rb, saa, sab, sbb):
    mu, kappa = 0.2195149727645171, 0.8040
    out = 0.0
    for r, s in ((ra, saa), (rb, sbb)):
        rho, sig = 2.0 * r, 4.0 * s
        kf2 = (3.0 * _PI ** 2 * rho) ** (2.0 / 3.0)
        s2 = sig / (4.0 * kf2 * rho * rho)
        F = 1.0 + kappa - kappa / (1.0 + mu * s2 / kappa)
        e = -_CX * rho ** (4.0 / 3.0) * F
        out = out + 0.5 * np.where(r.real > DENS, e, 0.0)
    return out / (ra + rb)


def _gga_c_pbe(ra, rb, saa, sab, sbb):
    beta, gamma = 0.06672455060314922, (1.0 - np.log(2.0)) / _PI ** 2
    n, op, om = _zeta(ra, rb)
    sig = saa + 2.0 * sab + sbb
    ec = _pw(ra, rb, True)
    phi = 0.5 * (op ** (2.0 / 3.0) + om ** (2.0 / 3.0))
    kf = (3.0 * _PI ** 2 * n) ** (1.0 / 3.0)
    ks2 = 4.0 * kf / _PI
    t2 = sig / (4.0 * phi ** 2 * ks2 * n * n)
    ex = np.exp(np.minimum((-ec / (gamma * phi ** 3)).real, 500.0)
                + 1j * (-ec / (gamma * phi ** 3)).imag)
    A = beta / gamma / (ex - 1.0)
    At = A * t2
    den = 1.0 + At + At * At
    return ec + gamma * phi ** 3 * np.log(1.0 + beta / gamma * t2 * (1.0 + At) / den)


def _gga_k_vw(ra, rb, saa, sab, sbb):
    out = 0.0
    for r, s in ((ra, saa), (rb, sbb)):
        out = out + np.where(r.real > DENS, s / (8.0 * r), 0.0)
    return out / (ra + rb)


_LDA = {1: _lda_x, 7: _lda_c_vwn, 50: _lda_k_tf,
        12: lambda a, b: _pw(a, b, False), 13: lambda a, b: _pw(a, b, True)}
_GGA = {101: _gga_x_pbe, 130: _gga_c_pbe, 500: _gga_k_vw}


class LibXCFunctional:
    def __init__(self, func_name, spin):
        self._spin = {"unpolarized": 1, "polarized": 2}.get(spin, spin)
        if self._spin not in (1, 2):
            raise KeyError("spin")
        self._id = int(func_name)
        if self._id not in _LDA and self._id not in _GGA:
            raise KeyError("LibXCFunctional: name not found")

    def compute(self, inp, **kw):
        global calls
        calls += 1
        gga = self._id in _GGA
        rho = np.array(inp["rho"], dtype=float).reshape(-1, self._spin)
        if gga and "sigma" not in inp:
            raise KeyError("sigma")
        npt = rho.shape[0]
        if self._spin == 1:
            var = [rho[:, 0]]
            if gga:
                var.append(np.array(inp["sigma"], dtype=float).reshape(npt))
        else:
            var = [rho[:, 0], rho[:, 1]]
            if gga:
                sig = np.array(inp["sigma"], dtype=float).reshape(npt, 3)
                var += [sig[:, 0], sig[:, 1], sig[:, 2]]
        nr = self._spin
        ok = rho.sum(axis=1) > DENS
        lo = [np.where(ok, v, 1.0 / nr if i < nr else 0.0) for i, v in enumerate(var)]
        lo = [np.maximum(v, 0.0) if i < nr else v for i, v in enumerate(lo)]

        def eps(v):
            if self._spin == 1:
                ra = rb = 0.5 * v[0]
                if gga:
                    q = 0.25 * v[1]
                    return _GGA[self._id](ra, rb, q, q, q)
                return _LDA[self._id](ra, rb)
            return (_GGA if gga else _LDA)[self._id](*v)

        with np.errstate(all="ignore"):
            base = [v.astype(complex) for v in lo]
            zk = eps(base).real
            der = []
            for i in range(len(base)):
                v = list(base)
                v[i] = v[i] + 1j * H
                tot = sum(v[:nr])
                der.append((tot * eps(v)).imag / H)
        clean = lambda a: np.where(ok & np.isfinite(a), a, 0.0)
        out = {"zk": clean(zk)[:, None],
               "vrho": np.stack([clean(d) for d in der[:nr]], axis=1)}
        if gga:
            out["vsigma"] = np.stack([clean(d) for d in der[nr:]], axis=1)
        return out
