"""C15: RPA energies, excitations and density-response moments."""
import random

import numpy as np

from lib.mon import Skip
from props.c10 import Dense, lattice_mf

RULE = ("one RPA calculation (direct, with exchange, with a random exchange-correlation kernel, scaled interaction; restricted or unrestricted; molecule, cell, folded cell, lattice; four-centre, fitted or given three-centre "
        "integrals with or without negative part): energies, frequencies, amplitudes and moments compared with dense linear-response matrices; distinct = (system, spin, method, options)")
NEED = {"mol": 12, "uhf": 8, "ri": 40, "xc": 8, "neg": 5, "rpax": 4, "ov_rot": 5, "pbc": 2, "energy": 30, "ac": 6, "gap": 4, "compress": 10, "target": 20, "alpha": 8}
BUDGET = {"quick": 100, "thorough": 1200}
CASE_TIMEOUT = 300
ASSUMPTIONS = ["stable references only (positive definite A+B and A-B, smallest gap 0.05 Ha); quadrature with 48 or more points; Davidson gap only for a single root"]


def cases(rng, tier):
    from lib import systems as S

    full = tier == "thorough"
    out = []
    names = ["h4", "lih", "h4chain", "h5", "heh2", "nh", "oh", "bh", "ch2", "h2o", "h3", "hf"]
    for i in range(200 if full else 28):
        nm = names[i % len(names)]
        sp = S.mol(rng, nm, rng.choice(["sto-3g", "6-31g"]) if nm in ("h4", "lih", "h5", "heh2", "h3") else "sto-3g", df=None if i % 3 == 0 else True,
                   uhf=None if i % 3 == 0 or rng.random() < 0.6 else True)
        out.append(dict(kind="mol", w=2, rs=rng.randrange(1 << 30), sys=sp))
    for i in range(20 if full else 5):
        dim = 2 if i % 2 else 3
        sp = S.cell(rng, "h2", [(1, 1, 1), (2, 1, 1)][i % 2 if i < 2 else rng.randrange(2)], "6-31g" if i % 2 else "sto-3g", uhf=i % 3 == 1, dim=dim, skew=dim == 3, amp=0.05)
        out.append(dict(kind="pbc", w=6, rs=rng.randrange(1 << 30), sys=sp))
    for i in range(20 if full else 5):
        out.append(dict(kind="latt", w=1, rs=rng.randrange(1 << 30), n=6, u=rng.uniform(0.3, 1.2), v=0.0, uhf=False))
    return out


class LR:
    """Dense linear response: spin-conserving excitations, A and B."""

    def __init__(self, e, no, v, axc=None, bxc=None, alpha=1.0):
        self.eps = np.concatenate([(x[n:][None] - x[:n][:, None]).ravel() for x, n in zip(e, no)])
        n = len(self.eps)
        axc = np.zeros((n, n)) if axc is None else axc
        bxc = np.zeros((n, n)) if bxc is None else bxc
        self.v, self.axc, self.bxc = v, axc, bxc
        a = np.diag(self.eps) + alpha * (v + axc)
        b = alpha * (v + bxc)
        self.A, self.B, self.P, self.M = a, b, a + b, a - b
        ep, cp = np.linalg.eigh(self.P)
        em = np.linalg.eigvalsh(self.M)
        if min(ep.min(), em.min()) < 0.02:
            raise Skip("unstable")
        r, ri = (cp * ep**0.5) @ cp.T, (cp * ep**-0.5) @ cp.T
        w2, u = np.linalg.eigh(r @ self.M @ r)
        self.w = np.sqrt(w2)
        self.eta0 = ri @ (u * self.w) @ u.T @ ri
        self.plasmon = 0.5 * (self.w.sum() - np.trace(a))

    def moms(self, n):
        out = [self.eta0, self.M]
        while len(out) <= n:
            out.append(out[-2] @ self.P @ self.M)
        return np.array(out[:n + 1])


def run(case, mon):
    import vayesta.ewf
    from lib import systems as S

    rng = random.Random(case["rs"])
    rs = np.random.default_rng(case["rs"])
    sp = case.get("sys")
    mf = S.get_mf(sp) if sp else lattice_mf(case)
    if S.gap(mf) < 0.05:
        raise Skip("gap")
    folded = case["kind"] == "pbc"
    if folded:
        mf = vayesta.ewf.EWF(mf).mf
    uhf = np.ndim(mf.mo_coeff[0]) == 2
    c = tuple(mf.mo_coeff) if uhf else (mf.mo_coeff,) * 2
    e = tuple(mf.mo_energy) if uhf else (mf.mo_energy,) * 2
    occ = tuple(mf.mo_occ) if uhf else (mf.mo_occ,) * 2
    no = [int((o > 0).sum()) for o in occ]
    nv = [len(o) - n for o, n in zip(occ, no)]
    if min(nv) == 0 or sum(a * b for a, b in zip(no, nv)) > 200:
        raise Skip("size")
    if min(no) == 0:
        raise Skip("empty channel")
    dn = Dense(mf, sp)
    co, cv = [x[:, :n] for x, n in zip(c, no)], [x[:, n:] for x, n in zip(c, no)]
    nov = [a * b for a, b in zip(no, nv)]

    def blk(f):
        return np.block([[f(s, t).reshape(nov[s], nov[t]) for t in (0, 1)] for s in (0, 1)])

    v = blk(lambda s, t: dn.tr(co[s], cv[s], co[t], cv[t]))
    mon.event(case["kind"])
    if uhf:
        mon.event("uhf")
    if folded:
        mon.event("pbc")
    tag = "%s uhf=%s" % (sp["name"] if sp else "latt", uhf)
    x = Ctx(case, mon, rng, rs, sp, mf, uhf, c, e, no, nv, nov, co, cv, v, dn, blk, tag)
    snap = [np.array(mf.mo_coeff, copy=True), np.array(mf.mo_energy, copy=True), np.array(mf.mo_occ, copy=True)]
    if not folded:
        dense_rpa(x)
        xc_rpa(x)
        if not uhf and case["kind"] == "mol" and not sp.get("df"):
            full_rpa(x)
        ovrot(x)
    df = folded or (sp and sp.get("df"))
    if df:
        ri_rpa(x, None, v, e)
    if not folded:
        lov, vv = fake_lov(x, neg=rng.random() < 0.5)
        ri_rpa(x, lov, vv, e)
    for a, b in zip(snap, (mf.mo_coeff, mf.mo_energy, mf.mo_occ)):
        mon.zero("mean field untouched", np.asarray(b) - a, 1e-14, tag)


class Ctx:
    def __init__(self, *a):
        for k, v in zip("case mon rng rs sp mf uhf c e no nv nov co cv v dn blk tag".split(), a):
            setattr(self, k, v)


def amplitudes(x, rpa, lr, tag):
    """X and Y amplitudes: orthonormality, eigenvalue equations."""
    mon = x.mon
    xpy, xmy = (np.concatenate(y) for y in (rpa.XpY_ss, rpa.XmY_ss))
    n = xpy.shape[1]
    mon.zero("amplitude normalisation", xpy.T @ xmy - np.eye(n), 1e-8, tag)
    w = np.asarray(rpa.freqs_ss)
    mon.close("eigenvalue equation", lr.P @ xpy, xmy * w, 1e-7 * max(1, w.max()), tag)
    mon.close("eigenvalue equation", lr.M @ xmy, xpy * w, 1e-7 * max(1, w.max()), tag)
    mon.seen("amp", tag)


def dense_rpa(x):
    from vayesta.rpa import ssRPA

    mon, tag = x.mon, x.tag
    alpha = x.rng.choice([1.0, 1.0, x.rng.uniform(0.1, 0.9)])
    if alpha != 1:
        mon.event("alpha")
    lr = LR(x.e, x.no, x.v, alpha=alpha)
    rpa = ssRPA(x.mf)
    ec = rpa.kernel(alpha=alpha)
    t = tag + " alpha=%.2f" % alpha
    sc = max(1, lr.w.max())
    mon.close("frequencies", np.sort(rpa.freqs_ss), lr.w, 1e-8 * sc, t)
    amplitudes(x, rpa, lr, t)
    n = x.rng.randint(0, 4)
    mon.close("moments", rpa.gen_moms(n), lr.moms(n), 1e-7 * sc**n, t)
    if alpha == 1:
        mon.event("energy")
        mon.close("direct RPA energy", ec, lr.plasmon, 1e-8, t)
        mon.close("direct RPA energy", rpa.e_corr, lr.plasmon, 1e-8, t)
        mon.close("total energy", rpa.e_tot, x.mf.e_tot + lr.plasmon, 1e-8, t)
        mon.close("repeated call", rpa.kernel(), ec, 1e-12, t)


def kernels(x, fac):
    """Random symmetric exchange-correlation kernel in low-rank form, and its dense A and B parts."""
    n = x.c[0].shape[0]
    r = x.rng.randint(1, 2)
    sc = fac * x.rng.uniform(0.02, 0.15) / n
    f = []
    for s in (0, 1):
        a, b = x.rs.standard_normal((2, r, n, n)) * np.sqrt(sc)
        if s == 1 and not x.uhf:
            f.append(f[0])
            continue
        at, bt = a.transpose(0, 2, 1), b.transpose(0, 2, 1)
        f.append((np.concatenate([a, b, at, bt]), np.concatenate([b, a, bt, at])))

    def mo(y, s, tr=False):
        if tr:
            y = y.transpose(0, 2, 1)
        return np.einsum("npq,pi,qa->nia", y, x.co[s], x.cv[s], optimize=True).reshape(len(y), -1)

    axc = x.blk(lambda s, t: mo(f[s][0], s).T @ mo(f[t][1], t))
    bxc = x.blk(lambda s, t: mo(f[s][0], s).T @ mo(f[t][1], t, True))
    return f, axc, bxc


def xc_rpa(x):
    """Kernels beyond the Coulomb interaction."""
    from vayesta.rpa import ssRPA, ssRIRPA

    mon = x.mon
    for k in range(8):
        f, axc, bxc = kernels(x, 0.5**k)
        try:
            LR(x.e, x.no, x.v, axc, bxc)
            break
        except Skip:
            pass
    else:
        return
    mon.event("xc")
    alpha = x.rng.choice([1.0, x.rng.uniform(0.2, 0.9)])
    lr = LR(x.e, x.no, x.v, axc, bxc, alpha)
    t = x.tag + " xc alpha=%.2f" % alpha
    sc = max(1, lr.w.max())
    full = [np.einsum("npq,nrs->pqrs", f[s][0], f[u][1]) for s, u in ((0, 0), (0, 1), (1, 1))]
    for kern, nm in ((full, "full"), (f, "low-rank")):
        rpa = ssRPA(x.mf)
        rpa.kernel(xc_kernel=kern, alpha=alpha)
        mon.close("frequencies with kernel", np.sort(rpa.freqs_ss), lr.w, 1e-8 * sc, t + nm)
        amplitudes(x, rpa, lr, t + nm)
        n = x.rng.randint(0, 3)
        mon.close("moments with kernel", rpa.gen_moms(n), lr.moms(n), 1e-7 * sc**n, t + nm)
    # energies
    lr = LR(x.e, x.no, x.v, axc, bxc)
    rpa = ssRPA(x.mf)
    ec = rpa.kernel(xc_kernel=full)
    one = np.eye(len(lr.eps))
    want3 = 0.5 * np.trace(lr.eta0 @ (lr.P - bxc / 2) - (lr.A - bxc / 2))
    mon.event("energy")
    mon.close("linearised energy with kernel", ec, want3, 1e-8, t)
    want5 = 0.25 * np.sum((lr.eta0 - one) * x.v)
    mon.close("linearised Coulomb energy", rpa.calc_energy_correction(full, version=5), want5, 1e-8, t)
    eta = lambda al: LR(x.e, x.no, x.v, axc, bxc, al).eta0
    quad = lambda fn, n: sum(w * fn((p + 1) / 2) / 2 for p, w in zip(*np.polynomial.legendre.leggauss(n)))
    coul = lambda al: np.sum((eta(al) - one) * x.v)
    plasmon = 0.5 * np.trace(lr.eta0 @ lr.P - np.diag(lr.eps) - x.v)
    val = {0: lambda al: (np.sum((axc + bxc) * eta(al)) + np.sum((axc - bxc) * np.linalg.inv(eta(al)))) / 4,
           1: lambda al: (np.trace(axc) + np.sum(bxc * (eta(al) - one))) / 2, 4: coul}
    for ver in x.rng.sample([0, 1, 4], 2):
        mon.event("ac")
        got, fn = rpa.calc_energy_correction(full, version=ver)
        want = quad(val[ver], 5)
        mon.close("integrated energy", got, 0.5 * want if ver == 4 else plasmon - want, 1e-8, t + " version=%d" % ver)
        al = x.rng.uniform(0.05, 1)
        mon.close("adiabatic connection integrand", fn(al), val[ver](al), 1e-8, t + " version=%d" % ver)
    ex = 0.5 * quad(coul, 8)
    z = [np.zeros_like(y) for y in full]
    lr0 = LR(x.e, x.no, x.v)
    r0 = ssRPA(x.mf)
    r0.kernel(xc_kernel=z)
    mon.close("energy without kernel", r0.calc_energy_correction(z, version=x.rng.choice([2, 3])), lr0.plasmon, 1e-8, t)
    # low-rank moments
    if x.sp and x.sp.get("df"):
        mon.event("ri")
        from vayesta.rpa.rirpa import ssRIRRPA, ssRIURPA

        comp = x.rng.choice([0, 0, 1, 4, 6])
        if comp:
            mon.event("compress")
        rpa = ssRIRPA(x.mf, rixc=f, compress=comp)
        mon.true("class with kernel", type(rpa) is (ssRIURPA if x.uhf else ssRIRRPA), t)
        moments(x, rpa, lr, t + " compress=%d" % comp, False)
        npts = 100
        ec, err = rpa.kernel_energy(npoints=npts)
        mon.close("RI energy (asymmetric representation)", ec, want3, max(1e-7, np.max([y for y in np.ravel(err) if y is not None])), t + str(err))
        if x.rng.random() < 0.4:
            mon.event("ac")
            mon.close("RI integrated energy", np.sum(rpa.direct_AC_integration(deg=8, npoints=100)[0]), ex, 1e-6, t)


def full_rpa(x):
    """Same-spin and spin-flip excitations with exchange."""
    from vayesta.rpa import RPA

    mon, t = x.mon, x.tag
    o, w = x.co[0], x.cv[0]
    g = lambda *y: x.dn.tr(*y)
    n = x.nov[0]
    v = g(o, w, o, w).reshape(n, n)
    ka = g(o, o, w, w).transpose(0, 2, 1, 3).reshape(n, n)
    kb = g(o, w, o, w).transpose(0, 3, 2, 1).reshape(n, n)  # (ib|ja)
    zz = np.zeros((n, n))
    e = x.e[0]
    eps = np.diag((e[x.no[0]:][None] - e[:x.no[0]][:, None]).ravel())

    def solve(a, b):
        ep, cp = np.linalg.eigh(a + b)
        if ep.min() < 0.02 or np.linalg.eigvalsh(a - b).min() < 0.02:
            raise Skip("unstable")
        r = (cp * ep**0.5) @ cp.T
        w = np.sqrt(np.linalg.eigvalsh(r @ (a - b) @ r))
        return w, 0.5 * (w.sum() - np.trace(a))

    for kern in ("drpa", "rpax"):
        rpa = RPA(x.mf)
        if kern == "drpa":
            ss = solve(np.block([[eps + v, v], [v, eps + v]]), np.block([[v, v], [v, v]]))
            sf = (np.sort(np.concatenate([np.diag(eps)] * 2)), 0.0)
            fac = 1
        else:
            ss = solve(np.block([[eps + v - ka, v], [v, eps + v - ka]]), np.block([[v - kb, v], [v, v - kb]]))
            sf = solve(np.block([[eps - ka, zz], [zz, eps - ka]]), np.block([[zz, -kb], [-kb, zz]]))
            fac = 0.5
        ec = rpa.kernel(kern)
        mon.event("rpax")
        mon.event("energy")
        mon.close("same-spin frequencies", np.sort(rpa.freqs_ss), ss[0], 1e-7, t + kern)
        mon.close("spin-flip frequencies", np.sort(rpa.freqs_sf), sf[0], 1e-7, t + kern)
        mon.close("energy with exchange", ec, fac * (ss[1] + sf[1]), 1e-8, t + kern)
        mon.close("total energy", rpa.e_tot, x.mf.e_tot + fac * (ss[1] + sf[1]), 1e-8, t + kern)


def ovrot(x):
    """Excitations restricted to a subspace."""
    from vayesta.rpa import ssRPA

    mon = x.mon
    rot = []
    for n in x.nov:
        k = x.rng.randint(1, n)
        rot.append(np.linalg.qr(x.rs.standard_normal((n, k)))[0].T)
    full = np.block([[rot[0], np.zeros((len(rot[0]), x.nov[1]))], [np.zeros((len(rot[1]), x.nov[0])), rot[1]]])
    lr = LR(x.e, x.no, x.v)
    m, p = full @ np.diag(lr.eps) @ full.T, full @ (np.diag(lr.eps) + 2 * x.v) @ full.T
    rpa = ssRPA(x.mf, ov_rot=tuple(rot))
    rpa.kernel()
    mon.event("ov_rot")
    t = x.tag + " rotation"
    w = np.sort(np.sqrt(np.linalg.eigvals(m @ p).real))
    mon.close("frequencies in a subspace", np.sort(rpa.freqs_ss), w, 1e-8 * max(1, w.max()), t)
    # back-rotated moment
    r = rpa.ov_rot
    fr = np.block([[r[0], np.zeros((len(r[0]), x.nov[1]))], [np.zeros((len(r[1]), x.nov[0])), r[1]]])
    ep, cp = np.linalg.eigh(p)
    h, hi = (cp * ep**0.5) @ cp.T, (cp * ep**-0.5) @ cp.T
    w2, u = np.linalg.eigh(h @ m @ h)
    eta = full.T @ hi @ (u * w2**0.5) @ u.T @ hi @ full
    mon.close("moment in a subspace", fr.T @ rpa.gen_moms(0)[0] @ fr, eta, 1e-8, t)


def fake_lov(x, neg):
    """Three-centre integrals handed over by the caller, with random rank-one negative part."""
    lov, vv = [], []
    n = len(x.v)
    ev, u = np.linalg.eigh(x.v)
    k = ev > 1e-10
    L = (u[:, k] * ev[k]**0.5).T
    N = None
    if neg:
        N = 0.3 * np.sqrt(ev[-1]) * np.linalg.qr(x.rs.standard_normal((n, 2)))[0].T
        if not x.uhf:
            N[:, x.nov[1]:] = N[:, :x.nov[0]]
    vv = L.T @ L - (N.T @ N if neg else 0)

    def shp(y, s):
        if y is None:
            return None
        sl = np.s_[:x.nov[0]] if s == 0 else np.s_[x.nov[0]:]
        return np.ascontiguousarray(y[:, sl]).reshape(len(y), x.no[s], x.nv[s])

    if x.uhf:
        lov = ((shp(L, 0), shp(L, 1)), (shp(N, 0), shp(N, 1)))
    else:
        lov = (shp(L, 0), shp(N, 0))
    if neg:
        x.mon.event("neg")
    return lov, vv


def moments(x, rpa, lr, tag, spatial):
    """Moments of RI-RPA for target rotations."""
    mon, rng = x.mon, x.rng
    n = rng.randint(0, 5)
    sc = max(1.0, lr.w.max())**max(n, 1)
    npts = rng.choice([48, 48, 64, 100])
    full = lr.moms(n)
    rows = rng.randint(1, len(lr.eps) + 1)
    rot = x.rs.standard_normal((rows, len(lr.eps))) if rng.random() < 0.7 else None
    if rot is not None:
        mon.event("target")
        rot /= np.linalg.norm(rot, axis=1)[:, None]
        rot0 = rot.copy()
        full = np.einsum("kp,npq->nkq", rot, full)
    kw = {}
    if getattr(rpa, "rixc", None) is not None and rng.random() < 0.6:
        kw, npts = dict(integral_deduct="D"), 400
    m, err = rpa.kernel_moms(n, target_rot=rot, npoints=npts, **kw)
    t = tag + " n=%d npoints=%d rows=%s" % (n, npts, rot is None or rows)
    spread = lr.w.max() / lr.w.min()
    tol = 1e-6 if spread < 40 else 1e-4
    if getattr(rpa, "rixc", None) is not None:
        mon.true("error estimate", np.isfinite(err[0]), t)
        tol = max(1e-4, err[0] if kw else 1e-5)
    mon.close("RI zeroth moment", m[0], full[0], tol, t + " spread=%.0f" % spread)
    if n > 0:
        mon.close("RI first moment", m[1], full[1], 1e-9 * sc, t)
    if n > 1:
        mon.close("RI higher moments", m[2:], full[2:], tol * sc, t)
    if rot is not None:
        mon.zero("target rotation untouched", rot - rot0, 0 + 1e-15, t)
    if spatial and rng.random() < 0.5:
        k = x.nov[0]
        r = x.rs.standard_normal((2, k))
        got = rpa.kernel_moms(n, target_rot=r, npoints=npts, return_spatial=True)[0]
        want = np.einsum("kp,npq->nkq", r, lr.moms(n)[:, :k, :k] + lr.moms(n)[:, :k, k:])
        mon.close("spin-summed moments", got, want, 10 * tol * sc, t)
        got = rpa.kernel_moms(n, target_rot=r, npoints=npts)[0]
        mon.close("single-spin moments", got, np.einsum("kp,npq->nkq", r, lr.moms(n)[:, :k]), 10 * tol * sc, t)


def ri_rpa(x, lov, v, e):
    from vayesta.rpa import ssRIRPA
    from vayesta.rpa.rirpa import ssRIRRPA, ssRIURPA, ssRIdRRPA

    mon, rng = x.mon, x.rng
    mon.event("ri")
    if x.uhf:
        mk = ssRIRPA
    else:
        mk = rng.choice([ssRIRPA, ssRIRPA, ssRIRRPA])
    comp = rng.choice([0, 0, 1, 4, 6])
    if comp:
        mon.event("compress")
    kw = dict(compress=comp)
    if lov is not None:
        kw["lov"] = lov
    rpa = mk(x.mf, **kw)
    spatial = isinstance(rpa, ssRIdRRPA)
    lr = LR(e, x.no, v)
    t = x.tag + " RI lov=%s compress=%d %s" % (lov is not None, comp, type(rpa).__name__)
    mon.seen(x.case["kind"], t)
    moments(x, rpa, lr, t, spatial)
    ec, err = rpa.kernel_energy(npoints=64)
    mon.event("energy")
    spread = lr.w.max() / lr.w.min()
    # dimension 2 or an explicit negative part: low-rank factors that are not proportional to each other
    asym = bool(lov is not None and (lov[1] if not x.uhf else lov[1][0]) is not None) or bool(x.sp and x.sp.get("dim") == 2)
    mon.close("RI energy" + " (asymmetric representation)" * asym, ec, lr.plasmon, 1e-7 if spread < 40 else 1e-5, t)
    mon.close("RI total energy", rpa.e_tot, x.mf.e_tot + ec, 1e-9, t)
    al = rng.uniform(0.1, 0.9)
    mon.event("alpha")
    la = LR(e, x.no, v, alpha=al)
    tol = 1e-6 if spread < 40 else 1e-4
    mon.close("scaled RI moments", rpa.kernel_moms(2, alpha=al)[0], la.moms(2), tol * max(1, la.w.max()**2), t + " alpha=%.2f" % al)
    if not spatial:
        ded = rng.choice(["HO", "D", None])
        rot = np.eye(len(lr.eps))[:3]
        m, _ = rpa.kernel_moms(0, target_rot=rot, integral_deduct=ded, adaptive_quad=True)
        mon.event("adaptive")
        # (A+B)^-1 enhances the tolerance 1e-4 of the adaptive integration
        mon.close("adaptive quadrature", m[0], lr.eta0[:3], 2e-3 / lr.eps.min(), t + str(ded))
    if lov is None and rng.random() < 0.5 and not x.case["kind"] == "pbc":
        mon.event("ac")
        mon.close("adiabatic connection", np.sum(rpa.direct_AC_integration(deg=8)[0]), lr.plasmon, 1e-6, t)
    if x.case["kind"] == "mol" and rng.random() < 0.5 and lr.w[1] - lr.w[0] > 1e-3:
        mon.event("gap")
        g = rpa.get_gap(tol=1e-11, max_cycle=200)
        mon.true("gap is an excitation", abs(lr.w - g).min() < 1e-5, t + " %s %s" % (g, lr.w[:4]))
