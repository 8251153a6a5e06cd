"""C16: screened interactions and RPA corrections."""
import random

import numpy as np

from lib.mon import Skip
from props.c10 import Dense, spins
from props.c12 import Model, check_cc
from props.c15 import LR

RULE = ("one embedding calculation with screened cluster interactions (moment-conserving, static constrained RPA, only particle-hole, with polarisability coupling; restricted or unrestricted; molecule or periodic) or RPA correction: "
        "interactions and effective Hamiltonian of every cluster compared with dense linear response, wave functions inserted into the screened Hamiltonian; distinct = (system, spin, screening, bath, solver, options)")
NEED = {"mrpa": 6, "crpa": 3, "crpa_ov": 2, "crpa_pcoupled": 2, "uhf": 5, "match": 4, "fci": 6, "ccsd": 5, "erpa": 4, "cumulant": 4, "pbc": 1, "complete": 2, "full": 3, "truncated": 8, "open": 1}
BUDGET = {"quick": 110, "thorough": 1200}
CASE_TIMEOUT = 300
ASSUMPTIONS = ["stable direct RPA with gap above 0.05 Ha; numerical quadrature of the moments with tolerance 1e-5; constrained RPA for molecules with density fitting; no degenerate bath truncations"]


def cases(rng, tier):
    from lib import systems as S

    full = tier == "thorough"
    out = []
    names = ["h4", "lih", "h4chain", "h5", "heh2", "nh", "bh", "ch2", "h2o", "h3", "hf", "oh"]
    scr = ["mrpa", "crpa", "mrpa", "crpa_ov", "crpa_pcoupled", "mrpa", "crpa_pcoupled_ov"]
    for i in range(240 if full else 40):
        nm = names[i % len(names)]
        op = nm in ("h5", "nh", "ch2", "h3", "oh")
        sp = S.mol(rng, nm, rng.choice(["sto-3g", "6-31g"]) if nm in ("h4", "lih", "heh2", "h3") else "sto-3g", df=True, uhf=True if op or i % 3 == 0 else None)
        out.append(dict(kind="scr", w=2, rs=rng.randrange(1 << 30), sys=sp, scr=scr[i % len(scr)], match=i % 4 == 1, solver=["FCI", "CCSD"][(i // 7 + i) % 2]))
    for i in range(90 if full else 20):
        nm = ["h4", "lih", "h4chain", "heh2", "bh", "h2o", "hf"][i % 7]
        sp = S.mol(rng, nm, rng.choice(["sto-3g", "6-31g"]) if nm in ("h4", "lih") else "sto-3g", df=True)
        out.append(dict(kind="corr", w=2, rs=rng.randrange(1 << 30), sys=sp, corr=["erpa", "cumulant"][i % 2], full=i % 5 < 2))
    for i in range(16 if full else 4):
        sp = S.cell(rng, "h2", (2, 1, 1), "sto-3g" if i % 2 else "6-31g", uhf=i % 4 == 2, dim=3, skew=False, amp=0.05)
        out.append(dict(kind="pbc", w=6, rs=rng.randrange(1 << 30), sys=sp, corr=["erpa", "cumulant"][i % 2] if i % 4 != 2 else None))
    return out


class Dn:
    """Dense linear response of a mean field in the basis of its orbitals."""

    def __init__(self, mf, sp):
        self.mf, self.uhf = mf, np.ndim(mf.mo_coeff[0]) == 2
        self.c, e, occ = (spins(np.asarray(x), self.uhf) for x in (mf.mo_coeff, mf.mo_energy, mf.mo_occ))
        self.no = [int((o > 0).sum()) for o in occ]
        self.nv = [len(o) - n for o, n in zip(occ, self.no)]
        if min(self.nv) == 0 or min(self.no) == 0:
            raise Skip("empty channel")
        self.nov = [a * b for a, b in zip(self.no, self.nv)]
        if sum(self.nov) > 220:
            raise Skip("size")
        self.dn = Dense(mf, sp)
        self.co, self.cv = [x[:, :n] for x, n in zip(self.c, self.no)], [x[:, n:] for x, n in zip(self.c, self.no)]
        v = np.block([[self.dn.tr(self.co[s], self.cv[s], self.co[t], self.cv[t]).reshape(self.nov[s], self.nov[t]) for t in (0, 1)] for s in (0, 1)])
        self.lr = LR(e, self.no, v)
        self.s = mf.get_ovlp()

    def rot(self, co, cv):
        """Rotation from the excitations of the system to those of a cluster, per spin."""
        out = []
        for s in (0, 1):
            a, b = self.co[s].T @ self.s @ co[s], self.cv[s].T @ self.s @ cv[s]
            out.append(np.einsum("iJ,aB->JBia", a, b).reshape(a.shape[1] * b.shape[1], -1))
        return out

    def full(self, r):
        return np.block([[r[0], np.zeros((len(r[0]), self.nov[1]))], [np.zeros((len(r[1]), self.nov[0])), r[1]]])

    def cluster(self, cl):
        co, cv, ca = (spins(x, self.uhf) for x in (cl.c_active_occ, cl.c_active_vir, cl.c_active))
        return co, cv, ca

    def mrpa(self, cl):
        """Interaction conserving the zeroth moment within the cluster."""
        co, cv, ca = self.cluster(cl)
        r = self.full(self.rot(co, cv))
        mom = r @ self.lr.eta0 @ r.T
        amb = (r * self.lr.eps) @ r.T
        inv = np.linalg.inv(mom)
        k = 0.5 * (inv @ amb @ inv - amb)
        return k, mom, amb

    def seris_mrpa(self, cl):
        k, _, _ = self.mrpa(cl)
        co, cv, ca = self.cluster(cl)
        no, nv = [x.shape[1] for x in co], [x.shape[1] for x in cv]
        n0 = no[0] * nv[0]
        out = []
        for s, t, b in ((0, 0, k[:n0, :n0]), (0, 1, k[:n0, n0:]), (1, 1, k[n0:, n0:])):
            g = self.dn.tr(ca[s], ca[s], ca[t], ca[t]).copy()
            b = b.reshape(no[s], nv[s], no[t], nv[t])
            a, c = no[s], no[t]
            g[:a, a:, :c, c:] = b
            g[a:, :a, :c, c:] = b.transpose(1, 0, 2, 3)
            g[:a, a:, c:, :c] = b.transpose(0, 1, 3, 2)
            g[a:, :a, c:, :c] = b.transpose(1, 0, 3, 2)
            out.append(g)
        return self.spinint(out)

    def spinint(self, g):
        if self.uhf:
            return tuple(g)
        a = (g[0] + g[1] + g[1].transpose(2, 3, 0, 1) + g[2]) / 4
        return (a, a, a)

    def seris_crpa(self, cl, ov, pc):
        co, cv, ca = self.cluster(cl)
        no = [x.shape[1] for x in co]
        rl = self.rot(co, cv)
        # complement of the excitations of the cluster
        rc = []
        for r in rl:
            q = np.eye(r.shape[1]) - r.T @ r
            w, u = np.linalg.eigh(q)
            rc.append(u[:, w > 0.5].T)
        g0 = [self.dn.tr(ca[s], ca[s], ca[t], ca[t]) for s, t in ((0, 0), (0, 1), (1, 1))]
        if not any(len(x) for x in rc):
            return tuple(g0)
        p = self.full(rc)
        P, M = p @ self.lr.P @ p.T, (p * self.lr.eps) @ p.T
        # (X+Y), (X-Y) of the constrained problem
        em, um = np.linalg.eigh(M)
        h, hi = (um * em**0.5) @ um.T, (um * em**-0.5) @ um.T
        w2, u = np.linalg.eigh(h @ P @ h)
        w = w2**0.5
        xpy = h @ u / w**0.5
        xmy = hi @ u * w**0.5
        lv = [np.hstack([self.dn.tr(ca[s], ca[s], self.co[t], self.cv[t]).reshape(ca[s].shape[1]**2, -1) for t in (0, 1)]) @ p.T @ xpy for s in (0, 1)]
        lv = [x.reshape(c.shape[1], c.shape[1], -1) for x, c in zip(lv, ca)]
        eps = np.split(self.lr.eps, [self.nov[0]])
        nc = len(rc[0])
        for s in (0, 1):
            n, m = no[s], ca[s].shape[1]
            if pc:
                e = (rl[s] * eps[s]) @ rc[s].T
                sl = np.s_[:nc] if s == 0 else np.s_[nc:]
                lv[s][:n, n:] += (e @ (xpy + xmy)[sl] / 2).reshape(n, m - n, -1)
                lv[s][n:, :n] += (e @ (xpy - xmy)[sl] / 2).reshape(n, m - n, -1).transpose(1, 0, 2)
            if ov:
                lv[s][:n, :n] = 0
                lv[s][n:, n:] = 0
        d = []
        for s, t in ((0, 0), (0, 1), (1, 1)):
            a, b = lv[s], lv[t]
            d.append(-np.einsum("pqn,rsn->pqrs", a / w, b) - np.einsum("qpn,srn->pqrs", a / w, b))
        d = self.spinint(d)
        return tuple(x + y for x, y in zip(g0, d))


def veff(g, no):
    """Mean-field potentials of the occupied orbitals of a cluster."""
    oa, ob = (np.arange(n) for n in no)
    va = np.einsum("pqii->pq", g[0][:, :, oa][..., oa]) - np.einsum("piiq->pq", g[0][:, oa][:, :, oa]) + np.einsum("pqii->pq", g[1][:, :, ob][..., ob])
    vb = np.einsum("pqii->pq", g[2][:, :, ob][..., ob]) - np.einsum("piiq->pq", g[2][:, ob][:, :, ob]) + np.einsum("iipq->pq", g[1][oa][:, oa])
    return va, vb


class Screened(Model):
    def __init__(self, cl, dn, dm, uhf, g, match):
        super().__init__(cl, dn, dm, uhf, None)
        old, new = veff(self.g, self.no), veff(g, self.no)
        self.bare_h, self.bare_g = self.h, self.g
        self.g = g
        if match:
            self.h = tuple(h + a - b for h, a, b in zip(self.h, old, new))
        self._h = None


def run(case, mon):
    import vayesta.ewf
    from lib import systems as S

    rng = random.Random(case["rs"])
    sp = case["sys"]
    mf = S.get_mf(sp)
    if S.gap(mf) < 0.05 or not mf.converged:
        raise Skip("gap")
    dict(scr=screened, corr=correction, pbc=periodic)[case["kind"]](case, mon, rng, sp, mf)


def embed(case, mon, rng, mf, **kw):
    import vayesta.ewf

    full = case.get("full", rng.random() < 0.2)
    bt = "full" if full else rng.choice(["dmet", "mp2", "mp2"])
    bath = dict(bathtype=bt)
    if bt == "mp2":
        bath["threshold"] = 10 ** rng.uniform(-5, -2)
    mon.event("full" if bt == "full" else "truncated")
    emb = vayesta.ewf.EWF(mf, bath_options=bath, **kw)
    return emb, bt


def frag(emb, rng, all_=True):
    nat = emb.mol.natm
    from lib import systems as S

    t = rng.choice(["iao", "sao", "sao"])
    with dict(iao=emb.iao_fragmentation, sao=emb.sao_fragmentation)[t]() as f:
        gr = S.partition(rng, nat, rng.randint(min(2, nat), nat)) if nat > 1 else [[0]]
        for g in gr:
            f.add_atomic_fragment(sorted(g))
    return t, gr


def screened(case, mon, rng, sp, mf):
    uhf = np.ndim(mf.mo_coeff[0]) == 2
    scr, match, solver = case["scr"], case["match"], case["solver"]
    d = Dn(mf, sp)
    so = dict(FCI=dict(conv_tol=1e-13), CCSD=dict(conv_tol=1e-11, conv_tol_normt=1e-9, max_cycle=200, solve_lambda=False))[solver]
    emb, bt = embed(case, mon, rng, mf, solver=solver, screening=scr, match_cluster_fock=match, solver_options=so)
    t, gr = frag(emb, rng)
    tag = "%s uhf=%s %s match=%s %s %s %s" % (sp["name"], uhf, scr, match, solver, bt, t)
    seen = {}
    for f in emb.fragments:
        orig = f.get_solver

        def hook(*a, _o=orig, _f=f, **k):
            seen[_f.id] = _o(*a, **k)
            return seen[_f.id]

        f.get_solver = hook
    try:
        emb.kernel()
    except (AttributeError, ValueError) as err:
        if "numpy.linalg" in str(err) or "not singlet" in str(err):
            raise Skip("solver")
        raise
    dm = spins(mf.make_rdm1(), uhf)
    if not uhf:
        dm = tuple(x / 2 for x in dm)
    for f in emb.fragments:
        if f.id not in seen:
            continue
        cl = f.cluster
        no = [x.shape[1] for x in spins(cl.c_active_occ, uhf)]
        n = [x.shape[1] for x in spins(cl.c_active, uhf)]
        if scr == "mrpa":
            if min(np.linalg.eigvalsh(d.mrpa(cl)[1]), default=1) < 1e-3:
                raise Skip("small moment")
            g = d.seris_mrpa(cl)
        else:
            g = d.seris_crpa(cl, "ov" in scr.replace("pcoupled", ""), "pcoupled" in scr)
        ham = seen[f.id].hamil
        mon.event(scr[:13] if scr != "crpa_pcoupled_ov" else "crpa_pcoupled")
        if match:
            mon.event("match")
        if uhf:
            mon.event("uhf")
        if no[0] != no[1]:
            mon.event("open")
        mon.seen(tag, n, no)
        got = ham.get_eris_screened()
        tol = 1e-6 if scr == "mrpa" else 1e-7
        sc = max(1, max(abs(x).max() for x in g))
        for a, b in zip(got if uhf else (got,) * 3, g):
            mon.close("screened interactions", a, b, tol * sc, tag)
        # the solver works with the screened Hamiltonian
        mg = tuple(got) if uhf else (got,) * 3
        m = Screened(cl, d.dn, dm, uhf, mg, match)
        heff, er = ham.get_integrals()
        for a, b in zip(heff if uhf else (heff,) * 2, m.h):
            mon.close("effective one-electron Hamiltonian", a, b, 1e-8 * sc, tag)
        for a, b in zip(er if uhf else (er,) * 3, mg):
            mon.close("interactions of the solver", a, b, 1e-12 * sc, tag)
        bare = ham.get_eris_bare()
        for a, b in zip(bare if uhf else (bare,) * 3, m.bare_g):
            mon.close("bare interactions stay available", a, b, 1e-8, tag)
        if n[0] != n[1] or m.sp.dim > 1300 or min(no) == 0:
            continue
        s = seen[f.id]
        if not s.converged:
            mon.event("unconverged")
            continue
        wf = f.results.wf
        if solver == "FCI":
            x = np.asarray(wf.ci).ravel()
            if x.size != m.sp.dim:
                mon.true("size of the FCI vector", False, tag)
            e = x @ m.H @ x
            mon.event("fci")
            if "pcoupled" in scr:
                # W is not symmetric in its orbital pairs; PySCF's FCI keeps one triangle (listed as known finding)
                mon.event("fci pcoupled")
                mon.zero("FCI eigenvalue equation with polarisability coupling", abs(m.H @ x - e * x).max(), 3e-5 * sc, tag)
            else:
              mon.zero("FCI eigenvalue equation with screening", abs(m.H @ x - e * x).max(), 3e-5 * sc, tag)
              ev, vec = np.linalg.eigh(m.H)
              if abs(vec[m.sp.i0, 0]) > 0.5 and ev[1] - ev[0] > 1e-2:
                mon.close("FCI ground state with screening", e, ev[0], 1e-7, tag)
            y = x / x[m.sp.i0]
            c1, c2 = m.sp.amplitudes(y)
        else:
            mon.event("ccsd")
            check_cc(mon, m, wf, tag, False, False, 1e-6 * sc)
            c1, c2 = spins(wf.t1, uhf), None
            y = m.sp.expm(m.sp.texc(wf.t1, wf.t2)) @ m.sp.ref
            c1, c2 = m.sp.amplitudes(y)
        # projected energy with the bare interactions
        co = spins(cl.c_active_occ, uhf)
        cf = spins(f.c_frag, uhf)
        px = [a.T @ d.s @ b @ b.T @ d.s @ a for a, b in zip(co, cf)]
        e = 0.0
        fk = m.fx
        for s_ in (0, 1):
            k = no[s_]
            e += np.sum(fk[s_][:k, k:] * (px[s_] @ c1[s_]))
        e_dbl = 0.0
        for k, (i, j) in enumerate(((0, 0), (0, 1), (1, 1))):
            g4 = m.bare_g[k][:no[i], no[i]:, :no[j], no[j]:].transpose(0, 2, 1, 3)
            if i == j:
                e_dbl += 0.5 * np.einsum("xi,xjab,ijab", px[i], c2[k], g4, optimize=True)
            else:
                e_dbl += 0.5 * np.einsum("xi,xjab,ijab", px[0], c2[k], g4, optimize=True) + 0.5 * np.einsum("xj,ixab,ijab", px[1], c2[k], g4, optimize=True)
        mon.close("projected fragment energy uses bare interactions", f.results.e_corr, e + e_dbl, 3e-6 if solver == "CCSD" else 3e-5, tag)


def local_rpa(d, f, corr):
    """RPA energy of a cluster projected onto the occupied fragment space."""
    cl = f.cluster
    co, cv, ca = d.cluster(cl)
    _, mom, amb = d.mrpa(cl)
    r = co[0].T @ d.s @ spins(f.c_frag, d.uhf)[0]
    p = np.kron(r @ r.T, np.eye(cv[0].shape[1]))
    p = np.kron(np.eye(2), p)
    v = d.dn.tr(co[0], cv[0], co[0], cv[0]).reshape(len(p) // 2, -1)
    v = np.block([[v, v], [v, v]])
    one = np.eye(len(p))
    if corr == "cumulant":
        return 0.5 * np.trace(p @ (mom - one) @ v)
    return 0.5 * np.trace(p @ (mom @ (amb + 2 * v) - (amb + v)))


def check_corr(case, mon, d, emb, corr, ncells, tag):
    lr = d.lr
    one = np.eye(len(lr.eps))
    want = (lr.plasmon if corr == "erpa" else 0.5 * np.sum((lr.eta0 - one) * lr.v)) / ncells
    mon.event(corr)
    mon.close("global RPA energy", emb.e_rpa, want, 1e-6, tag)
    loc = 0.0
    for f in emb.get_fragments(sym_parent=None):
        e = local_rpa(d, f, corr)
        mon.close("local RPA energy", f.results.e_corr_rpa, e, 1e-6, tag)
    for f in emb.get_fragments():
        if f.sym_parent is None:
            last = f
        loc += local_rpa(d, f, corr)
    mon.close("nonlocal correction", emb.e_nonlocal, want - loc / ncells, 5e-6, tag)
    mon.close("correlation energy", emb.e_corr, sum(f.results.e_corr * f.symmetry_factor for f in emb.get_fragments(sym_parent=None)) / ncells, 1e-9, tag)
    mon.close("total energy", emb.e_tot, emb.e_mf + emb.e_corr, 1e-9, tag)
    return want - loc / ncells


def correction(case, mon, rng, sp, mf):
    d = Dn(mf, sp)
    emb, bt = embed(case, mon, rng, mf, solver="MP2" if rng.random() < 0.3 else "CCSD", screening="mrpa", ext_rpa_correction=case["corr"])
    t, gr = frag(emb, rng)
    tag = "%s %s %s %s" % (sp["name"], case["corr"], bt, t)
    emb.kernel()
    mon.seen(tag, len(gr))
    for f in emb.fragments:
        if min(np.linalg.eigvalsh(d.mrpa(f.cluster)[1]), default=1) < 1e-3:
            raise Skip("small moment")
    nl = check_corr(case, mon, d, emb, case["corr"], 1, tag)
    if bt == "full":
        mon.event("complete")
        mon.close("no nonlocal correction for complete clusters", emb.e_nonlocal, 0.0, 5e-6, tag)


def periodic(case, mon, rng, sp, mf):
    emb, bt = embed(case, mon, rng, mf, solver="CCSD", screening="mrpa", **(dict(ext_rpa_correction=case["corr"]) if case["corr"] else {}))
    mf = emb.mf
    d = Dn(mf, sp)
    with emb.iao_fragmentation() as f:
        k = rng.choice([1, 2])
        for g in ([[0], [1]] if k == 2 else [[0, 1]]):
            f.add_atomic_fragment(g)
    tag = "pbc uhf=%s %s %s" % (d.uhf, case["corr"], bt)
    emb.kernel()
    mon.event("pbc")
    mon.seen(tag, k)
    for f in emb.get_fragments(sym_parent=None):
        if min(np.linalg.eigvalsh(d.mrpa(f.cluster)[1]), default=1) < 1e-3:
            raise Skip("small moment")
        s = f.get_solver()
        g = d.seris_mrpa(f.cluster)
        got = s.hamil.get_eris_screened()
        mon.event("mrpa")
        for a, b in zip(got if d.uhf else (got,) * 3, g):
            mon.close("screened interactions", a, b, 1e-5 * max(1, abs(b).max()), tag)
    if case["corr"]:
        check_corr(case, mon, d, emb, case["corr"], 2, tag)
