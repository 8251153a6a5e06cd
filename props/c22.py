"""C22: electron-boson clusters and their exact solution; EDMET."""
import random

import numpy as np

from lib.mon import Skip
from props.c10 import Dense, lattice_mf

RULE = ("one coupled electron-boson problem (random operator; cluster of an embedding with random bosons, with quasi-bosons of the RPA bath or with the bosons of EDMET; restricted or unrestricted): energies, "
        "density matrices, moments, couplings and frequencies compared with dense diagonalisation in the truncated boson space, dense linear response and dense integrals; distinct = (system, spin, method, options)")
NEED = {"op": 14, "uop": 6, "moments": 12, "ham": 8, "uham": 3, "shift": 6, "edmet": 6, "uedmet": 2, "rpa match": 6, "whole": 2, "bath": 3, "ebcc": 3, "open shell": 2, "bosons": 30}
BUDGET = {"quick": 110, "thorough": 1200}
CASE_TIMEOUT = 300
ASSUMPTIONS = ["string tables and determinant FCI of PySCF, ebcc as given", "up to four orbitals and three bosons per cluster; ground states with a gap of at least 0.02 Ha to the next state of the same particle numbers"]


def cases(rng, tier):
    from lib import systems as S

    full = tier == "thorough"
    k = 12 if full else 3
    out = []
    for i in range(24 * k):
        out.append(dict(kind="op", w=1, rs=rng.randrange(1 << 30), uhf=i % 2 == 1))
    names = ["h4", "h2", "lih", "h3", "heh2", "oh", "bh", "h5"]
    for i in range(14 * k):
        nm = names[i % len(names)]
        sp = S.mol(rng, nm, "6-31g" if nm == "h2" else "sto-3g", df=rng.choice([None, True]), uhf=True if nm in ("h3", "h5", "oh") or rng.random() < 0.3 else None, amp=0.05)
        out.append(dict(kind="ham", w=2, rs=rng.randrange(1 << 30), sys=sp))
    for i in range(10 * k):
        if i % 5 == 4:
            out.append(dict(kind="edmet", w=5, rs=rng.randrange(1 << 30), n=6, u=rng.uniform(1, 4), v=0.0, uhf=False))
        else:
            nm = ["h4", "h3", "h4", "h4chain", "h6", "heh2", "h5"][i % 7]
            sp = S.mol(rng, nm, "sto-3g", df=True if i % 2 else None, uhf=True if nm in ("h3", "h5") or rng.random() < 0.3 else None, amp=0.05)
            out.append(dict(kind="edmet", w=5, rs=rng.randrange(1 << 30), sys=sp))
    for i in range(3 * k):
        sp = S.mol(rng, ["h2", "lih", "h3"][i % 3], "sto-3g" if i % 3 else "6-31g", df=rng.choice([None, True]), uhf=True if i % 3 == 2 else rng.choice([None, True]), amp=0.05)
        out.append(dict(kind="whole", w=2, rs=rng.randrange(1 << 30), sys=sp))
    for i in range(4 * k):
        sp = S.mol(rng, ["h4", "lih", "heh2", "h2o"][i % 4], "sto-3g" if i % 4 in (1, 3) else "6-31g", df=True, uhf=None, amp=0.05)
        out.append(dict(kind="bath", w=3, rs=rng.randrange(1 << 30), sys=sp))
    for i in range(5 * k):
        nm = ["h2", "h4", "h4chain", "lih", "heh2"][i % 5]
        sp = S.mol(rng, nm, "sto-3g", df=None, uhf=True if i % 2 else None, amp=0.05)
        out.append(dict(kind="ebcc", w=4, rs=rng.randrange(1 << 30), sys=sp))
    for i, c in enumerate(out):
        c["i"] = i
    return out


def run(case, mon):
    rng = random.Random(case["rs"])
    rs = np.random.default_rng(case["rs"])
    np.random.seed(case["rs"] % (1 << 32))
    globals()["run_" + case["kind"]](case, mon, rng, rs)


# --- dense oracle


class EB:
    """Electrons (a list of orbital numbers and electrons per spin) and bosons with at most m quanta each, dense."""

    def __init__(self, norb, nelec, nbos, m):
        from pyscf.fci import cistring

        self.norb, self.nelec, self.nbos, self.m = norb, nelec, nbos, m
        e1 = []
        for s in (0, 1):
            n = cistring.num_strings(norb[s], nelec[s])
            e = np.zeros((norb[s], norb[s], n, n))
            for k, tab in enumerate(cistring.gen_linkstr_index(range(norb[s]), nelec[s])):
                for a, i, l, sign in tab:
                    e[a, i, l, k] += sign
            e1.append(e)
        na, nb = e1[0].shape[-1], e1[1].shape[-1]
        self.de = na * nb
        self.db = (m + 1) ** nbos
        self.E = [np.einsum("pqij,kl->pqikjl", e1[0], np.eye(nb)).reshape(norb[0], norb[0], self.de, self.de),
                  np.einsum("pqkl,ij->pqikjl", e1[1], np.eye(na)).reshape(norb[1], norb[1], self.de, self.de)]
        b1 = np.diag(np.sqrt(np.arange(1, m + 1)), 1)
        self.b = []
        for n in range(nbos):
            x = np.eye(1)
            for j in range(nbos):
                x = np.kron(x, b1 if j == n else np.eye(m + 1))
            self.b.append(x)

    def ham(self, h, eri, w, g):
        """h, g per spin; eri = (aa, ab, bb); coupling g[n,p,q] p+ q b+ + h.c."""
        he = sum(np.einsum("pq,pqij->ij", h[s], self.E[s]) for s in (0, 1))
        for s, t, v in ((0, 0, eri[0]), (0, 1, eri[1]), (1, 0, eri[1].transpose(2, 3, 0, 1)), (1, 1, eri[2])):
            x = np.einsum("pqrs,rsij->pqij", v, self.E[t])
            he = he + 0.5 * np.einsum("pqik,pqkj->ij", self.E[s], x)
            if s == t:
                he = he - 0.5 * np.einsum("prrs,psij->ij", v, self.E[s])
        hb = sum((x * y.T @ y for x, y in zip(w, self.b)), np.zeros((self.db, self.db)))
        out = np.kron(he, np.eye(self.db)) + np.kron(np.eye(self.de), hb)
        for n in range(self.nbos):
            x = sum(np.einsum("pq,pqij->ij", g[s][n], self.E[s]) for s in (0, 1))
            y = np.kron(x, self.b[n].T)
            out = out + y + y.T
        return out

    def op(self, e):
        return np.kron(e, np.eye(self.db))

    def act(self, s, c):
        """E_pq |c> for all p, q."""
        return np.einsum("pqij,jx->pqix", self.E[s], c.reshape(self.de, self.db)).reshape(self.norb[s], self.norb[s], -1)

    def dms(self, c):
        t = [self.act(s, c) for s in (0, 1)]
        dm1 = [x @ c for x in t]
        # <p+ r+ s q> = <E_pq E_rs> - d_qr <E_ps>;  <E_pq E_rs> = (E_qp c).(E_rs c)
        dm2 = []
        for a, b in ((0, 0), (0, 1), (1, 1)):
            x = np.einsum("qpi,rsi->pqrs", t[a], t[b])
            if a == b:
                for r in range(self.norb[a]):
                    x[:, r, r, :] -= dm1[a]
            dm2.append(x)
        eb = []
        cc = c.reshape(self.de, self.db)
        for s in (0, 1):
            z = np.zeros((self.norb[s],) * 2 + (self.nbos,))
            for n in range(self.nbos):
                bc = (cc @ self.b[n].T).ravel()  # b c
                z[:, :, n] = np.einsum("i,pqi->pq", bc, t[s])  # <c|b+ E_pq|c>
            eb.append(z)
        return dm1, dm2, eb

    def moments(self, c, h, e, dm1, n, coeffs):
        t = []
        for s in (0, 1):
            x = self.act(s, c)
            if coeffs is not None:
                x = np.einsum("pqi,pa,qb->abi", x, coeffs[s], coeffs[s])
            t.append(x)
        d = dm1 if coeffs is None else [x.T @ y @ x for x, y in zip(coeffs, dm1)]
        out = []
        hh = np.eye(len(h))
        for k in range(n + 1):
            row = []
            for a, b in ((0, 0), (0, 1), (1, 1)):
                z = np.einsum("pqi,ij,rsj->pqrs", t[a], hh, t[b], optimize=True)
                if k == 0:
                    z = z - np.einsum("pq,rs->pqrs", d[a], d[b])
                row.append(z)
            out.append(row)
            hh = hh @ (h - e * np.eye(len(h)))
        return out


class FakeHam:
    def __init__(self, norb, nelec, h, eri, w, g, uhf):
        self.ncas, self.nelec, self.bos_freqs, self.couplings = (norb, norb), nelec, w, (tuple(g) if uhf else g[0])
        self._h, self._eri, self.uhf = h, eri, uhf

    def get_heff(self, *a, **k):
        return tuple(self._h) if self.uhf else self._h[0]

    def get_eris_screened(self, *a, **k):
        return tuple(self._eri) if self.uhf else self._eri[0]


def sym_eri(rs, n, k=None):
    ll = rs.normal(size=(k or n + 1, n, n))
    ll = ll + ll.transpose(0, 2, 1)
    return ll


def lowest(h, mon):
    e, c = np.linalg.eigh(h)
    if len(e) > 1 and e[1] - e[0] < 0.02:
        raise Skip("degenerate")
    return e, c[:, 0]


def judge(mon, tag, solver, eb, h, uhf, rng, tol=2e-5, mom=True, shift=None):
    """Solver results against the wave function they are derived from and against dense diagonalisation."""
    e, c = lowest(h, mon)
    mon.true("energy variational and an eigenvalue", abs(e - solver.e_fci).min() < 1e-8, "%s %.10f %.10f" % (tag, solver.e_fci, e[0]))
    cv = np.asarray(solver.civec).ravel()
    ground = abs(solver.e_fci - e[0]) < 1e-8
    mon.true("ground state energy", ground or abs(c @ np.eye(len(c))[0]) < 0.05, "%s %.10f %.10f" % (tag, solver.e_fci, e[0]))
    mon.close("normalisation", cv @ cv, 1.0, 1e-9, tag)
    mon.zero("eigenvector", h @ cv - solver.e_fci * cv, 1e-4, tag)
    dm1, dm2, deb = eb.dms(cv)
    got = solver.make_rdm1()
    mon.close("one-particle density matrix", np.array(got) if uhf else got, np.array(dm1) if uhf else dm1[0] + dm1[1], 1e-10, tag)
    g1, g2 = solver.make_rdm12()
    mon.close("one-particle density matrix (12)", np.array(g1) if uhf else g1, np.array(dm1) if uhf else dm1[0] + dm1[1], 1e-10, tag)
    want2 = dm2 if uhf else dm2[0] + dm2[1] + dm2[1].transpose(2, 3, 0, 1) + dm2[2]
    for x, y in zip(*((g2, want2) if uhf else ((g2,), (want2,)))):
        mon.close("two-particle density matrix", x, y, 1e-10, tag)
    r2 = solver.make_rdm2()
    for x, y in zip(*((r2, want2) if uhf else ((r2,), (want2,)))):
        mon.close("two-particle density matrix", x, y, 1e-10, tag)
    if eb.nbos:
        for x, y in zip(solver.make_rdm_eb(), deb):
            mon.close("electron-boson density matrix", x, y, 1e-10, tag)
        mon.event("bosons", eb.nbos)
    if mom:
        co = None
        r = rng.random()
        n = eb.norb[0]
        if r < 0.6:
            k = rng.randint(1, n)
            co = [np.linalg.qr(np.random.normal(size=(n, n)))[0][:, :k] for _ in (0, 1)]
            if r < 0.3:
                co[1] = co[0]
        mx = rng.randint(1, 4)
        # the restricted solver has one set of coefficients
        arg = None if co is None else (tuple(co) if r >= 0.3 else co[0])
        dav = dm1 if uhf else [(dm1[0] + dm1[1]) / 2] * 2
        want = eb.moments(cv, h, solver.e_fci, dav, mx, co)
        got = solver.make_dd_moms(mx, coeffs=arg)
        for k in range(mx + 1):
            for x, y in zip(got[k], want[k]):
                mon.close("moment %s" % ("0" if k == 0 else "n"), x, y, 1e-7 * max(1, abs(y).max()), "%s order %d of %d coeffs %s" % (tag, k, mx, None if co is None else co[0].shape))
        mon.event("moments")
    return ground


def run_op(case, mon, rng, rs):
    from vayesta.solver.eb_fci import REBFCI, UEBFCI

    uhf = case["uhf"]
    n = rng.choice([2, 2, 3, 3, 4])
    na = rng.randint(1, n)
    nb = rng.randint(1 if n < 4 else 2, n) if uhf else na
    nbos = rng.choice([0, 1, 1, 2, 2, 3])
    m = rng.choice([1, 2, 3]) if nbos < 3 else 1
    if n == 4 and nbos == 3:
        nbos = 2
    nel = (na, nb)
    ra = 0.3 * sym_eri(rs, n)
    rb = 0.3 * sym_eri(rs, n) if uhf else ra
    eri = [np.einsum("Lpq,Lrs->pqrs", x, y) * 0.3 for x, y in ((ra, ra), (ra, rb), (rb, rb))]
    h = []
    for s in (0, 1):
        x = rs.normal(size=(n, n)) * 0.25
        h.append(x + x.T + np.diag(np.arange(n) * 0.9))
    if not uhf:
        h[1] = h[0]
    w = rs.uniform(0.3, 1.5, nbos)
    g = [0.15 * rs.normal(size=(nbos, n, n)) for s in (0, 1)]
    if not uhf:
        g[1] = g[0]
    tag = "uhf=%s n=%d nel=%s nbos=%d m=%d" % (uhf, n, nel, nbos, m)
    eb = EB((n, n), nel, nbos, m)
    if eb.de * eb.db > 1600:
        raise Skip("size")
    hh = eb.ham(h, eri, w, g)
    fh = FakeHam(n, nel, h, eri, w, g, uhf)
    sol = (UEBFCI if uhf else REBFCI)(fh, w, fh.couplings, max_boson_occ=m, conv_tol=1e-13, max_cycle=300)
    sol.kernel()
    judge(mon, tag, sol, eb, hh, uhf, rng)
    mon.event("uop" if uhf else "op")
    mon.event("op")
    mon.seen("op", tag)


# --- clusters of an embedding with given bosons


def cluster(case, mon, rng, mf, bath=None):
    import vayesta.ewf

    nat = mf.mol.natm
    bt = bath or rng.choice(["dmet", "dmet", "full"])
    emb = vayesta.ewf.EWF(mf, solver="FCI", bath_options=dict(bathtype=bt), match_cluster_fock=rng.random() < 0.3)
    with rng.choice([emb.iao_fragmentation, emb.sao_fragmentation])() as f:
        fr = f.add_atomic_fragment(sorted(rng.sample(range(nat), rng.randint(1, max(1, nat // 2)))))
    fr.make_bath()
    fr.make_cluster()
    return emb, fr


def bare(x, dn, fr, uhf, fockmatch=False):
    """Cluster Hamiltonian from dense integrals: per-spin (h, eri), orbitals."""
    c = fr.cluster.c_active if uhf else (fr.cluster.c_active,) * 2
    co = fr.cluster.c_active_occ if uhf else (fr.cluster.c_active_occ,) * 2
    tot = x  # per-spin AO densities of the mean field
    dact = [y @ y.T for y in co]
    v = dn.veff([t - d for t, d in zip(tot, dact)])
    h = [a.T @ (dn.h + b) @ a for a, b in zip(c, v)]
    eri = [dn.tr(c[a], c[a], c[b], c[b]) for a, b in ((0, 0), (0, 1), (1, 1))]
    return c, h, eri


def run_ham(case, mon, rng, rs):
    from lib import systems as S
    from vayesta.solver.hamiltonian import ClusterHamiltonian
    from vayesta.solver import get_solver_class

    sp = case["sys"]
    mf = S.get_mf(sp)
    if S.gap(mf) < 0.05:
        raise Skip("gap")
    uhf = np.ndim(mf.mo_coeff[0]) == 2
    emb, fr = cluster(case, mon, rng, mf)
    n = fr.cluster.norb_active
    n = n[0] if uhf else n
    no = fr.cluster.nocc_active if uhf else (fr.cluster.nocc_active,) * 2
    if n > 5 or min(no) < 1:
        raise Skip("size")
    nbos = rng.choice([1, 1, 2]) if n < 5 else 1
    m = {1: 7, 2: 4}[nbos] if n < 5 else 5
    w = rs.uniform(0.8, 2.0, nbos)
    amp = 0.06
    g = [amp * rs.normal(size=(nbos, n, n)) for s in (0, 1)]
    mode = rng.choice(["random", "number", "zero", "random"])
    if mode == "number":
        z = rs.normal(size=nbos) * 0.15
        g = [np.einsum("n,pq->npq", z, np.eye(n))] * 2
    if mode == "zero":
        g = [np.zeros((nbos, n, n))] * 2
    if not uhf:
        g = [g[0], g[0]]
    g = [x.copy() for x in g]
    fr.bos_freqs, fr.couplings = w, tuple(g)
    keep = [x.copy() for x in g] + [w.copy()]
    dn = Dense(mf, sp)
    d = np.asarray(mf.make_rdm1())
    d = [d[0], d[1]] if uhf else [d / 2, d / 2]
    c, h, eri = bare(d, dn, fr, uhf)
    if emb.opts.match_cluster_fock:
        h = None
    tag = "%s uhf=%s n=%d nbos=%d m=%d %s match=%s" % (sp["name"], uhf, n, nbos, m, mode, emb.opts.match_cluster_fock)
    res = {}
    eb = EB((n, n), tuple(int(x) for x in no), nbos, m)
    if eb.de * eb.db > 1700:
        raise Skip("size")
    vext = None
    if rng.random() < 0.4:
        y = rs.normal(size=(n, n)) * 0.1
        vext = y + y.T
    for shift in (True, False):
        hm = ClusterHamiltonian(fr, emb.mf, log=emb.log, match_fock=emb.opts.match_cluster_fock, polaritonic_shift=shift)
        if vext is not None:
            hm.v_ext = (vext, vext) if uhf else vext
        mon.true("electron-boson Hamiltonian", type(hm).__name__ == ("EB_UClusterHamiltonian" if uhf else "EB_RClusterHamiltonian"), type(hm).__name__)
        cls = get_solver_class(hm, "FCI")
        if not shift:
            # the unshifted Hamiltonian is the stated operator
            hf = hm.get_heff()
            hf = list(hf) if uhf else [hf, hf]
            if h is not None:
                for a, b in zip(hf, h):
                    mon.close("one-electron part", a, b + (vext if vext is not None else 0), 1e-8, tag)
            er = hm.get_eris_screened()
            for a, b in zip(er if uhf else (er,), eri):
                mon.close("interaction", a, b, 1e-8, tag)
            cp = hm.couplings
            for a, b in zip(cp if uhf else (cp,), g):
                mon.close("couplings", a, b, 1e-12, tag)
        else:
            hf = hm.get_heff()
            hf = list(hf) if uhf else [hf, hf]
            cp = hm.couplings
            s = np.array([sum(np.trace(g[t][k][:no[t], :no[t]]) for t in (0, 1)) for k in range(nbos)]) / w
            cp = list(cp) if uhf else [cp, cp]
            # mean-field boson displacement vanishes
            for k in range(nbos):
                mon.zero("no mean-field displacement after the shift", sum(np.trace(cp[t][k][:no[t], :no[t]]) for t in (0, 1)), 1e-10, tag)
            h0 = h
            if h0 is not None:
                for t in (0, 1):
                    want = h0[t] + (vext if vext is not None else 0) - np.einsum("npq,n->pq", g[t] + g[t].transpose(0, 2, 1), s)
                    mon.close("shifted one-electron part", hf[t], want, 1e-8, tag)
        sol = cls(hm, max_boson_occ=m)
        sol.kernel()
        wf = sol.wf
        dm1 = wf.make_rdm1()
        res[shift] = (np.array(dm1), [np.array(x) for x in (wf.make_rdm2() if uhf else (wf.make_rdm2(),))], np.array(wf.make_rdm_eb()), wf.make_dd_moms(1), hf, hm)
    # operator equality: both descriptions have the same low-lying spectrum in a converged boson space
    hf0, hf1 = res[False][4], res[True][4]
    hh0 = eb.ham(hf0, eri, w, g)
    cp1 = res[True][5].couplings
    cp1 = list(cp1) if uhf else [cp1, cp1]
    hh1 = eb.ham(hf1, eri, w, cp1)
    xi = res[True][5].polaritonic_shift
    e0, v0 = np.linalg.eigh(hh0)
    e1 = np.linalg.eigvalsh(hh1) + (w * xi ** 2).sum()
    if e0[1] - e0[0] < 0.02:
        raise Skip("degenerate")
    # truncation error: compare with the space of one quantum less
    ebs = EB((n, n), tuple(int(x) for x in no), nbos, m - 1)
    terr = abs(np.linalg.eigvalsh(ebs.ham(hf0, eri, w, g))[0] - e0[0])
    if terr > 1e-9:
        raise Skip("boson space")
    mon.close("shift leaves the ground-state energy", e1[0], e0[0], 1e-7, tag)
    mon.close("shift leaves the spectrum", e1[:3], e0[:3], 1e-5, tag)
    dm1, dm2, deb = eb.dms(v0[:, 0])
    mm = eb.moments(v0[:, 0], hh0, e0[0], dm1, 1, None)
    for shift in (True, False):
        t2 = tag + " shift=%s" % shift
        r = res[shift]
        mon.close("density matrix", r[0], np.array(dm1) if uhf else dm1[0] + dm1[1], 2e-5, t2)
        for x, y in zip(r[1], dm2 if uhf else [dm2[0] + dm2[1] + dm2[1].transpose(2, 3, 0, 1) + dm2[2]]):
            mon.close("pair density matrix", x, y, 5e-5, t2)
        mon.close("electron-boson density matrix of the original bosons", r[2], np.array(deb), 5e-5, t2)
        for k in (0, 1):
            for x, y in zip(r[3][k], mm[k]):
                mon.close("moments", x, y, 5e-5, t2)
    if mode != "random":
        # exactly solvable: free bosons (displaced)
        from pyscf import fci

        ef = np.linalg.eigvalsh(EB((n, n), tuple(int(x) for x in no), 0, 0).ham(hf0, eri, w[:0], [x[:0] for x in g]))[0]
        nel = sum(no)
        z = np.array([g[0][k][0, 0] for k in range(nbos)])
        mon.close("displaced oscillators", e0[0], ef - (nel ** 2 * z ** 2 / w).sum(), 1e-7, tag)
    for a, b in zip(keep, list(g) + [w]):
        mon.close("arguments untouched", b, a, 1e-15, tag)
    mon.event("ham")
    mon.event("shift")
    if uhf:
        mon.event("uham")
    if no[0] != no[1]:
        mon.event("open shell")
    mon.event("bosons", nbos)
    mon.seen("ham", tag)


# --- EDMET


def spin_dm(mf, uhf):
    d = np.asarray(mf.make_rdm1())
    return [d[0], d[1]] if uhf else [d / 2, d / 2]


def response(mf, dn, uhf):
    """Dense direct-RPA matrices over all spin-conserving excitations of a mean field."""
    from props.c15 import LR

    c = tuple(mf.mo_coeff) if uhf else (mf.mo_coeff,) * 2
    e = tuple(mf.mo_energy) if uhf else (mf.mo_energy,) * 2
    occ = tuple(mf.mo_occ) if uhf else (mf.mo_occ,) * 2
    no = [int((o > 0).sum()) for o in occ]
    co, cv = [x[:, :n] for x, n in zip(c, no)], [x[:, n:] for x, n in zip(c, no)]
    nov = [a.shape[1] * b.shape[1] for a, b in zip(co, cv)]
    v = np.block([[dn.tr(co[s], cv[s], co[t], cv[t]).reshape(nov[s], nov[t]) for t in (0, 1)] for s in (0, 1)])
    return LR(e, no, v), co, cv, nov


def moment0(a, b):
    p, m = a + b, a - b
    e, u = np.linalg.eigh(p)
    if e.min() < 1e-8:
        raise Skip("unstable")
    r, ri = (u * e ** 0.5) @ u.T, (u * e ** -0.5) @ u.T
    w2, z = np.linalg.eigh(r @ m @ r)
    return ri @ (z * np.sqrt(np.maximum(w2, 0))) @ z.T @ ri, np.sqrt(np.maximum(w2, 0))


def make_edmet(mf, groups, frag, opts):
    import vayesta.edmet

    emb = vayesta.edmet.EDMET(mf, solver="FCI", oneshot=True, make_dd_moments=False, **opts)
    with (emb.site_fragmentation() if frag == "site" else emb.iao_fragmentation() if frag == "iao" else emb.sao_fragmentation()) as f:
        for g in groups:
            f.add_atomic_fragment(g)
    return emb


def to_uhf(mf):
    return mf.to_uhf()


def run_edmet(case, mon, rng, rs):
    from lib import systems as S

    sp = case.get("sys")
    mf = S.get_mf(sp) if sp else lattice_mf(case)
    if S.gap(mf) < 0.1:
        raise Skip("gap")
    uhf = np.ndim(mf.mo_coeff[0]) == 2
    nat = mf.mol.natm if sp else case["n"]
    df = bool(sp and sp.get("df"))
    dn = Dense(mf, sp)
    lr, co, cv, nov = response(mf, dn, uhf)
    inter = rng.choice(["direct", "xc", "direct"] + (["qba", "qba_bos_ex"] if df else []))
    frag = "site" if not sp else rng.choice(["iao", "sao"])
    idx = list(range(nat))
    if sp:
        rng.shuffle(idx)
    groups = [sorted(idx[i:i + 2]) for i in range(0, nat, 2)]
    maxb = rng.choice([None, None, 1, 2, 0])
    m = rng.choice([1, 2])
    opts = dict(bosonic_interaction=inter, solver_options=dict(max_boson_occ=m, conv_tol=1e-13), max_elec_err=1e-6)
    if maxb is not None:
        opts["max_bos"] = maxb
    tag = "%s uhf=%s df=%s %s %s %s max_bos=%s m=%d" % (sp["name"] if sp else "latt", uhf, df, inter, frag, groups, maxb, m)
    emb = make_edmet(mf, groups, frag, opts)
    # size of the exact diagonalisation
    for f in emb.fragments:
        nn = f.n_frag if not uhf else max(f.n_frag)
        if nn > 2:
            raise Skip("size")
    with_all = maxb is None
    if with_all and (sum(nov) > 16 and not (sp and sp["name"] in ("h3", "h4", "h4chain"))):
        emb.opts.max_bos = maxb = 2
        for f in emb.fragments:
            f.opts.max_bos = 2
    emb.kernel()
    dmf = spin_dm(mf, uhf)
    s = mf.get_ovlp()
    qt = 2e-5 if df else 1e-7
    eloc = 0.0
    nel = 0.0
    esum = 0.0
    for f in emb.fragments:
        t2 = "%s | %s" % (tag, f.name)
        cl = f.cluster
        one = (lambda x: tuple(x)) if uhf else (lambda x: (x, x))
        ca, cao, cav = one(cl.c_active), one(cl.c_active_occ), one(cl.c_active_vir)
        nao = [x.shape[1] for x in cao]
        n = [x.shape[1] for x in ca]
        rot = []
        for t in (0, 1):
            ro, rv = cao[t].T @ s @ co[t], cav[t].T @ s @ cv[t]
            rot.append(np.einsum("Ii,Aa->IAia", ro, rv).reshape(nao[t] * (n[t] - nao[t]), nov[t]))
        oa, ob = rot[0].shape[0], rot[1].shape[0]
        rf = np.zeros((oa + ob, sum(nov)))
        rf[:oa, :nov[0]], rf[oa:, nov[0]:] = rot
        rb = f.r_bos
        nb = rb.shape[0]
        mon.zero("bosons orthonormal", rb @ rb.T - np.eye(nb), 1e-8, t2)
        mon.zero("bosons outside the cluster", rb @ rf.T, 1e-6, t2)
        mon.close("coupling of cluster excitations to the system", f.rpa_mom, rf @ lr.eta0, qt, t2)
        if maxb is None:
            env = rf @ lr.eta0 @ (np.eye(sum(nov)) - rf.T @ rf)
            mon.zero("bosons span the environment seen by the cluster", env - env @ rb.T @ rb, 1e-4 if df else 1e-6, t2)
        r = np.concatenate([rf, rb])
        mon.close("zeroth moment in the bosonic space", f.eta0_bos, rb @ lr.eta0 @ rb.T, 5 * qt, t2)
        # local correlation energy
        pf = []
        for t in (0, 1):
            cf = one(f.c_frag)[t]
            x = cf.T @ s @ cao[t]
            pf.append(np.kron(x.T @ x, np.eye(n[t] - nao[t])))
        p = np.zeros((oa + ob,) * 2)
        p[:oa, :oa], p[oa:, oa:] = pf
        if maxb is None:
            loc = 0.5 * (np.trace(p @ rf @ lr.eta0 @ lr.P @ rf.T) - np.trace(p @ rf @ lr.A @ rf.T))
            mon.close("local RPA correlation energy", f.loc_erpa, loc, 1e-5 if df else 1e-7, t2)
        eloc += f.loc_erpa
        g = [np.asarray(x) for x in f.couplings]
        w = np.asarray(f.bos_freqs)
        if "qba" not in inter and maxb is None:
            # the electron-boson Hamiltonian reproduces the response of the system in the cluster
            a = rf @ lr.A @ rf.T
            b = rf @ lr.B @ rf.T
            nn = oa + ob + nb
            aa, bb = np.zeros((nn, nn)), np.zeros((nn, nn))
            aa[:oa + ob, :oa + ob], bb[:oa + ob, :oa + ob] = a, b
            ga = np.concatenate([x[:, :k, k:].reshape(nb, k * (x.shape[2] - k)) for x, k in zip(g, nao)], axis=1)
            gb = np.concatenate([x[:, k:, :k].transpose(0, 2, 1).reshape(nb, k * (x.shape[2] - k)) for x, k in zip(g, nao)], axis=1)
            aa[oa + ob:, :oa + ob], bb[oa + ob:, :oa + ob] = ga, gb
            aa[:oa + ob, oa + ob:], bb[:oa + ob, oa + ob:] = ga.T, gb.T
            aa[oa + ob:, oa + ob:] = np.diag(w)
            eta, _ = moment0(aa, bb)
            mon.close("response of the electron-boson Hamiltonian", eta[:oa + ob, :oa + ob], rf @ lr.eta0 @ rf.T, 2e-4 if df else 1e-5, t2)
            for x, k in zip(g, nao):
                mon.zero("couplings connect occupied and virtual orbitals", [x[:, :k, :k].sum() if x.size else 0, abs(x[:, k:, k:]).sum()], 1e-12, t2)
            mon.event("rpa match")
        if "qba" in inter and nb:
            qba(mon, t2, f, dn, mf, uhf, lr, ca, cao, cav, co, cv, nov, rb, g, w, "bos_ex" in inter)
        mon.event("bosons", nb)
        # solution and energy
        res = f.results
        dm1 = one(res.dm1) if uhf else (res.dm1 / 2,) * 2
        h = [x.T @ dn.h @ x for x in ca]
        v = dn.veff(dmf)
        froz = [d - x @ x.T for d, x in zip(dmf, cao)]
        vf = dn.veff(froz)
        heff = [x.T @ (dn.h + y) @ x for x, y in zip(ca, vf)]
        eri = [dn.tr(ca[i], ca[i], ca[j], ca[j]) for i, j in ((0, 0), (0, 1), (1, 1))]
        pc = []
        for t in (0, 1):
            x = one(f.c_frag)[t].T @ s @ ca[t]
            pc.append(x.T @ x)
        e1 = 0.5 * sum(np.trace(pc[t] @ (h[t] + heff[t]) @ dm1[t]) for t in (0, 1))
        if uhf:
            daa, dab, dbb = res.dm2
            e2 = 0.5 * (np.einsum("pt,tqrs,pqrs->", pc[0], eri[0], daa) + np.einsum("pt,tqrs,pqrs->", pc[0], eri[1], dab)
                        + np.einsum("rt,pqts,pqrs->", pc[1], eri[1], dab) + np.einsum("pt,tqrs,pqrs->", pc[1], eri[2], dbb))
        else:
            e2 = 0.5 * np.einsum("pt,tqrs,pqrs->", pc[0], eri[0], res.dm2)
        mon.close("one-electron energy", res.e1, e1, 1e-7, t2)
        mon.close("interaction energy", res.e2, e2, 1e-7, t2)
        ec = g if "qba" not in inter else [np.asarray(x) for x in f.energy_couplings]
        if nb and "qba" not in inter:
            # <P (g b+ p+q + h.c.)> with the projector shared between both fermionic indices
            efb = sum(0.5 * (np.einsum("pr,npq,rqn->", pc[t], ec[t], res.dm_eb[t]) + np.einsum("qr,npq,prn->", pc[t], ec[t], res.dm_eb[t])) for t in (0, 1))
            mon.close("electron-boson energy", res.e_fb, efb, 1e-8, t2)
        esum += e1 + e2 + res.e_fb
        nel += sum(np.trace(pc[t] @ dm1[t]) for t in (0, 1))
        # state
        nbd = nb
        eb = None
        from math import comb
        dim = comb(n[0], nao[0]) * comb(n[1], nao[1]) * (m + 1) ** nbd
        if dim <= 1500:
            eb = EB(tuple(n), tuple(nao), nbd, m)
            hf = f.hamil.get_heff()
            hf = list(hf) if uhf else [hf, hf]
            gs = f.hamil.couplings
            gs = list(gs) if uhf else [gs, gs]
            hh = eb.ham(hf, eri, w, gs)
            ev, vec = np.linalg.eigh(hh)
            if ev[1] - ev[0] > 0.02:
                a1, a2, aeb = eb.dms(vec[:, 0])
                mon.close("cluster density matrix", np.array(dm1), np.array(a1) if uhf else np.array([(a1[0] + a1[1]) / 2] * 2), 5e-5, t2)
                xi = f.hamil.polaritonic_shift
                if nb:
                    want = [y - np.einsum("n,pq->pqn", xi, x) for x, y in zip(a1, aeb)]
                    mon.close("cluster electron-boson density matrix", np.array(res.dm_eb), np.array(want), 1e-4, t2)
                mon.event("state")
            # one-electron part: effective Hamiltonian up to the chemical potential and the shift
            d = []
            for t in (0, 1):
                x = hf[t] - heff[t]
                if nb:
                    x = x + np.einsum("npq,n->pq", g[t] + g[t].transpose(0, 2, 1), f.hamil.polaritonic_shift)
                d.append(x)
            mu = np.trace(d[0] @ pc[0]) / max(1e-12, np.trace(pc[0] @ pc[0]))
            for t in (0, 1):
                mon.zero("cluster Hamiltonian with a chemical potential on the fragment", d[t] - mu * pc[t], 1e-6, t2)
    ntot = sum(np.trace(d @ s) for d in dmf)
    mon.close("number of electrons", nel, ntot, 5e-5 if len(emb.fragments) else 1, tag)
    mon.close("RPA energy", emb.e_rpa, lr.plasmon, 5e-4 if df else 1e-6, tag) if not df else None
    mon.close("nonlocal energy", emb.e_nonlocal, emb.e_rpa - eloc, 1e-9, tag)
    mon.close("total energy", emb.e_tot, esum + emb.e_nonlocal + mf.mol.energy_nuc(), 1e-6, tag)
    mon.event("edmet")
    if uhf:
        mon.event("uedmet")
        if sp and sp["name"] in ("h3", "h5"):
            mon.event("open shell")
    mon.seen("edmet", tag)
    e0 = emb.e_tot
    op = rng.choice(["again", "unrestricted", "again", "order"])
    if op == "again":
        emb.kernel()
        mon.close("second calculation", emb.e_tot, e0, 2e-6, tag)
    elif op == "order":
        o = make_edmet(mf, groups[::-1], frag, dict(opts, max_bos=np.inf if maxb is None else maxb))
        o.kernel()
        mon.close("order of fragments", o.e_tot, e0, 2e-6, tag)
    elif not uhf and sp:
        o = make_edmet(to_uhf(mf), groups, frag, dict(opts, max_bos=np.inf if maxb is None else maxb))
        o.kernel()
        # truncation to a given number of bosons may cut through spin-degenerate singular values
        mon.close("restricted and unrestricted", o.e_tot, e0, 5e-6, tag) if maxb in (None, 0) else None
        mon.event("unrestricted")


def qba(mon, tag, f, dn, mf, uhf, lr, ca, cao, cav, co, cv, nov, rb, g, w, bosex):
    """Quasi-boson Hamiltonian: matrix elements between environmental single excitations."""
    h = dn.h
    d = spin_dm(mf, uhf)
    v = dn.veff(d)
    fk = [h + x for x in v]
    a = np.diag(lr.eps)
    a = a + lr.v
    if bosex:
        for t in (0, 1):
            sl = slice(0, nov[0]) if t == 0 else slice(nov[0], None)
            x = dn.tr(co[t], co[t], cv[t], cv[t])
            a[sl, sl] -= x.transpose(0, 2, 1, 3).reshape(nov[t], nov[t])
    e = np.linalg.eigvalsh(rb @ a @ rb.T)
    mon.close("quasi-boson frequencies", np.sort(w), e, 1e-6, tag)
    # interaction part of the couplings: antisymmetrised repulsion; invariant to signs and rotations among equal frequencies
    ab = rb @ a @ rb.T
    kk = []
    for t in (0, 1):
        r = [rb[:, sl].reshape(len(rb), co[z].shape[1], cv[z].shape[1]) for z, sl in ((0, slice(0, nov[0])), (1, slice(nov[0], None)))]
        k = sum(np.einsum("nia,pqia->npq", r[z], dn.tr(ca[t], ca[t], co[z], cv[z])) for z in (0, 1))
        k = k - np.einsum("nia,paiq->npq", r[t], dn.tr(ca[t], cv[t], co[t], ca[t]))
        kk.append(k.transpose(0, 2, 1))
    ec = [np.asarray(x) for x in f.energy_couplings]
    for t, z in ((0, 0), (0, 1), (1, 1)):
        mon.close("quasi-boson repulsion", np.einsum("npq,nrs->pqrs", ec[t], ec[z]), np.einsum("npq,nrs->pqrs", kk[t], kk[z]), 1e-6, tag)
        mon.close("quasi-boson repulsion", np.einsum("npq,n,nrs->pqrs", ec[t], w, ec[z]), np.einsum("npq,nm,mrs->pqrs", kk[t], ab, kk[z]), 1e-6, tag)
    # the one-body rest: total number operator and Fock part, without an occupied-virtual excitation part
    nel = sum(x.shape[1] for x in cao)
    for t in (0, 1):
        no = cao[t].shape[1]
        rest = (g[t] - ec[t]).transpose(0, 2, 1)
        mon.zero("no Fock part in excitations", rest[:, :no, no:], 1e-6, tag)
    # normal ordered to the mean field: couplings have no expectation value besides the Fock part
    xs = sum(np.einsum("npp->n", g[t][:, :cao[t].shape[1], :cao[t].shape[1]]) for t in (0, 1))
    fo = sum(np.einsum("nia,ia->n", rb[:, sl].reshape(len(rb), co[z].shape[1], cv[z].shape[1]), co[z].T @ fk[z] @ cv[z]) for z, sl in ((0, slice(0, nov[0])), (1, slice(nov[0], None))))
    mon.close("mean-field expectation value of the couplings", (xs ** 2).sum(), (fo ** 2).sum(), 1e-6, tag)
    mon.event("qba")


def run_whole(case, mon, rng, rs):
    """One fragment that is the whole system: full configuration interaction."""
    import vayesta.edmet
    from lib import ci, systems as S

    sp = case["sys"]
    mf = S.get_mf(sp)
    if S.gap(mf) < 0.05:
        raise Skip("gap")
    uhf = np.ndim(mf.mo_coeff[0]) == 2
    dn = Dense(mf, sp)
    c = tuple(mf.mo_coeff) if uhf else (mf.mo_coeff,) * 2
    n = c[0].shape[1]
    occ = tuple(mf.mo_occ) if uhf else (mf.mo_occ,) * 2
    nel = tuple(int((x > 0).sum()) for x in occ)
    if n > 6:
        raise Skip("size")
    eri = [dn.tr(c[a], c[a], c[b], c[b]) for a, b in ((0, 0), (0, 1), (1, 1))]
    h = [x.T @ dn.h @ x for x in c]
    ev = np.linalg.eigvalsh(EB((n, n), nel, 0, 0).ham(h, eri, np.zeros(0), [np.zeros((0, n, n))] * 2))
    inter = rng.choice(["direct", "xc"] + (["qba"] if sp.get("df") else []))
    emb = make_edmet(mf, [list(range(mf.mol.natm))], "sao", dict(bosonic_interaction=inter, solver_options=dict(max_boson_occ=2, conv_tol=1e-13)))
    emb.kernel()
    tag = "%s uhf=%s df=%s %s" % (sp["name"], uhf, sp.get("df"), inter)
    f = emb.fragments[0]
    mon.eq("no environment, no bosons", f.r_bos.shape[0], 0, tag)
    mon.close("no environment, no nonlocal energy", emb.e_nonlocal, 0.0, 2e-5 if sp.get("df") else 1e-8, tag)
    mon.close("full configuration interaction", emb.e_tot - emb.e_nonlocal, ev[0] + mf.mol.energy_nuc(), 1e-6, tag)
    mon.event("whole")
    if nel[0] != nel[1]:
        mon.event("open shell")
    mon.seen("whole", tag)


# --- quasi-bosonic bath


def run_bath(case, mon, rng, rs):
    import vayesta.ewf
    from lib import systems as S
    from vayesta.core.bosonic_bath.projected_interactions import BosonicHamiltonianProjector

    sp = case["sys"]
    mf = S.get_mf(sp)
    if S.gap(mf) < 0.1:
        raise Skip("gap")
    dn = Dense(mf, sp)
    lr, co, cv, nov = response(mf, dn, False)
    target = rng.choice(["full", "dmet"])
    loc = rng.choice([None, "fragment", "fragmentocc", "fragmentov"])
    bt = rng.choice(["dmet", "mp2"])
    thr = 10 ** rng.uniform(-7, -2)
    emb = vayesta.ewf.EWF(mf, solver="CCSD-S-1-1", bath_options=dict(bathtype=bt, **(dict(threshold=1e-3) if bt == "mp2" else {})),
                          bosonic_bath_options=dict(bathtype="rpa", target_orbitals=target, local_projection=loc, threshold=thr))
    nat = mf.mol.natm
    groups = S.partition(rng, nat, k=2)
    with emb.iao_fragmentation() as f:
        for g in groups:
            f.add_atomic_fragment(g)
    for f in emb.fragments:
        f.make_bath()
        f.make_cluster()
    emb.build_screened_interactions()
    tag = "%s %s %s %s thr=%.1e %s" % (sp["name"], target, loc, bt, thr, groups)
    s = mf.get_ovlp()
    c_o, c_v = co[0], cv[0]
    for f in emb.fragments:
        cl = f.cluster
        # target space
        if target == "full":
            to, tv = cl.c_active_occ, cl.c_active_vir
        else:
            to, tv = f._dmet_bath.c_cluster_occ, f._dmet_bath.c_cluster_vir
        xo, xv = c_o.T @ s @ to, c_v.T @ s @ tv
        cf = f.c_frag
        if loc is not None:
            po = c_o.T @ s @ cf
            xo = xo @ (xo.T @ po) @ (po.T @ xo)
        if loc == "fragmentov":
            pv = c_v.T @ s @ cf
            xv = xv @ (xv.T @ pv) @ (pv.T @ xv)
        t = np.einsum("iI,aA->IAia", xo, xv).reshape(-1, nov[0])
        t = np.hstack([t, t])
        got_t = f.make_bosonic_bath_target()[0]
        # a target space is a set of vectors; what matters is the operator they define
        mon.close("target space", got_t.T @ got_t, t.T @ t, 1e-8, tag)
        m0 = t @ lr.eta0
        ro, rv = cl.c_active_occ.T @ s @ c_o, cl.c_active_vir.T @ s @ c_v
        ov = np.einsum("Ii,Aa->IAia", ro, rv).reshape(-1, nov[0]) / np.sqrt(2)
        ov = np.hstack([ov, ov])
        env = m0 - m0 @ ov.T @ ov
        want = np.sort(np.linalg.svd(env, compute_uv=False) ** 2)[::-1]
        occ = np.asarray(f._boson_bath_factory.occup)
        k = min(len(want), len(occ))
        mon.close("bath occupations", occ[:k], want[:k], 1e-6, tag)
        b = cl.bosons
        rb = b.coeff_ex
        nb = rb.shape[0]
        mon.eq("bosons above the threshold", nb, int((occ >= thr).sum()) if abs(occ - thr).min() > 1e-9 else nb, tag)
        mon.event("bath")
        mon.seen("bath", tag)
        if nb == 0:
            continue
        if occ[:nb].min() < 1e-9:
            continue
        tl = 1e-10 / occ[:nb].min() + 1e-7
        mon.zero("bosons orthonormal", rb @ rb.T - np.eye(nb), max(tl, 1e-6), tag)
        mon.zero("bosons outside the cluster", rb @ ov.T, max(tl, 1e-6), tag)
        u, sv, vt = np.linalg.svd(env, full_matrices=False)
        if nb < len(sv) and sv[nb - 1] ** 2 - sv[nb] ** 2 > 1e-4 * sv[0] ** 2 or nb == len(sv):
            mon.zero("bosons are the leading environmental excitations", rb.T @ rb - vt[:nb].T @ vt[:nb], 2e-3, tag)
        # excitations in the AO basis
        for x, sl in zip(b.coeff_3d_ao, (slice(0, nov[0]), slice(nov[0], None))):
            mon.close("bosons in the AO basis", x, np.einsum("nia,pi,qa->npq", rb[:, sl].reshape(nb, c_o.shape[1], c_v.shape[1]), c_o, c_v), 1e-9, tag)
        mon.event("bosons", nb)
        before = rb.copy()
        hm = f.hamil
        w = np.asarray(hm.bos_freqs)
        a = np.diag(lr.eps) + lr.v
        e, z = np.linalg.eigh(before @ a @ before.T)
        mon.close("boson frequencies", w, e, 1e-6, tag)
        new = f.cluster.bosons.coeff_ex
        mon.close("bosons after decoupling", np.sort(np.einsum("ni,ij,nj->n", new, a, new)), e, 1e-6, tag)
        mon.zero("bosons after decoupling", new @ a @ new.T - np.diag(w), 1e-6, tag)
        g = hm.unshifted_couplings
        mon.close("restricted couplings", g[0], g[1], 1e-8, tag)
        p = BosonicHamiltonianProjector(cl, hm._get_cderi, emb.mf, log=emb.log)
        gc = np.array(p.project_couplings(exchange=False))
        mon.close("couplings without exchange", gc[0], gc[1], 1e-8, tag)


# --- coupled cluster with bosons


def run_ebcc(case, mon, rng, rs):
    from lib import systems as S
    from vayesta.solver.hamiltonian import ClusterHamiltonian
    from vayesta.solver import get_solver_class

    sp = case["sys"]
    mf = S.get_mf(sp)
    if S.gap(mf) < 0.1:
        raise Skip("gap")
    uhf = np.ndim(mf.mo_coeff[0]) == 2
    emb, fr = cluster(case, mon, rng, mf)
    emb.opts.match_cluster_fock = False
    n = fr.cluster.norb_active
    n = n[0] if uhf else n
    no = fr.cluster.nocc_active if uhf else (fr.cluster.nocc_active,) * 2
    if n > 6 or min(no) < 1 or n - max(no) < 1:
        raise Skip("size")
    if no[0] != no[1]:
        raise Skip("ebcc builds its first boson amplitudes with the alpha occupation in both spin channels")
    nbos = rng.choice([1, 2])
    w = rs.uniform(0.8, 2.0, nbos)
    z = rs.normal(size=nbos) * 0.1
    zero = rng.random() < 0.5
    g = np.einsum("n,pq->npq", 0 * z if zero else z, np.eye(n))
    tag = "%s uhf=%s n=%d nbos=%d %s" % (sp["name"], uhf, n, nbos, "zero" if zero else "number")
    ref = get_solver_class(ClusterHamiltonian(fr, emb.mf, log=emb.log), "CCSD")(ClusterHamiltonian(fr, emb.mf, log=emb.log), conv_tol=1e-11, conv_tol_normt=1e-9)
    ref.kernel()
    fr.bos_freqs, fr.couplings = w, (g, g)
    hm = ClusterHamiltonian(fr, emb.mf, log=emb.log)
    cls = get_solver_class(hm, "CCSD-S-1-1")
    sol = cls(hm, conv_tol=1e-11)
    sol.kernel()
    wf = sol.wf
    t1, t2 = wf.t1 if not uhf else None, wf.t2 if not uhf else None
    amp = wf.amplitudes
    for x in ([amp.s1] if hasattr(amp, "s1") else []):
        mon.zero("bosons stay in their displaced ground state", np.asarray(x), 1e-7, tag)
    if not uhf:
        mon.close("amplitudes of the electrons", np.asarray(t1), ref.wf.t1, 1e-6, tag)
        mon.close("amplitudes of the electrons", np.asarray(t2), ref.wf.t2, 1e-6, tag)
    else:
        mon.close("amplitudes of the electrons", np.asarray(amp.t1.aa), ref.wf.t1a, 1e-6, tag)
        mon.close("amplitudes of the electrons", np.asarray(amp.t1.bb), ref.wf.t1b, 1e-6, tag)
        mon.close("amplitudes of the electrons", np.asarray(amp.t2.abab), ref.wf.t2ab, 1e-6, tag)
    mon.event("ebcc")
    mon.seen("ebcc", tag)
