"""C18: self-consistent embedding and chemical potentials reach their fixed points."""
import copy
import math
import random

import numpy as np

from lib.mon import Skip
from props.c10 import Dense, lattice_mf

RULE = ("one self-consistent calculation (Brueckner orbitals, projected DMET, DMET with correlation potential, global or per-fragment chemical potential; molecule, folded cell, lattice; RHF/UHF; "
        "DIIS, damping): every orbital update and energy, and the final state, recomputed from dense integrals and fresh embeddings; distinct = (method, system, spin, options)")
NEED = {"brueckner": 5, "pdmet": 5, "update": 40, "converged": 8, "uhf": 8, "complete": 3, "pbc": 2, "chempot": 5, "target": 5, "dmet": 5, "stop": 6, "closed-shell pair": 2}
BUDGET = {"quick": 150, "thorough": 1500}
CASE_TIMEOUT = 300
ASSUMPTIONS = ["AO integrals of PySCF; PySCF Brueckner CCD and FCI as references", "only calculations that report convergence are judged at their fixed point; DMET self-consistency on hydrogen clusters and Hubbard rings, one-shot DMET for cells"]


def cases(rng, tier):
    from lib import systems as S

    full = tier == "thorough"
    k = 4 if full else 1
    out = []
    names = ["h4", "lih", "h2o", "heh2", "oh", "h5", "bh"]
    for i in range(14 * k):
        nm = names[i % len(names)]
        sp = S.mol(rng, nm, "6-31g" if nm in ("h4", "h5", "heh2") else "sto-3g", df=rng.choice([None, True]), uhf=None if i % 3 else True, amp=0.04)
        out.append(dict(kind="scmf", w=4, rs=rng.randrange(1 << 30), sys=sp, m="bp"[(i // len(names) + i) % 2]))
    for i in range(6 * k):
        nm = ["oh", "h3", "lih", "h4", "bh", "nh"][i % 6]
        sp = S.mol(rng, nm, "sto-3g" if nm not in ("h4", "h3") else "6-31g", df=rng.choice([None, True]), uhf=True if nm in ("oh", "h3", "nh") or rng.random() < 0.4 else None, amp=0.04)
        out.append(dict(kind="conv", w=5, rs=rng.randrange(1 << 30), sys=sp, m="bp"[i // 2 % 2]))
    for i in range(4 * k):
        sp = S.mol(rng, names[i % 4], "sto-3g", df=rng.choice([None, True]), uhf=None if i % 2 else True, amp=0.04)
        out.append(dict(kind="whole", w=3, rs=rng.randrange(1 << 30), sys=sp))
    for i in range(2 * k):
        sp = S.cell(rng, "heh2", (1, 1, 1), "sto-3g", uhf=i % 2 == 1, dim=3, amp=0.05) if i % 4 == 3 else S.cell(rng, "h2", (2, 1, 1), "6-31g", uhf=i % 2 == 1, dim=3, amp=0.05)
        out.append(dict(kind="scmf", w=10, rs=rng.randrange(1 << 30), sys=sp, m="pb"[i % 2]))
    for i in range(12 * k):
        nm = names[(i * 3) % len(names)]
        sp = S.mol(rng, nm, "sto-3g" if i % 3 or nm not in ("h4", "heh2", "lih") else "6-31g", df=rng.choice([None, True]), uhf=None if i % 2 else True, amp=0.04)
        out.append(dict(kind="cpt" if i % 2 else "target", w=4, rs=rng.randrange(1 << 30), sys=sp))
    for i in range(8 * k):
        if i % 2:
            out.append(dict(kind="dmet", w=6, rs=rng.randrange(1 << 30), n=rng.choice([6, 6, 10]), u=rng.uniform(1, 6), v=0.0, uhf=i % 4 == 3, sc=i % 4 == 1))
        else:
            sp = S.mol(rng, "h6", "sto-3g", df=None, uhf=None if i % 4 else True, amp=0.04)
            out.append(dict(kind="dmet", w=6, rs=rng.randrange(1 << 30), sys=sp))
    for i in range(3 * k):
        sp = S.cell(rng, "h2", [(3, 1, 1), (2, 1, 1), (1, 1, 1)][i % 3], "sto-3g" if i % 3 < 2 else "6-31g", uhf=rng.random() < 0.5, dim=3, amp=0.05, exxdiv="ewald" if i % 2 == 0 else rng.choice(["ewald", None]))
        out.append(dict(kind="dmet", w=8, rs=rng.randrange(1 << 30), sys=sp))
    for i, c in enumerate(out):
        c["i"] = i
    return out


def run(case, mon):
    from lib import systems as S

    rng = random.Random(case["rs"])
    sp = case.get("sys")
    mf = S.get_mf(sp) if sp else lattice_mf(case)
    if not mf.converged or S.gap(mf) < 0.05:
        raise Skip("gap")
    if sp and sp["type"] == "cell":
        mon.event("pbc")
    dict(scmf=scmf, conv=conv, whole=whole, cpt=cpt, target=target, dmet=dmet)[case["kind"]](rng, sp, mf, mon, case)


def spins(x, uhf):
    return [np.asarray(y) for y in x] if uhf else [np.asarray(x)]


def proj(c):
    return c @ c.T


def det_energy(dn, co, uhf, enuc):
    """Energy of a determinant from the dense AO Hamiltonian; co = occupied orbitals per spin."""
    da, db = (proj(co[0]), proj(co[1])) if uhf else (proj(co[0]),) * 2
    j = np.einsum("pqrs,rs->pq", dn.eri, da + db, optimize=True)
    e = np.sum(dn.h * (da + db)) + 0.5 * np.sum(j * (da + db))
    for d in (da, db):
        kx = np.einsum("psrq,rs->pq", dn.eri, d, optimize=True)
        if dn.mad:
            kx = kx + dn.mad * dn.s @ d @ dn.s
        e -= 0.5 * np.sum(kx * d)
    return e + enuc


def other(mf, c, emb):
    """A mean field with the given (non-canonical) orbitals."""
    m = copy.copy(mf)
    uhf = isinstance(c, (tuple, list))
    m.mo_coeff = np.array(c) if uhf else c
    dm = m.make_rdm1(m.mo_coeff, m.mo_occ)
    f = m.get_fock(dm=dm)
    m.mo_energy = np.array([np.einsum("pi,pq,qi->i", c[s], f[s], c[s]) for s in (0, 1)]) if uhf else np.einsum("pi,pq,qi->i", c, f, c)
    m.e_tot = m.energy_tot(dm)
    m.converged = True
    return m


def make(mf, sp, gr, frag, bath, solver, **kw):
    import vayesta.ewf

    so = dict(conv_tol=1e-11, conv_tol_normt=1e-8) if solver in ("CCSD", "TCCSD") else dict(conv_tol=1e-13)
    emb = vayesta.ewf.EWF(mf, solver=solver, bath_options=bath, solver_options=so, **kw)
    with dict(iao=emb.iao_fragmentation, sao=emb.sao_fragmentation)[frag]() as f:
        for g in gr:
            f.add_atomic_fragment(g)
    return emb


def groups(rng, sp):
    n = len(sp["atom"])
    if n == 1 or rng.random() < 0.5:
        return [[i] for i in range(n)]
    k = rng.randrange(1, n)
    return [list(range(k)), list(range(k, n))]


def small(rng, tight=False):
    r = rng.random()
    if r < 0.5:
        return dict(bathtype="dmet"), "dmet"
    if r < 0.75:
        return dict(bathtype="mp2", threshold=1e-9), "mp2"
    return dict(bathtype="full"), "full"


class Trace:
    """Records every update of the mean field of an embedding, with what the clusters found before it."""

    def __init__(self, emb, m):
        self.log = []
        orig = emb.update_mf

        def upd(mo_coeff, *a, **kw):
            uhf = emb.is_uhf
            old = [x.copy() for x in spins(emb.mf.mo_coeff, uhf)]
            if m == "b":
                inp = [x.copy() for x in spins(emb.get_global_t1(), uhf)]
            else:
                inp = [x.copy() for x in spins(emb.with_scmf.get_rdm1(), uhf)]
            r = orig(mo_coeff, *a, **kw)
            self.log.append((old, inp, [x.copy() for x in spins(mo_coeff, uhf)], emb.get_e_corr()))
            return r

        emb.update_mf = upd


def fixed_occ(m, old, inp, no, s, damping):
    """Projector on the occupied space one undamped, unextrapolated update leads to."""
    if m == "b":
        x = old[:, :no] + (1 - damping) * old[:, no:] @ inp.T
        q = x @ np.linalg.inv(x.T @ s @ x) @ x.T
        return q, 1.0
    e, v = np.linalg.eigh((inp + inp.T) / 2)
    c = old @ v[:, ::-1]
    return proj(c[:, :no]), e[-no] - e[-no - 1] if no < len(e) else 1.0


def scmf(rng, sp, mf, mon, case):
    m = case["m"]
    uhf = bool(sp["uhf"])
    if uhf:
        mon.event("uhf")
    solver = "CCSD" if m == "b" or sp["type"] == "cell" else rng.choice(["CCSD", "FCI"])
    bath, bt = small(rng)
    if solver == "FCI":
        bath, bt = dict(bathtype="dmet"), "dmet"
    gr = groups(rng, sp)
    frag = rng.choice(["iao", "sao", "sao", "sao"]) if m == "b" else "sao"
    opts = dict(diis=rng.random() < 0.5, maxiter=20, etol=1e-9, dtol=1e-7)
    damping = 0.0
    if m == "b":
        opts["diis_obj"] = rng.choice(["dm1", "t1"])
        damping = rng.choice([0.0, 0.0, 0.3])
        opts["damping"] = damping
    elif rng.random() < 0.4:
        opts["dm_type"] = "demo"
    if not opts["diis"]:
        opts["maxiter"] = rng.choice([4, 20])
    c0 = [x.copy() for x in spins(mf.mo_coeff, uhf)] if sp["type"] == "mol" else None
    ref = make(mf, sp, gr, frag, bath, solver)
    ref.kernel()
    if not all(f.results.converged for f in ref.get_fragments(sym_parent=None)):
        raise Skip("cluster not converged")
    emb = make(mf, sp, gr, frag, bath, solver)
    (emb.brueckner_scmf if m == "b" else emb.pdmet_scmf)(**opts)
    tr = Trace(emb, m)
    tag = "%s %s uhf=%s %s %s %s %s" % (m, sp["name"], uhf, frag, bt, solver, opts)
    try:
        emb.kernel()
    except (RuntimeError, AssertionError) as e:
        if "egeneracy" in str(e):
            raise Skip("degenerate occupations")
        raise
    sc = emb.with_scmf
    mon.event({"b": "brueckner", "p": "pdmet"}[m])
    mon.seen("scmf", tag)
    nc = emb.ncells
    dn = Dense(emb.mf, sp)
    enuc = emb.mf.energy_nuc()
    occ = spins(emb.mf.mo_occ, uhf)
    no = [int((o > 0).sum()) for o in occ]
    mon.close("first energy", sc.energies[0], ref.e_tot, 1e-6, tag)
    mon.close("one-shot energy", sc.e_tot_oneshot, ref.e_tot, 1e-6, tag)
    mon.eq("number of updates", len(tr.log), len(sc.energies), tag)
    e_prev = None
    for k, (old, inp, new, ec) in enumerate(tr.log):
        mon.event("update")
        t = tag + " update %d" % k
        e = det_energy(dn, [c[:, :n] for c, n in zip(old, no)], uhf, enuc) / nc + ec
        mon.close("energy per iteration", sc.energies[k], e, 1e-8, t)
        if k:
            for a, b in zip(old, tr.log[k - 1][2]):
                mon.zero("orbitals carried over", a - b, 1e-12, t)
        for s in range(len(old)):
            mon.zero("orthonormal orbitals", new[s].T @ dn.s @ new[s] - np.eye(new[s].shape[1]), 1e-8, t)
            if not opts["diis"]:
                q, g = fixed_occ(m, old[s], inp[s], no[s], dn.s, damping)
                if g > 1e-3:
                    mon.close("updated occupied space", proj(new[s][:, :no[s]]), q, 1e-7 / min(1, g), t)
    mon.close("final energy", sc.e_tot, sc.energies[-1], 1e-14, tag)
    final = tr.log[-1][2]
    if c0 is not None:
        for a, b in zip(c0, spins(mf.mo_coeff, uhf)):
            mon.zero("mean field of the caller untouched", a - b, 1e-14, tag)
    if not sc.converged or sp["type"] == "cell":
        mon.note("not converged or periodic")
    else:
        mon.event("converged")
    # the embedding that starts from the final orbitals (intrinsic atomic orbitals would change with them)
    if sp["type"] == "mol" and frag == "sao":
        last = tr.log[-1][0]
        m2 = other(mf, tuple(last) if uhf else last[0], emb)
        e2 = make(m2, sp, gr, frag, bath, solver)
        e2.kernel()
        tol = 1e-6 if bt == "full" else 1e-5
        if len(tr.log) > 1:
            mon.close("fresh embedding at the last orbitals", sc.energies[-1], e2.e_tot, tol, tag)
        if sc.converged:
            x = [np.asarray(y) for y in spins(e2.get_global_t1(), uhf)] if m == "b" else None
            if m == "b":
                t1d = opts["diis"] and opts["diis_obj"] == "t1"
                mon.zero("singles vanish at convergence" + " with extrapolated singles" * t1d, np.concatenate([y.ravel() for y in x]), 2e-5, tag)
            else:
                dm = spins(e2.make_rdm1_demo() if opts.get("dm_type") == "demo" else e2.make_rdm1(), uhf)
                for s in range(len(dm)):
                    q, g = fixed_occ(m, last[s], dm[s], no[s], dn.s, 0)
                    mon.close("natural orbitals are the mean-field orbitals", q, proj(last[s][:, :no[s]]), 2e-5 / min(1, g), tag)
    # closed shell: the unrestricted calculation
    if not uhf and case["i"] % 2 and sp["type"] == "mol" and solver == "CCSD" and not (m == "p" and opts.get("dm_type") != "demo"):
        from props.c17 import uhf_of

        mon.event("closed-shell pair")
        eu = make(uhf_of(mf, sp), sp, gr, frag, bath, solver)
        (eu.brueckner_scmf if m == "b" else eu.pdmet_scmf)(**opts)
        eu.kernel()
        n = min(len(eu.with_scmf.energies), len(sc.energies))
        mon.close("unrestricted calculation of a closed shell", eu.with_scmf.energies[:n], sc.energies[:n], 2e-6, tag)


def conv(rng, sp, mf, mon, case):
    """The loop stops exactly when energy and density matrices of both spins changed by less than the tolerances."""
    m = case["m"]
    uhf = bool(sp["uhf"])
    gr = groups(rng, sp)
    n = 5

    def go(etol, dtol):
        emb = make(mf, sp, gr, "sao", dict(bathtype="dmet"), "CCSD")
        kw = dict(diis=False, maxiter=n, etol=etol, dtol=dtol)
        if m == "p":
            kw["dm_type"] = "demo"
        (emb.brueckner_scmf if m == "b" else emb.pdmet_scmf)(**kw)
        tr = Trace(emb, m)
        try:
            emb.kernel()
        except (RuntimeError, AssertionError) as e:
            if "egeneracy" in str(e):
                raise Skip("degenerate occupations")
            raise
        return emb.with_scmf, tr

    sc, tr = go(1e-15, 1e-15)
    no = [int((o > 0).sum()) for o in spins(mf.mo_occ, uhf)]
    ds = [[proj(c[:, :k]) for c, k in zip(x[2], no)] for x in tr.log]
    en = list(sc.energies)
    de = [abs(a - b) for a, b in zip(en[1:], en[:-1])]
    dd = [[np.abs(x - y).max() for x, y in zip(a, b)] for a, b in zip(ds[1:], ds[:-1])]
    if len(de) < 2 or min(de) < 1e-11:
        raise Skip("trajectory too short")
    for rep in range(2):
        k = rng.randrange(len(de))
        lo, hi = min(dd[k]), max(dd[k])
        dtol = math.sqrt(lo * hi) if hi > 1.2 * lo and rng.random() < 0.7 else hi * rng.uniform(1.1, 2)
        etol = rng.choice([1e3, de[k] * rng.uniform(1.1, 3), de[k] * rng.uniform(0.3, 0.9)])
        if rng.random() < 0.3:
            dtol, etol = 1e3, de[rng.randrange(len(de))] * rng.uniform(0.4, 2)
        if any(0.9 < x / etol < 1.1 for x in de) or any(0.9 < max(x) / dtol < 1.1 for x in dd):
            continue
        hit = [j for j in range(len(de)) if de[j] < etol and max(dd[j]) < dtol]
        s2, t2 = go(etol, dtol)
        tag = "%s %s uhf=%s %s etol=%g dtol=%g changes %s %s" % (m, sp["name"], uhf, gr, etol, dtol, de, dd)
        mon.event("stop")
        mon.seen("stop", m, uhf, len(hit) > 0, hit[:1])
        mon.eq("stops at the first iteration within the tolerances", len(s2.energies), hit[0] + 2 if hit else n, tag)
        mon.eq("convergence flag", bool(s2.converged), bool(hit), tag)


def whole(rng, sp, mf, mon, case):
    """One cluster of the whole system: the Brueckner orbitals of PySCF."""
    from pyscf import cc
    from pyscf.cc import bccd

    uhf = bool(sp["uhf"])
    gr = [list(range(len(sp["atom"])))]
    bath = dict(bathtype="full")
    opts = dict(diis=rng.random() < 0.6, diis_obj=rng.choice(["dm1", "t1"]), maxiter=60, etol=1e-9, dtol=1e-7)
    emb = make(mf, sp, gr, "sao", bath, "CCSD")
    emb.brueckner_scmf(**opts)
    emb.kernel()
    tag = "%s uhf=%s %s" % (sp["name"], uhf, opts)
    mon.event("brueckner")
    if uhf:
        mon.event("uhf")
    if not emb.with_scmf.converged:
        mon.note("not converged")
        return
    mon.event("converged")
    mycc = cc.CCSD(mf)
    mycc.verbose = 0
    mycc.conv_tol, mycc.conv_tol_normt = 1e-10, 1e-7
    mycc.kernel()
    if not mycc.converged:
        raise Skip("reference")
    mb = bccd.bccd_kernel_(mycc, diis=True, verbose=0, conv_tol_normu=1e-6)
    if np.max([np.abs(x).max() for x in (mb.t1 if uhf else [mb.t1])]) > 1e-4:
        raise Skip("reference")
    mon.event("complete")
    mon.seen("whole", tag)
    t1d = opts["diis"] and opts["diis_obj"] == "t1"
    mon.close("Brueckner energy of the complete system" + " with extrapolated singles" * t1d, emb.with_scmf.e_tot, mb.e_tot, 2e-6, tag)


def cpt(rng, sp, mf, mon, case):
    """Global chemical potential: correct electron number."""
    uhf = bool(sp["uhf"])
    if uhf:
        mon.event("uhf")
    solver = rng.choice(["CCSD", "FCI"])
    bath, bt = small(rng)
    if solver == "FCI":
        bath, bt = dict(bathtype="dmet"), "dmet"
    gr = groups(rng, sp)
    emb = make(mf, sp, gr, "sao", bath, solver)
    emb.optimize_chempot(robust=rng.random() < 0.3)
    tag = "%s uhf=%s %s %s" % (sp["name"], uhf, bt, solver)
    try:
        emb.kernel()
    except ValueError as e:
        if "hemical potential not in" in str(e):
            raise Skip("no bracket")
        raise
    if not all(f.results.converged for f in emb.fragments):
        raise Skip("cluster not converged")
    mon.event("chempot")
    mon.seen("chempot", tag)
    dn = Dense(emb.mf, sp)
    mu = emb.opts.global_frag_chempot
    ne, dm = 0.0, 0.0
    tol = 1e-6 if solver == "CCSD" else 1e-7
    for f in emb.fragments:
        # the option is the potential itself: positive values repel electrons
        ne += cluster_dm(emb, f, uhf, dn, -(mu or 0.0), solver, mon, tag + " " + str(f.id))
    mon.close("electron number with optimised chemical potential", ne, mf.mol.nelectron, tol, tag)
    d = spins(emb.make_rdm1_demo(), uhf)
    mon.close("electron number with optimised chemical potential", sum(np.trace(x) for x in d), mf.mol.nelectron, 1e-7, tag)


def cluster_ham(emb, f, uhf, dn):
    """Dense integrals of a cluster: (h_eff, eri, orbitals, electrons, projector) per spin."""
    co, cv = spins(f.cluster.c_active_occ, uhf), spins(f.cluster.c_active_vir, uhf)
    fo = spins(f.cluster.c_frozen_occ, uhf)
    if not uhf:
        co, cv, fo = co * 2, cv * 2, fo * 2
    c = [np.hstack(x) for x in zip(co, cv)]
    d = [proj(x) for x in fo]
    j = np.einsum("pqrs,rs->pq", dn.eri, d[0] + d[1], optimize=True)
    h, p = [], []
    cf = spins(f.c_frag, uhf)
    cf = cf if uhf else cf * 2
    vf = []
    for s in (0, 1):
        k = np.einsum("psrq,rs->pq", dn.eri, d[s], optimize=True)
        vf.append(c[s].T @ (j - k) @ c[s])
        h.append(c[s].T @ dn.h @ c[s])
        r = c[s].T @ dn.s @ cf[s]
        p.append(r @ r.T)
    return c, [x.shape[1] for x in co], h, vf, p


def fci_dm(dn, c, ne, h, vf, p, mu, dm2=False):
    """Spin-resolved density matrices of the ground state of a cluster in the chemical potential mu."""
    from lib.ci import Space
    from pyscf import fci

    n = [x.shape[1] for x in c]
    if n[0] != n[1]:
        return None
    eri = [dn.tr(c[s], c[s], c[t], c[t]) for s, t in ((0, 0), (0, 1), (1, 1))]
    hh = [h[s] + vf[s] - mu * p[s] for s in (0, 1)]
    sol = fci.direct_uhf.FCISolver()
    sol.conv_tol, sol.verbose, sol.nroots, sol.max_space, sol.max_cycle = 1e-13, 0, 2, 30, 200
    # with few determinants two roots may not exist
    from math import comb

    ndet = comb(n[0], ne[0]) * comb(n[1], ne[1])
    if ndet <= 2:
        sol.nroots = 1
    e, v = sol.kernel(hh, eri, n[0], tuple(ne))
    if sol.nroots == 2:
        if e[1] - e[0] < 1e-4:
            return None
        v = v[0]
    out = sol.make_rdm12s(v, n[0], tuple(ne)) if dm2 else sol.make_rdm1s(v, n[0], tuple(ne))
    return out, sol, v


def cluster_dm(emb, f, uhf, dn, mu, solver, mon, tag):
    """Electrons of the cluster in its fragment; for FCI compared with an independent calculation."""
    c, ne, h, vf, p = cluster_ham(emb, f, uhf, dn)
    dm = spins(f.results.wf.make_rdm1(), uhf)
    dm = dm if uhf else [dm[0] / 2] * 2
    if solver == "FCI":
        r = fci_dm(dn, c, ne, h, vf, p, mu)
        if r is not None:
            for s in (0, 1):
                mon.close("cluster density matrix in the chemical potential", dm[s], r[0][s], 2e-5, tag)
    else:
        # energy functional is stationary: residual of the solver with v_ext is checked by C12; here only the trace
        mon.close("electrons of the cluster", sum(np.trace(x) for x in dm), sum(ne), 1e-6, tag)
    return sum(np.sum(p[s] * dm[s]) for s in (0, 1))


def target(rng, sp, mf, mon, case):
    """Electron number of a fragment set by the user."""
    uhf = bool(sp["uhf"])
    if uhf:
        mon.event("uhf")
    solver = rng.choice(["CCSD", "FCI", "FCI"])
    bath, bt = small(rng)
    if solver == "FCI":
        bath, bt = dict(bathtype="dmet"), "dmet"
    gr = groups(rng, sp)
    e0 = make(mf, sp, gr, "sao", bath, solver)
    e0.kernel()
    if not all(f.results.converged for f in e0.fragments):
        raise Skip("cluster not converged")
    dn = Dense(e0.mf, sp)
    tgt = []
    for f in e0.fragments:
        n = cluster_dm(e0, f, uhf, dn, 0.0, solver, mon, "plain")
        tgt.append(n + rng.uniform(-0.05, 0.05))
    atol = rng.choice([1e-6, 1e-5, 1e-7])
    emb = make(mf, sp, gr, "sao", bath, solver, nelectron_target_atol=atol) if False else make(mf, sp, gr, "sao", bath, solver)
    for f, n in zip(emb.fragments, tgt):
        f.opts.nelectron_target = n
        f.opts.nelectron_target_atol = atol
        f.opts.nelectron_target_rtol = 0.0
    tag = "%s uhf=%s %s %s atol=%g" % (sp["name"], uhf, bt, solver, atol)
    try:
        emb.kernel()
    except RuntimeError as e:
        if "chemical potential" in str(e).lower():
            raise Skip("no bracket")
        raise
    for f, n in zip(emb.fragments, tgt):
        mon.event("target")
        mon.seen("target", tag)
        c, ne, h, vf, p = cluster_ham(emb, f, uhf, dn)
        dm = spins(f.results.wf.make_rdm1(), uhf)
        dm = dm if uhf else [dm[0] / 2] * 2
        got = sum(np.sum(p[s] * dm[s]) for s in (0, 1))
        mon.close("electron number of the fragment", got, n, atol * 1.01 + 1e-9, tag)
        if solver == "FCI":
            # the state is the ground state for some chemical potential: optimality of <H> at fixed number
            d = fci_dm(dn, c, ne, h, vf, p, 0.0)
            if d is None:
                continue
            import scipy.optimize

            def err(mu):
                r = fci_dm(dn, c, ne, h, vf, p, mu)
                if r is None:
                    raise Skip("degenerate")
                return sum(np.sum(p[s] * r[0][s]) for s in (0, 1)) - n

            a, b = -1.0, 1.0
            ea, eb = err(a), err(b)
            if ea * eb > 0:
                continue
            mu = scipy.optimize.brentq(err, a, b, xtol=1e-9)
            r = fci_dm(dn, c, ne, h, vf, p, mu)
            slope = abs(eb - ea) / 2
            for s in (0, 1):
                mon.close("density matrix at the requested electron number", dm[s], r[0][s], 5e-5 + 10 * atol / max(slope, 0.05), tag)


def dmet(rng, sp, mf, mon, case):
    import vayesta.dmet

    uhf = bool(sp["uhf"] if sp else case["uhf"])
    if uhf:
        mon.event("uhf")
    cell = bool(sp and sp["type"] == "cell")
    n = len(sp["atom"]) if sp else mf.mol.nao
    gs = rng.choice([1, 2, 2, 3]) if n % 3 == 0 else rng.choice([1, 2])
    if sp and gs == 3:
        gs = 2
    if cell and case["sys"]["basis"] != "sto-3g":
        gs = 1
    gr = [list(range(i, i + gs)) for i in range(0, n, gs)]
    opts = dict(solver="FCI", charge_consistent=rng.random() < 0.5, diis=rng.random() < 0.7, conv_tol=1e-6, maxiter=25, oneshot=rng.random() < 0.3,
                max_elec_err=10 ** rng.uniform(-6, -4))
    sym = sp is None and not uhf and rng.random() < 0.6
    if case.get("sc"):  # self-consistent with symmetry
        opts["oneshot"], sym, gs = False, True, 2
        gr = [list(range(i, i + gs)) for i in range(0, n, gs)]
    if cell:
        opts["oneshot"] = True
        sym = list(sp["kmesh"]) != [1, 1, 1] and rng.random() < 0.7

    def build(mf, sym, **o):
        o = {**opts, **o}
        emb = vayesta.dmet.DMET(mf, solver_options=dict(conv_tol=1e-13), bath_options=dict(bathtype="dmet"), **o)
        if cell:
            nc = emb.ncells
            with emb.sao_fragmentation(**(dict(add_symmetric=sym) if nc > 1 else {})) as f:
                for r in range(1 if sym else nc):
                    for g in gr:
                        f.add_atomic_fragment([a + r * n for a in g])
            return emb
        with (emb.sao_fragmentation() if sp else emb.site_fragmentation()) as f:
            if sym:
                fr = f.add_atomic_fragment(gr[0])
                fr.add_tsymmetric_fragments(tvecs=[n // gs, 1, 1])
            else:
                for g in gr:
                    f.add_atomic_fragment(g)
        return emb

    emb = build(mf, sym)
    mus = []
    orig = emb.calc_electron_number_defect

    def rec(mu, *a, **kw):
        mus.append(mu)
        return orig(mu, *a, **kw)

    emb.calc_electron_number_defect = rec
    tag = "%s uhf=%s gs=%d sym=%s %s" % (sp["name"] if sp else "hub%d" % n, uhf, gs, sym, opts)
    c0 = [x.copy() for x in spins(mf.mo_coeff, uhf)] if not cell else []
    emb.kernel()
    mon.event("dmet")
    mon.seen("dmet", tag)
    for a, b in zip(c0, spins(mf.mo_coeff, uhf) if c0 else []):
        mon.zero("mean field of the caller untouched", a - b, 1e-14, tag)
    dn = Dense(emb.mf, sp)
    tot, ne = 0.0, 0.0
    occ = spins(emb.mf.mo_occ, uhf)
    no = [int((o > 0).sum()) for o in occ]
    cmf = spins(emb.mf.mo_coeff, uhf)
    dmf = [proj(c[:, :k]) for c, k in zip(cmf, no)]
    dmf = dmf if uhf else dmf * 2
    par = emb.get_fragments(sym_parent=None)
    mult = (emb.ncells if cell else n // gs) if sym else 1
    worst = 0.0
    for f in par:
        c, nel, h, vf, p = cluster_ham(emb, f, uhf, dn)
        r = fci_dm(dn, c, nel, h, vf, p, mus[-1], dm2=True)
        dm = spins(f.results.wf.make_rdm1(), uhf)
        dm = dm if uhf else [dm[0] / 2] * 2
        ne += mult * sum(np.sum(p[s] * dm[s]) for s in (0, 1))
        for s in (0, 1):
            cf = spins(f.c_frag, uhf)[s if uhf else 0]
            x = cf.T @ dn.s @ c[s]
            worst = max(worst, np.abs(x @ dm[s] @ x.T - cf.T @ dn.s @ dmf[s] @ dn.s @ cf).max())
        if r is None:
            return
        (d1, d2), sol, v = r
        for s in (0, 1):
            mon.close("cluster density matrix in the chemical potential", dm[s], d1[s], 2e-5, tag)
        e = sum(np.sum((p[s] @ (h[s] + vf[s] / 2)) * d1[s]) for s in (0, 1))
        g = {(s, t): dn.tr(c[s], c[s], c[t], c[t]) for s in (0, 1) for t in (0, 1)}
        dd = {(0, 0): d2[0], (0, 1): d2[1], (1, 1): d2[2], (1, 0): d2[1].transpose(2, 3, 0, 1)}
        e += 0.5 * sum(np.einsum("pt,tqrs,pqrs->", p[s], g[s, t], dd[s, t], optimize=True) for s in (0, 1) for t in (0, 1))
        tot += mult * e
    mad, dn.mad = dn.mad, 0.0
    occ_c = [c[:, :k] for c, k in zip(cmf, no)]
    bare = det_energy(dn, occ_c, uhf, 0.0)
    dn.mad = mad
    nn = (det_energy(dn, occ_c, uhf, emb.mf.energy_nuc()) + tot - bare) / emb.ncells
    mon.close("democratic energy", emb.e_tot, nn, 5e-6, tag)
    mon.close("electron number", ne, emb.mol.nelectron, opts["max_elec_err"] * emb.mol.nelectron * 3 + 1e-8, tag)
    if opts["oneshot"]:
        mon.true("one iteration", emb.iteration == 1, tag)
    elif emb.converged:
        mon.event("dmet converged")
        for f in emb.fragments:  # symmetry images
            q = f
            while q.sym_parent is not None:
                q = q.sym_parent
            if q is f:
                continue
            mon.event("dmet image")
            for s in range(2 if uhf else 1):
                a, b = (spins(y.c_frag, uhf)[s] for y in (f, q))
                worst = max(worst, *(np.abs(a.T @ dn.s @ x @ dn.s @ a - b.T @ dn.s @ x @ dn.s @ b).max() for x in dmf[s:s + 1]))
        mon.zero("local density matrices agree at convergence", worst, 1e-3, tag)
    if sym:
        e2 = build(mf, False)
        e2.kernel()
        mon.event("dmet symmetry")
        if e2.converged == emb.converged:
            mon.close("fragments by symmetry", e2.e_tot, emb.e_tot, 1e-5 if emb.converged or opts["oneshot"] else 1e-3, tag)
