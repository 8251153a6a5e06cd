"""C03: with nothing truncated, the embedding reproduces the corresponding global calculation."""
import random

import numpy as np

from lib import ref, systems as S
from lib.mon import Skip

RULE = ("one embedding calculation with an untruncated bath whose energies (per functional) and global amplitudes were compared with "
        "an independent whole-system calculation; distinct = (system, spin, integrals, fragmentation, number of fragments, solver)")
BUDGET = {"quick": 150, "thorough": 1500}
NEED = {"energy:MP2": 8, "energy:CCSD": 15, "energy:FCI": 6, "energy:CISD": 4, "uhf": 10, "pbc": 2, "amplitudes:CCSD": 15, "amplitudes:EBCC": 3, "dmet-energy": 8, "dm1": 15, "dm2": 15}
ASSUMPTIONS = ["PySCF's MP2/CISD/CCSD/FCI on the same mean-field are the reference",
               "ground states with a small gap or small reference weight are skipped for FCI"]

CLOSED = ["h2", "h4", "h4chain", "h6", "lih", "hf", "beh2", "h2o", "heh2", "bh"]
OPEN = ["ch2", "h3", "h5", "nh", "beh"]
OPEN_CI = ["ch2", "h3", "nh", "beh"]


def cases(rng, tier):
    out = []
    n = 140 if tier == "quick" else 700
    for i in range(n):
        solver = ["CCSD", "MP2", "FCI", "CCSD", "CISD", "CCSD", "FCI", "EBCC"][i % 8]
        opn = rng.random() < 0.35
        uhf = opn or rng.random() < 0.2
        name = rng.choice((OPEN if solver not in ("FCI", "CISD") else OPEN_CI) if opn else CLOSED)
        basis = "sto-3g"
        if solver in ("CCSD", "MP2", "CISD") and len(S.GEOM[name][0]) <= 3 and rng.random() < 0.5:
            basis = "6-31g"
        if solver == "FCI" and name in ("h2", "lih", "h3", "heh2") and rng.random() < 0.4:
            basis = "6-31g"
        sp = S.mol(rng, name, basis, df=True if rng.random() < 0.35 else None, uhf=uhf)
        if uhf and not opn and rng.random() < 0.5:
            sp = S.mol(rng, name, basis, df=sp["df"], uhf=True, scale=1.5)
            sp["broken"] = True
        natm = len(sp["atom"])
        out.append(dict(kind="mol", sys=sp, solver=solver, groups=S.partition(rng, natm), frag=rng.choice(["iao", "sao", "iaopao" if basis != "sto-3g" else "iao", "sao"]),
                        bath=rng.choice(["full", "mp2", "full"]), rs=rng.randrange(10 ** 6), w=4 if solver in ("FCI", "EBCC") else 2))
    for i in range(4 if tier == "quick" else 24):
        sp = S.cell(rng, rng.choice(["h2", "heh2"]), basis=rng.choice(["sto-3g", "6-31g"]), uhf=bool(i % 2))
        natm = len(sp["atom"])
        out.append(dict(kind="pbc", sys=sp, solver=["MP2", "CCSD"][(i // 2) % 2], groups=S.partition(rng, natm), frag=rng.choice(["iao", "sao"]),
                        bath="full", rs=rng.randrange(10 ** 6), w=6))
    return out


def dense_mf(mf):
    """The periodic mean-field restated as a plain model Hamiltonian in its own MO basis (integrals contracted from the Cholesky tensor)."""
    from pyscf import gto, scf

    uhf = np.ndim(mf.mo_occ[0]) > 0
    return uhf, gto, scf


def gamma_ref(mf, solver):
    """Whole-cell reference for a Gamma-point mean field from its 3-center tensor. exxdiv enters only MP2 denominators."""
    uhf = np.ndim(mf.mo_occ[0]) > 0
    l = np.concatenate([_unpack(lp, mf.mol.nao) for lp, _, sgn in mf.with_df.sr_loop(compact=False)])
    mos = mf.mo_coeff if uhf else (mf.mo_coeff, mf.mo_coeff)
    occ = mf.mo_occ if uhf else (mf.mo_occ / 2, mf.mo_occ / 2)
    en = mf.mo_energy if uhf else (mf.mo_energy,) * 2
    lm = [np.einsum("Lpq,pi,qj->Lij", l, c, c, optimize=True) for c in mos]
    o = [x > 0 for x in occ]
    ov = [x[:, oo][:, :, ~oo] for x, oo in zip(lm, o)]
    if solver == "MP2":
        e = 0.0
        for a, b, fac in ((0, 0, 0.25), (1, 1, 0.25), (0, 1, 1.0)):
            g = np.einsum("Lia,Ljb->ijab", ov[a], ov[b])
            if a == b:
                g = g - g.transpose(0, 1, 3, 2)
            d = (en[a][o[a]][:, None, None, None] + en[b][o[b]][None, :, None, None]
                 - en[a][~o[a]][None, None, :, None] - en[b][~o[b]][None, None, None, :])
            e += fac * np.sum(g * g / d)
        return e
    # CCSD on a model Hamiltonian
    from pyscf import cc, gto, scf

    n = mf.mol.nao
    m = gto.M(verbose=0)
    m.nelectron = int(round(sum(x.sum() for x in occ)))
    m.spin = int(round(occ[0].sum() - occ[1].sum()))
    m.incore_anyway = True
    h = mf.get_hcore()
    hm = [c.T @ h @ c for c in mos]
    if uhf:
        # restate in the AO basis: orthogonalised AOs
        x = ref.lowdin(mf.get_ovlp())
        g = np.einsum("Lpq,Lrs->pqrs", *[np.einsum("Lpq,pi,qj->Lij", l, x, x, optimize=True)] * 2)
        s = mf.get_ovlp()
        mm = scf.UHF(m)
        mm.get_hcore = lambda *a: x.T @ h @ x
        mm.get_ovlp = lambda *a: np.eye(n)
        mm._eri = g
        mm.mo_coeff = np.array([x.T @ s @ c for c in mos])
        mm.mo_occ = np.asarray(mf.mo_occ)
    else:
        mm = scf.RHF(m)
        mm.get_hcore = lambda *a: hm[0]
        mm.get_ovlp = lambda *a: np.eye(n)
        mm._eri = np.einsum("Lpq,Lrs->pqrs", lm[0], lm[0])
        mm.mo_coeff = np.eye(n)
        mm.mo_occ = np.asarray(mf.mo_occ)
    mm.mo_energy = np.asarray(mf.mo_energy)
    mm.e_tot = mm.energy_tot()
    mycc = cc.CCSD(mm)
    mycc.conv_tol, mycc.conv_tol_normt, mycc.max_cycle = 1e-11, 1e-8, 200
    mycc.kernel()
    if not mycc.converged:
        raise Skip("reference CCSD")
    return mycc.e_corr


def _unpack(lp, nao):
    lp = np.asarray(lp)
    if lp.ndim == 2 and lp.shape[1] == nao * nao:
        return lp.reshape(-1, nao, nao)
    from pyscf import lib

    return lib.unpack_tril(lp)


def fci_ref(mf, uhf):
    from pyscf import ao2mo, fci

    eri = ref.ao_eri(mf)
    h = mf.get_hcore()
    nelec = mf.mol.nelec
    if uhf:
        ca, cb = mf.mo_coeff
        g = tuple(ref.mo_eri(eri, *c) for c in ((ca,) * 4, (ca, ca, cb, cb), (cb,) * 4))
        h1 = (ca.T @ h @ ca, cb.T @ h @ cb)
        sol = fci.direct_uhf.FCI()
        n = ca.shape[1]
    else:
        c = mf.mo_coeff
        g = ref.mo_eri(eri, c, c, c, c)
        h1 = c.T @ h @ c
        sol = fci.direct_spin1.FCI()
        n = c.shape[1]
    sol.conv_tol = 1e-12
    sol.max_cycle = 300
    sol.davidson_only = True
    nd = fci.cistring.num_strings(n, nelec[0]) * fci.cistring.num_strings(n, nelec[1])
    sol.nroots = min(4, nd)
    if nd <= 600:
        sol.davidson_only = False
        sol.pspace_size = 700
    e, v = sol.kernel(h1, g, n, nelec)
    e = np.atleast_1d(e)
    v0 = v[0] if isinstance(v, (list, tuple)) else v
    if len(e) > 1 and e[1] - e[0] < 0.02:
        raise Skip("FCI gap")
    if abs(np.asarray(v0).ravel()[0]) < 0.75:
        raise Skip("FCI reference weight")
    return float(e[0]) + mf.energy_nuc()


def reference(mf, solver, uhf, need_lambda):
    from pyscf import cc, ci, mp

    if solver == "MP2":
        m = mp.MP2(mf) if not getattr(mf, "with_df", None) else (mp.dfump2.DFUMP2(mf) if uhf else mp.dfmp2.DFMP2(mf))
        if getattr(mf, "with_df", None):
            # dfmp2 uses its own RI auxiliary basis: evaluate with the mean-field tensor instead
            m = mp.ump2.UMP2(mf) if uhf else mp.mp2.MP2(mf)
            eri = ref.ao_eri(mf)
            return mp2_dense(mf, eri, uhf), None
        m.kernel()
        return m.e_corr, m
    if solver == "CISD":
        m = _with_eri(mf, uhf, ci)
        m.conv_tol = 1e-12
        m.max_cycle = 200
        m.kernel()
        if not np.all(m.converged):
            raise Skip("reference CISD")
        m2 = _with_eri(mf, uhf, ci)
        m2.nroots = 3
        m2.kernel()
        e2 = np.atleast_1d(m2.e_corr)
        if (len(e2) > 1 and e2[1] - e2[0] < 0.03) or abs(e2[0] - m.e_corr) > 1e-6:
            raise Skip("CISD gap")
        return m.e_corr, m
    if solver in ("CCSD", "EBCC"):
        m = _with_eri(mf, uhf, cc)
        m.conv_tol, m.conv_tol_normt, m.max_cycle = 1e-11, 1e-9, 300
        m.kernel()
        if not m.converged:
            raise Skip("reference CCSD")
        big = [max(abs(np.asarray(x)).max() if np.size(x) else 0.0 for x in (t if isinstance(t, (list, tuple)) else [t])) for t in (m.t1, m.t2)]
        if big[0] > 0.25 or big[1] > 0.6 or m.e_corr > 0:
            raise Skip("large amplitudes: several CC solutions")
        if need_lambda:
            m.solve_lambda()
            if not m.converged_lambda:
                raise Skip("reference lambda")
        return m.e_corr, m
    if solver == "FCI":
        return fci_ref(mf, uhf) - mf.e_tot, None


def _with_eri(mf, uhf, mod):
    from pyscf import scf

    mm = (scf.UHF if uhf else scf.RHF)(mf.mol)
    mm._eri = ref.ao_eri(mf)
    mm.mo_coeff, mm.mo_energy, mm.mo_occ, mm.e_tot, mm.converged = mf.mo_coeff, mf.mo_energy, mf.mo_occ, mf.e_tot, True
    if mod.__name__.endswith(".ci"):
        return mod.CISD(mm)
    return mod.CCSD(mm)


def mp2_dense(mf, eri, uhf):
    mos = mf.mo_coeff if uhf else (mf.mo_coeff,) * 2
    occ = mf.mo_occ if uhf else (mf.mo_occ / 2,) * 2
    en = mf.mo_energy if uhf else (mf.mo_energy,) * 2
    e = 0.0
    for a, b, fac in ((0, 0, 0.25), (1, 1, 0.25), (0, 1, 1.0)):
        oa, ob = occ[a] > 0, occ[b] > 0
        g = ref.mo_eri(eri, mos[a][:, oa], mos[a][:, ~oa], mos[b][:, ob], mos[b][:, ~ob]).transpose(0, 2, 1, 3)
        if a == b:
            g = g - g.transpose(0, 1, 3, 2)
        d = (en[a][oa][:, None, None, None] + en[b][ob][None, :, None, None] - en[a][~oa][None, None, :, None] - en[b][~ob][None, None, None, :])
        e += fac * np.sum(g * g / d)
    return e


def run(case, mon):
    import vayesta.ewf

    sp, solver = case["sys"], case["solver"]
    mf = S.get_mf(sp)
    if S.gap(mf) < 0.1:
        raise Skip("small gap")
    uhf = sp["uhf"]
    rng = random.Random(case["rs"])
    if case["kind"] == "pbc":
        e_ref, rf = gamma_ref(mf, solver), None
    else:
        e_ref, rf = reference(mf, solver, uhf, solver in ("CCSD", "EBCC"))
    opts = dict(conv_tol=1e-11)
    if solver in ("CCSD", "EBCC"):
        opts["conv_tol_normt"] = 1e-9
    if solver == "CISD":
        opts["conv_tol"] = 1e-12
    kw = {}
    if solver == "EBCC":
        opts.update(ansatz="CCSD", store_as_ccsd=True, conv_tol_normt=1e-8, solve_lambda=True)
    bath = dict(bathtype="full") if case["bath"] == "full" else dict(bathtype="mp2", threshold=-1.0)
    emb = vayesta.ewf.EWF(mf, solver=solver, bath_options=bath, solver_options=opts, **kw)
    S.fragment(emb, dict(type=case["frag"], groups=case["groups"]))
    emb.kernel()
    if not emb.converged:
        raise Skip("cluster solver did not converge")
    key = (sp["name"], "u" if uhf else "r", "df" if sp.get("df") else "eri", case["frag"], len(case["groups"]), solver)
    tol = 1e-6 if case["kind"] == "pbc" else {"FCI": 4e-6, "CISD": 4e-6}.get(solver, 2e-7)
    d = "%s %s bath=%s groups=%s" % (key, sp["basis"], case["bath"], case["groups"])
    mon.close("projected correlation energy equals the whole-system one", emb.e_corr, e_ref, tol, d)
    mon.close("total energy is mean-field plus correlation energy", emb.e_tot, mf.e_tot + e_ref, tol, d)
    mon.event("energy:" + solver)
    mon.event("fragment", len(emb.fragments))
    mon.event("uhf" if uhf else "rhf")
    mon.event("pbc" if case["kind"] == "pbc" else "mol")
    mon.seen(*key)
    complete = case["frag"] in ("sao", "iaopao")
    # global amplitudes
    if solver in ("CCSD", "EBCC") and rf is not None:
        sgn_ref = amplitudes_mo(rf.t1, rf.t2, uhf)
        t1, t2 = emb.get_global_t1(), emb.get_global_t2()
        mon.close("global T1 equals whole-system T1", t1, sgn_ref[0], 2e-6, d)
        mon.close("global T2 equals whole-system T2", t2, sgn_ref[1], 2e-6, d)
        l1, l2 = emb.get_global_l1(), emb.get_global_l2()
        mon.close("global L1 equals whole-system L1", l1, amplitudes_mo(rf.l1, rf.l2, uhf)[0], 4e-6, d)
        mon.close("global L2 equals whole-system L2", l2, amplitudes_mo(rf.l1, rf.l2, uhf)[1], 4e-6, d)
        mon.event("amplitudes:" + solver)
        # energies from density matrices
        mon.close("density-matrix functional equals the whole-system energy", emb.get_e_corr("dm"), e_ref, 2e-6, d)
        mon.close("density-matrix functional with the global 2-DM", emb.get_dm_corr_energy(dm2="global-wf"), e_ref, 2e-6, d)
        mon.event("dm-energy")
        if not uhf:
            for full in (True, False):
                mon.close("projected amplitude energy equals the whole-system energy", emb.get_ccsd_corr_energy(full_wf=full), e_ref, 1e-6, d)
        density_matrices(emb, mf, rf, uhf, complete, rng, mon, d)
    if solver in ("CCSD", "FCI") and complete and case["kind"] == "mol":
        for pc, ac in ((True, True), (True, False), (False, True)):
            e = emb.get_dmet_energy(part_cumulant=pc, approx_cumulant=ac)
            mon.close("democratically partitioned energy equals the whole-system energy", e, mf.e_tot + e_ref, 3e-6,
                      "%s part_cumulant=%s approx_cumulant=%s" % (d, pc, ac))
            mon.event("dmet-energy")
        mon.close("get_e_corr('dmet')", emb.get_e_corr("dmet"), e_ref, 3e-6, d)
    # energy functional option
    if solver == "CCSD" and rng.random() < 0.3 and case["kind"] == "mol":
        emb2 = vayesta.ewf.EWF(mf, solver=solver, bath_options=bath, solver_options=opts, energy_functional="dm")
        S.fragment(emb2, dict(type=case["frag"], groups=case["groups"]))
        e = emb2.kernel()
        if emb2.converged:
            mon.close("kernel returns the total energy of the requested functional", e, mf.e_tot + e_ref, 2e-6, d)
            mon.event("energy:dm-option")


def density_matrices(emb, mf, rf, uhf, complete, rng, mon, d):
    """Global 1- and 2-particle density matrices against those of the whole-system wave function."""
    mo = mf.mo_coeff if uhf else (mf.mo_coeff,)
    tup = lambda x: tuple(x) if isinstance(x, (tuple, list)) else (x,)
    nocc = [int((np.asarray(o) > 0).sum()) for o in (mf.mo_occ if uhf else (mf.mo_occ,))]
    d1 = tup(rf.make_rdm1())
    base = []
    for x, n in zip(d1, nocc):
        x = np.array(x)
        x[np.diag_indices(n)] -= 1 if uhf else 2
        base.append(x)
    ao1 = lambda xs: [c @ x @ c.T for c, x in zip(mo, xs)]
    for what, fn in (("make_rdm1", emb.make_rdm1),) + ((("make_rdm1_demo", emb.make_rdm1_demo),) if complete else ()):
        mon.close(what + " equals the whole-system 1-DM", tup(fn()), d1, 1e-5, d)
        mon.close(what + "(ao_basis)", tup(fn(ao_basis=True)), ao1(d1), 3e-5, d)
        mon.close(what + "(with_mf=False)", tup(fn(with_mf=False)), base, 1e-5, d)
        mon.close(what + "(with_mf=False, ao_basis)", tup(fn(with_mf=False, ao_basis=True)), ao1(base), 3e-5, d)
        mon.event("dm1")
    if max(x.shape[0] for x in mo) > 11 or emb.solver == "EBCC":
        return
    d2 = tup(rf.make_rdm2())
    sym2 = lambda xs: [(x + x.transpose(1, 0, 3, 2)) / 2 for x in map(np.asarray, xs)]
    spins = ((0, 0), (0, 1), (1, 1)) if uhf else ((0, 0),)
    ao2 = lambda xs: [np.einsum("ijkl,pi,qj,rk,sl->pqrs", x, mo[a], mo[a], mo[b], mo[b], optimize=True) for x, (a, b) in zip(xs, spins)]
    kw = [dict(), dict(approx_cumulant=False)]
    fns = [("make_rdm2", emb.make_rdm2, k) for k in (kw if not uhf else kw[:1])]
    if complete:
        fns += [("make_rdm2_demo", emb.make_rdm2_demo, dict(part_cumulant=pc, approx_cumulant=ac)) for pc, ac in ((True, True), (True, False), (False, True))]
    for what, fn, k in fns:
        mon.close(what + " equals the whole-system 2-DM", sym2(tup(fn(**k))), sym2(d2), 1e-5, "%s %s" % (d, k))
        mon.event("dm2")
    what, fn, k = rng.choice(fns)
    mon.close(what + "(ao_basis)", sym2(tup(fn(ao_basis=True, **k))), ao2(sym2(d2)), 5e-5, "%s %s" % (d, k))
    # amplitudes in the AO basis
    t1, t2 = amplitudes_mo(rf.t1, rf.t2, uhf)
    l1, l2 = amplitudes_mo(rf.l1, rf.l2, uhf)
    o = [c[:, :n] for c, n in zip(mo, nocc)]
    v = [c[:, n:] for c, n in zip(mo, nocc)]
    for nm, f1, f2, a1, a2 in (("T", emb.get_global_t1, emb.get_global_t2, tup(t1), tup(t2)), ("L", emb.get_global_l1, emb.get_global_l2, tup(l1), tup(l2))):
        mon.close("global %s1 in the AO basis" % nm, tup(f1(ao_basis=True)), [a @ x @ b.T for a, x, b in zip(o, a1, v)], 2e-5, d)
        mon.close("global %s2 in the AO basis" % nm, tup(f2(ao_basis=True)),
                  [np.einsum("ijab,Ii,Jj,Aa,Bb->IJAB", x, o[a], o[b], v[a], v[b], optimize=True) for x, (a, b) in zip(a2, spins)], 3e-5, d)


def amplitudes_mo(t1, t2, uhf):
    if uhf:
        return tuple(np.asarray(x) for x in t1), tuple(np.asarray(x) for x in t2)
    return np.asarray(t1), np.asarray(t2)
