"""C05: restricted and unrestricted formulations agree, and exchanging the spin labels exchanges the results."""
import random

import numpy as np

from lib import obs, systems as S
from lib.mon import Skip

RULE = ("one pair of embedding runs (restricted/unrestricted of the same closed-shell mean field, or an open-shell mean field and its spin-flipped copy) "
        "whose public results were compared one by one; distinct = (kind, system, solver, fragmentation, bath)")
NEED = {"pair": 30, "solver:CCSD": 8, "solver:FCI": 4, "solver:MP2": 4, "cmp:rdm2": 6, "cmp:t2": 10, "kind:flip": 8, "kind:spin": 12, "kind:dmet": 3}
BUDGET = {"quick": 150, "thorough": 1500}
ASSUMPTIONS = ["a pair is skipped when the two runs' cluster solvers do not converge",
               "2-DMs are compared after imposing particle-exchange and transposition symmetry, which the two formulations apply at different places"]
CLOSED = ["h2", "h4", "h6", "lih", "hf", "beh2", "h2o", "heh2", "bh", "nh3"]
OPEN = ["oh", "ch2", "h3", "h5", "nh", "beh"]


def bath(rng):
    r = rng.random()
    if r < 0.3:
        return dict(bathtype="dmet")
    if r < 0.4:
        return dict(bathtype="full")
    b = dict(bathtype="mp2", threshold=10 ** rng.uniform(-5, -2.5))
    if r < 0.7:
        return b
    if r < 0.8:
        b["project_dmet_order"] = rng.choice([0, 1, 2])
        b["project_dmet_mode"] = rng.choice(["full", "half", "squared-entropy"])
        return b
    if r < 0.9:
        return dict(bathtype="mp2", threshold_occ=10 ** rng.uniform(-5, -2), threshold_vir=10 ** rng.uniform(-5, -2))
    return dict(bathtype="mp2", truncation=rng.choice(["number"]), threshold=rng.randint(0, 3))


def cases(rng, tier):
    out = []
    n = 72 if tier == "quick" else 420
    for i in range(n):
        kind = ["spin", "spin", "flip"][i % 3]
        solver = rng.choice(["CCSD", "CCSD", "CCSD", "FCI", "MP2", "CISD", "EBCC"])
        name = rng.choice(CLOSED if kind == "spin" else OPEN)
        nat = len(S.GEOM[name][0])
        basis = "6-31g" if (solver != "FCI" and nat <= 3 and rng.random() < 0.7) else "sto-3g"
        sp = S.mol(rng, name, basis, df=True if rng.random() < 0.3 else None, uhf=kind == "flip")
        b = bath(rng)
        if "truncation" in b and nat <= 2:
            b = dict(bathtype="mp2", threshold=1e-3)  # linear: a fixed number of bath orbitals could cut through a degenerate pair
        if solver == "FCI" and b["bathtype"] != "dmet":
            b = dict(bathtype="mp2", threshold=10 ** rng.uniform(-2.5, -1.5)) if nat > 4 else b
        out.append(dict(kind=kind, sys=sp, solver=solver, groups=S.partition(rng, nat, rng.randint(1, nat)),
                        frag=rng.choice(["iao", "sao", "iaopao" if basis != "sto-3g" else "sao"]), bath=b, rs=rng.randrange(10 ** 6),
                        w=4 if solver in ("FCI", "EBCC") else 3))
    for i in range(8 if tier == "quick" else 40):
        name = rng.choice(["h4", "h6", "lih", "h2o", "heh2"] if i % 2 == 0 else ["h3", "h5", "ch2", "nh"])
        sp = S.mol(rng, name, "sto-3g", uhf=bool(i % 2))
        nat = len(sp["atom"])
        out.append(dict(kind="dmet", sys=sp, solver=rng.choice(["FCI", "CCSD"]), groups=S.partition(rng, nat, rng.randint(2, nat)), frag="sao",
                        bath=dict(bathtype="dmet"), flip=bool(i % 2), rs=rng.randrange(10 ** 6), w=5))
    for i in range(3 if tier == "quick" else 16):
        sp = S.cell(rng, rng.choice(["h2", "heh2"]), basis="6-31g" if i % 2 else "sto-3g", kmesh=[(1, 1, 1), (2, 1, 1), (1, 1, 3)][i % 3])
        nat = len(sp["atom"])
        out.append(dict(kind="pbc", sys=sp, solver=["MP2", "CCSD"][i % 2], groups=S.partition(rng, nat), frag=rng.choice(["iao", "sao"]),
                        bath=dict(bathtype="mp2", threshold=1e-3), rs=rng.randrange(10 ** 6), w=8))
    return out


def flipped(mf):
    """The same electronic state with the spin labels exchanged."""
    mol = mf.mol.copy()
    mol.spin = -mf.mol.spin
    mol.build(False, False)
    from pyscf import scf

    m2 = scf.UHF(mol)
    if getattr(mf, "with_df", None):
        m2 = m2.density_fit(auxbasis=mf.with_df.auxbasis)
    m2.mo_coeff = np.asarray([mf.mo_coeff[1], mf.mo_coeff[0]])
    m2.mo_energy = np.asarray([mf.mo_energy[1], mf.mo_energy[0]])
    m2.mo_occ = np.asarray([mf.mo_occ[1], mf.mo_occ[0]])
    m2.e_tot, m2.converged = mf.e_tot, True
    return m2


def swap(name, x):
    """Exchange alpha and beta in a collected quantity."""
    k = name.split(":")[0]
    if k in ("t1", "l1", "rdm1", "rdm1demo", "pop"):
        return [np.asarray(x[1]), np.asarray(x[0])]
    if k in ("t2", "l2"):
        return [np.asarray(x[2]), np.asarray(x[1]).transpose(1, 0, 3, 2), np.asarray(x[0])]
    if k in ("rdm2", "rdm2demo"):
        return [np.asarray(x[2]), np.asarray(x[1]).transpose(2, 3, 0, 1), np.asarray(x[0])]
    if k == "norb":
        return [[[b, a] for a, b in f] for f in x]
    return x


def phys(name, x):
    if not name.startswith("rdm2"):
        return x

    def s(y, pair):
        y = np.asarray(y)
        if pair:
            y = (y + y.transpose(2, 3, 0, 1)) / 2
        return (y + y.transpose(1, 0, 3, 2)) / 2
    if isinstance(x, (list, tuple)):
        return [s(x[0], True), s(x[1], False), s(x[2], True)]
    return s(x, True)


def compare(mon, case, ra, rb, flip, what, tolf=1.0):
    d = "%s %s %s frag=%s groups=%s bath=%s" % (case["sys"]["name"], case["sys"]["basis"], case["solver"], case["frag"], case["groups"], case["bath"])
    if not mon.close("%s: cluster sizes" % what, flat(ra["norb"]), flat(swap("norb", rb["norb"]) if flip else rb["norb"]), 1e-9, d):
        return
    solver = case["solver"]
    for k in ra:
        if k == "norb" or k not in rb:
            continue
        tol = {"FCI": 1e-4, "CISD": 1e-5, "EBCC": 1e-5}.get(solver, 5e-6) * tolf
        if k.startswith(("e:", "dmet", "nelec")):
            tol = {"FCI": 5e-6, "CISD": 4e-6, "EBCC": 1e-6}.get(solver, 1e-6) * tolf
        a, b = phys(k, ra[k]), phys(k, swap(k, rb[k]) if flip else rb[k])
        mon.close("%s: %s" % (what, LABEL.get(k.split(":")[0], k)), flat(a), flat(b), tol, "%s [%s]" % (d, k))
        mon.event("cmp:" + k.split(":")[0])


LABEL = dict(e="energy", dmet="democratic energy", t1="T1", t2="T2", l1="L1", l2="L2", rdm1="1-DM", rdm2="2-DM", rdm1demo="democratic 1-DM",
             rdm2demo="democratic 2-DM", corrfunc="spin correlation", pop="populations", nelec="fragment electrons", frag="fragment energies")


def flat(x):
    if isinstance(x, (list, tuple)):
        return np.concatenate([flat(y) for y in x]) if len(x) else np.zeros(0)
    return np.ravel(np.asarray(x, dtype=float))


def one(mf, case, uhf, summed):
    import vayesta.ewf

    solver = case["solver"]
    o = dict(conv_tol=1e-11)
    if solver == "CCSD":
        o = dict(conv_tol=1e-11, conv_tol_normt=1e-9)
    if solver == "FCI":
        o = dict(conv_tol=1e-13, max_cycle=500)
    if solver == "EBCC":
        o = dict(ansatz="CCSD", store_as_ccsd=True, conv_tol=1e-11, conv_tol_normt=1e-8)
    emb = vayesta.ewf.EWF(mf, solver=solver, bath_options=case["bath"], solver_options=o)
    S.fragment(emb, dict(type=case["frag"], groups=case["groups"]))
    try:
        emb.kernel()
    except NotImplementedError:
        if solver == "EBCC" and uhf:
            raise Skip("EBCC needs equal numbers of alpha and beta cluster orbitals")
        raise
    if not emb.converged:
        raise Skip("cluster solver not converged")
    want = None
    skip = {"e:dm-2p1l", "rdm1:2p1l"}
    if solver == "MP2":
        want = {"nelec", "norb", "e", "t2", "rdm1", "rdm2", "pop", "corrfunc"}
    if solver in ("CISD", "EBCC"):
        want = {"nelec", "norb", "e", "pop"}
    if case["kind"] == "pbc":
        want = {"nelec", "norb", "e", "t1", "t2", "rdm1"}
    if case["frag"] == "iao" and want is None:
        want = {"nelec", "norb", "e", "t1", "t2", "l1", "l2", "rdm1", "rdm2", "rdm1demo", "rdm2demo", "dmet", "corrfunc", "pop"}
    r = obs.collect(emb, solver, uhf, want=want, summed=summed)
    if case["bath"]["bathtype"] == "mp2" and solver in ("CCSD", "MP2") and case["kind"] != "pbc":
        r["e:fbc"] = float(emb.get_fbc_energy())
        if case["sys"].get("df"):
            r["e:icmp2"] = float(emb.get_intercluster_mp2_energy(project_dc="vir"))
    return {k: v for k, v in r.items() if k not in skip}


def run(case, mon):
    sp = case["sys"]
    mf = S.get_mf(sp)
    if S.gap(mf) < 0.1:
        raise Skip("small gap")
    mon.event("kind:" + case["kind"])
    if case["kind"] == "dmet":
        return dmet(case, mf, mon)
    if case["kind"] == "flip":
        ra, rb = one(mf, case, True, False), one(flipped(mf), case, True, False)
        compare(mon, case, ra, rb, True, "spin exchange")
    else:
        mu = mf.to_uhf()
        if sp["type"] == "cell":
            mu.with_df = mf.with_df
            mu.converged = True
        ra, rb = one(mf, case, False, True), one(mu, case, True, True)
        compare(mon, case, ra, rb, False, "restricted vs unrestricted", 10.0 if sp["type"] == "cell" else 1.0)
    mon.event("pair")
    mon.event("solver:" + case["solver"])
    mon.seen(case["kind"], sp["name"], case["solver"], case["frag"], case["bath"]["bathtype"])


def dmet(case, mf, mon):
    import vayesta.dmet

    out = []
    for m in (mf, flipped(mf) if case["flip"] else mf.to_uhf()):
        emb = vayesta.dmet.DMET(m, solver=case["solver"], bath_options=case["bath"], oneshot=True, max_elec_err=1e-6,
                                solver_options=dict(conv_tol=1e-12, conv_tol_normt=1e-8) if case["solver"] == "CCSD" else dict(conv_tol=1e-13))
        S.fragment(emb, dict(type=case["frag"], groups=case["groups"]))
        emb.kernel()
        uhf = m is not mf or case["flip"]
        d1 = emb.make_rdm1(ao_basis=True)
        out.append((emb.e_tot, np.asarray(d1[0]) + np.asarray(d1[1]) if uhf else np.asarray(d1)))
    d = "%s %s groups=%s flip=%s" % (case["sys"]["name"], case["solver"], case["groups"], case["flip"])
    mon.close("DMET energy is independent of the spin formulation", out[0][0], out[1][0], 2e-5, d)
    mon.close("DMET density matrix is independent of the spin formulation", out[0][1], out[1][1], 2e-4, d)
    mon.event("pair")
    mon.seen("dmet", case["sys"]["name"], case["solver"], case["flip"], len(case["groups"]))
