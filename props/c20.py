"""C20: multi-level embedding: secondary, weighted and auxiliary fragments."""
import contextlib
import random

import numpy as np

from lib.mon import Skip

RULE = ("one embedding containing secondary fragments, weighted fragments (wave-function or symmetry factors) or auxiliary/inactive fragments, its results compared with those of "
        "independent single-level embeddings; distinct = (kind, system, spin, solvers, truncation, symmetry)")
NEED = {"secondary": 10, "secondary:factor": 3, "secondary:threshold": 3, "secondary:split": 2, "secondary:symmetry": 3, "secondary:kpts": 1, "secondary:weighted": 2, "weight": 3, "auxiliary": 2, "symfactor": 3, "uhf": 5,
        "ccsd secondary": 2, "triples": 3, "fbc": 6, "icmp2": 2}
BUDGET = {"quick": 170, "thorough": 1500}
CASE_TIMEOUT = 400
ASSUMPTIONS = ["clusters of every level are built identically in the reference embeddings (same mean field, same fragments)"]


def cases(rng, tier):
    from lib import systems as S

    full = tier == "thorough"
    out = []
    names = ["lih", "h2o", "h4", "oh", "beh2", "h5", "n2", "ch2", "heh2"]
    n = 80 if full else 20
    for i in range(n):
        nm = names[i % len(names)]
        b = "6-31g" if nm not in ("ch2", "beh2", "n2") else "sto-3g"
        sp = S.mol(rng, nm, b, df=[None, True][(i // 2) % 2], amp=0.04, uhf=True if i % 7 == 3 else None)
        out.append(dict(kind="sec", w=6, rs=rng.randrange(1 << 30), sys=sp, sym=None, main="FCI" if i % 6 == 5 and nm in ("h4", "lih") else ["CCSD", "CCSD", "CCSD", "MP2"][i % 4],
                        sec=["MP2", "MP2", "CCSD"][i % 3], how=["factor", "threshold", "split", "weighted"][(i // 2) % 4]))
    for i in range(20 if full else 6):
        # H6 ring or rectangle with declared symmetry
        uhf = bool(i % 2)
        from lib.systems import ring

        if i % 3 == 2:
            at = [["H", [a * 0.5, b * 0.75, 0.0]] for a in (1, -1) for b in (1, -1)]
            sym = [["mirror", [1, 0, 0]], ["mirror", [0, 1, 0]]]
            par = [0]
        else:
            n = 6 if i % 3 == 0 else 4
            at = [["H", x] for x in ring(n, rng.uniform(0.9, 1.1))] + ([] if n == 6 else [["H", [x[0], x[1], 1.5]] for x in ring(4, 0.9)])
            sym = [["rotation", n]]
            par = [0] if n == 6 else [0, 4]
        sp = dict(type="mol", name="sym", atom=at, basis="6-31g", df=True if i % 2 else None, uhf=uhf, charge=0, spin=0)
        out.append(dict(kind="sec", w=8, rs=rng.randrange(1 << 30), sys=sp, sym=sym, par=par, main=["CCSD", "MP2", "CCSD"][i % 3], sec="MP2", how=["factor", "threshold"][i % 2]))
    for i in range(8 if full else 2):
        sp = S.cell(rng, ["heh2", "h2"][i % 2], [(2, 1, 1), (1, 1, 3)][i % 2], "6-31g", uhf=i % 4 == 3, amp=0.05)
        out.append(dict(kind="sec", w=10, rs=rng.randrange(1 << 30), sys=sp, sym=None, kpts=1, main=["CCSD", "MP2"][i % 2], sec="MP2", how="threshold"))
    for i in range(24 if full else 6):
        nm = ["lih", "h2o", "oh", "h4"][i % 4]
        sp = S.mol(rng, nm, "6-31g", df=[None, True][i % 2], amp=0.04)
        out.append(dict(kind="weight", w=4, rs=rng.randrange(1 << 30), sys=sp, main=["CCSD", "MP2", "CCSD"][i % 3]))
    for i in range(24 if full else 6):
        nm = ["lih", "h2o", "oh", "h4"][i % 4]
        sp = S.mol(rng, nm, "6-31g" if nm != "h2o" or i % 2 else "sto-3g", df=[None, True][i % 2], amp=0.04)
        out.append(dict(kind="aux", w=4, rs=rng.randrange(1 << 30), sys=sp, main=["CCSD", "MP2", "FCI"][i % 3] if nm != "h2o" else "CCSD"))
    for i in range(24 if full else 6):
        uhf = bool(i % 2)
        from lib.systems import ring

        if i % 3 == 1:
            at, par, nsym = [["O", [0, 0, 0.12]], ["H", [0, 0.757, -0.47]], ["H", [0, -0.757, -0.47]]], [[[0], 1], [[1], 2]], 3
        elif i % 3 == 0:
            at, par, nsym = [["H", x] for x in ring(6, rng.uniform(0.9, 1.1))], [[[0], 6]], 6
        else:
            at, par, nsym = [["H", x] for x in ring(6, rng.uniform(0.9, 1.1))], [[[0, 1], 3]], 3
        sp = dict(type="mol", name="symf", atom=at, basis="6-31g" if i % 3 else "sto-3g", df=True, uhf=uhf, charge=0, spin=0)
        out.append(dict(kind="symf", w=6, rs=rng.randrange(1 << 30), sys=sp, par=par, main="CCSD"))
    for i, c in enumerate(out):
        c["i"] = i
    return out


def run(case, mon):
    from lib import systems as S

    rng = random.Random(case["rs"])
    sp = case["sys"]
    mf = S.get_mf(sp)
    if not mf.converged or S.gap(mf) < 0.06:
        raise Skip("gap")
    if sp["uhf"]:
        mon.event("uhf")
    dict(sec=secondary, weight=weight, aux=auxiliary, symf=symfactor)[case["kind"]](rng, sp, mf, mon, case)


def sopts(solver):
    if solver == "CCSD":
        return dict(conv_tol=1e-10, conv_tol_normt=1e-8, solve_lambda=True)
    if solver == "FCI":
        return dict(conv_tol=1e-12)
    return {}


def contexts(f, sym):
    st = contextlib.ExitStack()
    for s in sym or []:
        if s[0] == "rotation":
            st.enter_context(f.rotational_symmetry(s[1], "z"))
        elif s[0] == "mirror":
            st.enter_context(f.mirror_symmetry(s[1]))
        else:
            st.enter_context(f.inversion_symmetry())
    return st


def embed(mf, solver, bath, frag, atoms, sym=None, sec=None, **kw):
    import vayesta.ewf

    emb = vayesta.ewf.EWF(mf, solver=solver, bath_options=bath, solver_options=sopts(solver))
    with dict(iao=emb.iao_fragmentation, sao=emb.sao_fragmentation)[frag]() as f:
        with contexts(f, sym):
            with f.secondary_fragments(**sec) if sec else contextlib.nullcontext():
                for a in atoms:
                    f.add_atomic_fragment(a, **kw)
    emb.kernel()
    return emb


def tl(x):
    return [np.asarray(y) for y in x] if isinstance(x, (tuple, list)) else [np.asarray(x)]


def lin(mon, nm, fn, embs, coeff, tol, d):
    """fn of the combined embedding is the same combination of fn of the single-level embeddings."""
    vals = [tl(fn(e)) for e in embs]
    want = [sum(c * v[k] for c, v in zip(coeff, vals[1:])) for k in range(len(vals[0]))]
    for a, b in zip(vals[0], want):
        mon.close(nm, a, b, tol, d)


def chosen_atoms(rng, sp, case):
    nat = len(sp["atom"])
    if case.get("sym"):
        return case["par"]
    if rng.random() < 0.7 or nat < 3:
        return list(range(nat))
    return [[0], list(range(1, nat))]


def secondary(rng, sp, mf, mon, case):
    main, sec, how = case["main"], case["sec"], case["how"]
    frag = rng.choice(["iao", "sao"])
    atoms = chosen_atoms(rng, sp, case)
    t = 10 ** rng.uniform(-3.5, -2)
    if how == "split":
        bath = dict(bathtype="mp2", threshold_occ=t, threshold_vir=t * rng.uniform(0.2, 3))
    elif rng.random() < 0.2:
        # occupied space without truncation
        bath = dict(bathtype="mp2", threshold=t, threshold_occ=-1.0)
    else:
        bath = dict(bathtype="mp2", threshold=t)
    if how in ("factor", "split"):
        fac = rng.choice([0.1, 0.03, 0.3])
        opt = dict(bno_threshold_factor=fac)
        large = {k: (v * fac if k.startswith("threshold") else v) for k, v in bath.items()}
    else:
        thr = t * rng.choice([0.1, 0.01, 1e-3])
        opt = dict(bno_threshold=thr)
        large = dict(bathtype="mp2", threshold=thr)
    if how == "factor" and rng.random() < 0.3:
        opt = {}  # default: factor 0.1
        large = {k: (v * 0.1 if k.startswith("threshold") else v) for k, v in bath.items()}
    opt["solver"] = sec
    d = "%s/%s %s %s %s" % (main, sec, bath, opt, frag)
    kw = {}
    wf = None
    if how == "weighted" and main != "FCI":
        wf = rng.choice([2, 3, -1])
        kw["wf_factor"] = wf
    e0 = embed(mf, main, bath, frag, atoms, case.get("sym"), opt, **kw)
    ref = [embed(mf, main, bath, frag, atoms, case.get("sym")), embed(mf, sec, large, frag, atoms, case.get("sym")), embed(mf, sec, bath, frag, atoms, case.get("sym"))]
    embs = [e0] + ref
    if not all(e.converged for e in embs):
        raise Skip("not converged")
    c = [1, 1, -1] if not wf else [wf, wf, -wf]
    mon.event("secondary")
    mon.event("secondary:" + how)
    if wf:
        mon.event("secondary:weighted")
    if case.get("sym"):
        mon.event("secondary:symmetry")
    if case.get("kpts"):
        mon.event("secondary:kpts")
    if sec == "CCSD":
        mon.event("ccsd secondary")
    n = len(ref[0].fragments)
    mon.eq("three fragments for every fragment in a secondary context", len(e0.fragments), 3 * n, d)
    mon.eq("fragments at the three levels", sorted([str(f.solver) for f in e0.fragments]), sorted(n * [main] + 2 * n * [sec]), d)
    # every level's cluster spans exactly the cluster of the single-level embedding
    groups_ = {}
    for f in e0.fragments:
        key = tuple(f.atoms) if f.atoms is not None else None
        lv = "main" if not getattr(f.flags, "is_secfrag", False) else ("sub" if not f.flags.is_envelop else "sec")
        groups_[(key, lv)] = f
    for e, lv in zip(ref, ("main", "sec", "sub")):
        for f in e.fragments:
            if f.sym_parent is not None:
                continue
            g = groups_.get((tuple(f.atoms), lv))
            if g is None:
                mon.violate("fragment of every level present", "%s %s %s" % (f.atoms, lv, d))
                continue
            mon.eq("cluster sizes of every level", [np.ravel(x).tolist() for x in (g.cluster.nocc_active, g.cluster.nvir_active)],
                   [np.ravel(x).tolist() for x in (f.cluster.nocc_active, f.cluster.nvir_active)], "%s %s %s" % (f.atoms, lv, d))
            w = (wf or 1) * (-1 if lv == "sub" else 1)
            mon.close("energy contribution of every level", g.results.e_corr, w * f.results.e_corr, 5e-7, "%s %s %s" % (f.atoms, lv, d))
    tol = 5e-7
    lin(mon, "energy is main plus large secondary minus double counting", lambda e: e.e_corr, embs, c, tol, d)
    lin(mon, "wave-function energy is main plus large secondary minus double counting", lambda e: e.get_wf_corr_energy(), embs, c, tol, d)
    amps = main in ("CCSD", "MP2") and sec in ("CCSD", "MP2")
    if amps:
        lin(mon, "global doubles amplitudes are combined", lambda e: e.get_global_t2(), embs, c, 1e-6, d)
        if "CCSD" in (main, sec):
            zero = lambda e: e.get_global_t1() if any(f.solver == "CCSD" for f in e.fragments) else (np.zeros_like(tl(e0.get_global_t1())[0]) if not sp["uhf"] else [np.zeros_like(x) for x in tl(e0.get_global_t1())])
            lin(mon, "global singles amplitudes are combined", zero, embs, c, 1e-6, d)
        lin(mon, "cumulant energy is combined", lambda e: e.get_dm_corr_energy_e2(t_as_lambda=True), embs, c, 1e-6, d)
        if main == "CCSD":
            lin(mon, "cumulant energy with Lambda amplitudes is combined", lambda e: e.get_dm_corr_energy_e2(), embs, c, 1e-6, d)
    # what belongs to a fragment once comes from its large cluster
    try:
        f0 = e0.get_fbc_energy()
    except NotImplementedError:
        f0 = None
    if f0 is not None:
        mon.event("fbc")
        mon.close("finite-bath correction is that of the large clusters", f0, ref[1].get_fbc_energy(), 1e-8, d)
    if hasattr(mf, "with_df") and case["i"] % 2 == 0 and not case.get("kpts"):
        mon.event("icmp2")
        mon.close("inter-cluster MP2 energy is that of the large clusters", e0.get_intercluster_mp2_energy(), ref[1].get_intercluster_mp2_energy(), 1e-8, d)
    if main == "CCSD" and max(np.max(f.cluster.norb_active) for f in e0.fragments if f.cluster is not None) < 10 and not case.get("kpts"):
        mon.event("triples")
        lin(mon, "triples correction is combined", lambda e: e.get_ccsd_t_corr_energy(), embs, c, 1e-8, d)
    mon.seen("sec", sp["name"], sp["uhf"], main, sec, how, bool(case.get("sym")))


def weight(rng, sp, mf, mon, case):
    """Copies of fragments with factors that add up to one are one fragment."""
    import vayesta.ewf

    main = case["main"]
    bath = dict(bathtype="mp2", threshold=10 ** rng.uniform(-4, -2)) if rng.random() < 0.7 else dict(bathtype="dmet")
    fs = rng.choice([[3, -2], [2, -1], [-1, 2], [1, 1, -1]])
    ats = list(range(len(sp["atom"])))

    def mk(weighted):
        emb = vayesta.ewf.EWF(mf, solver=main, bath_options=bath, solver_options=sopts(main))
        with emb.iao_fragmentation() as f:
            for a in ats:
                for k, w in enumerate(fs if weighted else [None]):
                    f.add_atomic_fragment(a, **({} if w is None else dict(wf_factor=w)))
        emb.kernel()
        return emb

    e1, e2 = mk(True), mk(False)
    if not (e1.converged and e2.converged):
        raise Skip("not converged")
    d = "%s %s %s" % (main, fs, bath)
    mon.event("weight")
    mon.close("weights adding to one leave the energy unchanged", e1.e_corr, e2.e_corr, 1e-7, d)
    for f in e1.fragments:
        w = f.opts.wf_factor
        g = [x for x in e2.fragments if list(x.atoms) == list(f.atoms)][0]
        mon.close("a fragment's energy is proportional to its weight", f.results.e_corr, w * g.results.e_corr, 5e-7, d)
    for a, b in zip(tl(e1.get_global_t2()), tl(e2.get_global_t2())):
        mon.close("weights adding to one leave the amplitudes unchanged", a, b, 1e-6, d)
    mon.close("weights adding to one leave the cumulant energy unchanged", e1.get_dm_corr_energy_e2(t_as_lambda=True), e2.get_dm_corr_energy_e2(t_as_lambda=True), 1e-6, d)
    for a, b in zip(tl(e1.make_rdm1(t_as_lambda=True)) if main == "CCSD" else tl(e1.make_rdm1()), tl(e2.make_rdm1(t_as_lambda=True)) if main == "CCSD" else tl(e2.make_rdm1())):
        mon.close("weights adding to one leave the 1-DM unchanged", a, b, 1e-6, d)
    mon.seen("weight", sp["name"], sp["uhf"], main, str(fs), bath["bathtype"])


def auxiliary(rng, sp, mf, mon, case):
    """Auxiliary and inactive fragments do not contribute to results."""
    import vayesta.ewf

    main = case["main"]
    bath = dict(bathtype="mp2", threshold=10 ** rng.uniform(-4, -2)) if rng.random() < 0.6 else dict(bathtype="dmet")
    ats = list(range(len(sp["atom"])))
    auxsolver = rng.choice(["MP2", "CCSD", "FCI"] if len(sp["atom"]) < 5 and sp["name"] != "h2o" else ["MP2", "CCSD"])
    first = rng.random() < 0.5

    def mk(extra):
        emb = vayesta.ewf.EWF(mf, solver=main, bath_options=bath, solver_options=sopts(main))
        order = []
        with emb.iao_fragmentation() as f:
            def add_extra():
                f.add_atomic_fragment(0, auxiliary=True, solver=auxsolver, bath_options=dict(bathtype="dmet"), solver_options={})
                if len(ats) > 1:
                    f.add_atomic_fragment(ats[1:], active=False)

            if extra and first:
                add_extra()
            for a in ats:
                f.add_atomic_fragment(a)
            if extra and not first:
                add_extra()
        for x in emb.fragments:
            orig = x.kernel

            def wrapped(*a, _x=x, _o=orig, **k):
                order.append((bool(_x.opts.auxiliary), bool(_x.active)))
                return _o(*a, **k)

            x.kernel = wrapped
        emb.kernel()
        return emb, order

    e1, o1 = mk(True)
    e2, o2 = mk(False)
    if not (e1.converged and e2.converged):
        raise Skip("not converged")
    d = "%s aux %s %s first=%s" % (main, auxsolver, bath, first)
    mon.event("auxiliary")
    mon.true("auxiliary fragments are solved before others", [a for a, _ in o1] == sorted([a for a, _ in o1], reverse=True) and sum(a for a, _ in o1) == 1, d + str(o1))
    mon.true("inactive fragments are not solved", all(b for _, b in o1), d)
    mon.eq("queries for contributing fragments", len(e1.get_fragments(contributes=True)), len(e2.fragments), d)
    mon.close("auxiliary fragments do not contribute to the energy", e1.e_corr, e2.e_corr, 1e-8 if main != "FCI" else 1e-6, d)
    tol = 1e-7 if main != "FCI" else 1e-5
    names = dict(dmet=lambda e: e.get_dmet_energy(), rdm1demo=lambda e: e.make_rdm1_demo(), rdm2demo=lambda e: e.make_rdm2_demo())
    if main in ("CCSD", "MP2"):
        names.update(t2=lambda e: e.get_global_t2(), rdm1=lambda e: e.make_rdm1(), e2=lambda e: e.get_dm_corr_energy_e2(), rdm2=lambda e: e.make_rdm2())
    if main == "CCSD":
        names.update(t1=lambda e: e.get_global_t1(), l1=lambda e: e.get_global_l1(), l2=lambda e: e.get_global_l2(), dm=lambda e: e.get_dm_corr_energy(), rdm1l=lambda e: e._make_rdm1_ccsd(), ccsd=lambda e: e.get_ccsd_corr_energy(full_wf=True))
        names["t"] = lambda e: e.get_ccsd_t_corr_energy()
    if bath["bathtype"] == "mp2":
        names["fbc"] = lambda e: e.get_fbc_energy()
    if hasattr(mf, "with_df") and bath["bathtype"] == "mp2":
        names["icmp2"] = lambda e: e.get_intercluster_mp2_energy()
    for nm, fn in names.items():
        try:
            b = fn(e2)
        except NotImplementedError:
            continue
        a = fn(e1)
        for x, y in zip(tl(a), tl(b)):
            mon.close("auxiliary fragments do not contribute to %s" % nm, x, y, tol if main != "FCI" else 1e-4, d)
    mon.seen("aux", sp["name"], sp["uhf"], main, auxsolver, first)


def symfactor(rng, sp, mf, mon, case):
    """A fragment with symmetry factor n counts n times in every energy."""
    import vayesta.ewf

    main = case["main"]
    bath = dict(bathtype="mp2", threshold=10 ** rng.uniform(-4, -2))
    frag = rng.choice(["iao", "sao"])
    nat = len(sp["atom"])

    def mk(fac):
        emb = vayesta.ewf.EWF(mf, solver=main, bath_options=bath, solver_options=sopts(main))
        with dict(iao=emb.iao_fragmentation, sao=emb.sao_fragmentation)[frag]() as f:
            if fac:
                for a, n in case["par"]:
                    f.add_atomic_fragment(a, sym_factor=n if n < nat or nat == 6 else 1)
            else:
                if nat == 6:
                    k = len(case["par"][0][0])
                    for r in range(0, 6, k):
                        f.add_atomic_fragment(list(range(r, r + k)))
                else:
                    for a in range(nat):
                        f.add_atomic_fragment(a)
        emb.kernel()
        return emb

    e1, e2 = mk(True), mk(False)
    if not (e1.converged and e2.converged):
        raise Skip("not converged")
    sizes = sorted(str(f.cluster.norb_active) for f in e2.fragments)
    if len(set(sizes)) > len(case["par"]):
        raise Skip("ambiguous bath threshold")
    d = "%s %s %s %s" % (main, case["par"], frag, bath)
    mon.event("symfactor")
    tol = 2e-6
    mon.close("symmetry factors: correlation energy", e1.e_corr, e2.e_corr, tol, d)
    mon.close("symmetry factors: cumulant energy", e1.get_dm_corr_energy_e2(), e2.get_dm_corr_energy_e2(), 5 * tol, d)
    mon.close("symmetry factors: partitioned energy", e1.get_dmet_energy(part_cumulant=False), e2.get_dmet_energy(part_cumulant=False), 5 * tol, d)
    mon.close("symmetry factors: finite-bath correction", e1.get_fbc_energy(), e2.get_fbc_energy(), tol, d)
    if sp["basis"] == "sto-3g" or nat == 3:
        mon.close("symmetry factors: triples correction", e1.get_ccsd_t_corr_energy(), e2.get_ccsd_t_corr_energy(), tol, d)
        mon.event("symfactor:t")
    mon.seen("symf", sp["name"], sp["uhf"], str(case["par"]), frag)
