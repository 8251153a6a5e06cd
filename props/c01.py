"""C01: fragment spaces — orthonormal, assigned to the right atoms, complete, electron conserving, faithfully reported."""
import json

import numpy as np

from lib import ref, systems as S
from lib.mon import Skip

RULE = ("a fragmentation (molecule or solid, restricted or unrestricted, SAO/IAO/IAO-PAO/site/CAS, random groups of atoms or "
        "orbitals) that was built and whose fragments were compared against independently constructed local orbitals")
BUDGET = {"quick": 120, "thorough": 1500}
NEED = {"fragmentation": 40, "complete": 15, "incomplete": 6, "uhf": 8}
ASSUMPTIONS = ["mean fields converged to 1e-12", "reference IAOs from pyscf.lo.iao with Loewdin orthonormalisation"]

CLOSED = ["h4", "h6", "lih", "hf", "beh2", "h2o", "nh3", "n2", "heh2"]
OPEN = ["oh", "ch2", "h3", "h5", "nh", "beh"]


def cases(rng, tier):
    out = []
    n = 280 if tier == "quick" else 3000
    kinds = ["iao", "iaopao", "sao", "site"]
    for i in range(n):
        frag = kinds[i % 4]
        opn = rng.random() < 0.35
        name = rng.choice(OPEN if opn else CLOSED)
        uhf = True if opn else rng.random() < 0.3
        basis = rng.choice(["sto-3g", "6-31g", "6-31g", "cc-pvdz"] if len(S.GEOM[name][0]) <= 3 else ["sto-3g", "6-31g"])
        sp = S.mol(rng, name, basis, df=True if rng.random() < 0.2 else None, uhf=uhf)
        if uhf and not opn and rng.random() < 0.6:
            sp["broken"] = True
            sp["atom"] = S.mol(rng, name, basis, scale=1.6)["atom"]
        nat = len(sp["atom"])
        mode = rng.choice(["all", "groups", "groups", "incomplete", "symbols", "orbitals", "filter", "mixed"])
        c = dict(kind="mol-" + frag, frag=frag, sys=sp, mode=mode)
        if mode in ("groups", "incomplete"):
            g = S.partition(rng, nat)
            if mode == "incomplete":
                g = g[: max(1, len(g) - 1)] if len(g) > 1 else [[0]]
            rng.shuffle(g)
            c["groups"] = g
        if mode == "mixed":
            c["first"] = rng.randrange(nat)
        c["rs"] = rng.randrange(10 ** 6)
        out.append(c)
    # ghost atoms
    for i in range(3 if tier == "quick" else 20):
        sp = S.mol(rng, "h2o", "6-31g", uhf=bool(i % 2))
        sp["atom"].insert(rng.randrange(4), ["Ghost-H", [1.0, 1.4 + 0.1 * rng.random(), 0.3]])
        out.append(dict(kind="ghost", frag="iao" if i % 3 else "sao", sys=sp, mode="all", rs=1))
    # CAS
    for i in range(14 if tier == "quick" else 120):
        opn = i % 3 == 2
        name = rng.choice(["oh", "nh", "h3", "h5", "beh"] if opn else ["h4", "lih", "beh2", "h6", "heh2", "hf"])
        sp = S.mol(rng, name, rng.choice(["sto-3g", "6-31g"]), uhf=opn or rng.random() < 0.3)
        out.append(dict(kind="cas", sys=sp, rs=rng.randrange(10 ** 6)))
    # exactly degenerate orbitals
    for name, basis, u in [("n2", "6-31g", False), ("beh", "sto-3g", True), ("beh", "6-31g", True), ("nh", "6-31g", True), ("lih", "6-31g", False), ("h6", "6-31g", False), ("bh", "sto-3g", True)]:
        out.append(dict(kind="cas", sys=S.mol(rng, name, basis, uhf=u, amp=0), rs=1))
    # filters / selection
    for i in range(6 if tier == "quick" else 40):
        sp = S.mol(rng, rng.choice(["h4", "h6", "nh3", "h2o"]), "sto-3g", uhf=bool(i % 2))
        out.append(dict(kind="select", sys=sp, rs=rng.randrange(10 ** 6)))
    # solids: supercell and k-point folded
    for i, km in enumerate([(1, 1, 1), (2, 1, 1), (1, 3, 1), (2, 2, 1)] if tier == "quick"
                           else [(1, 1, 1), (2, 1, 1), (1, 3, 1), (2, 2, 1), (3, 1, 2), (1, 1, 4)]):
        for frag in (["iao", "sao"] if tier == "quick" else ["iao", "sao", "iaopao"]):
            sp = S.cell(rng, rng.choice(["h2", "heh2"]), km, basis="6-31g" if i % 2 else "sto-3g", uhf=bool((i + (frag == "sao")) % 2))
            out.append(dict(kind="pbc", frag=frag, sys=sp, mode="all", rs=1, w=10))
    return out


def labels_of(ctx_kind, mf):
    return None


def emb_ovlp(emb):
    return np.asarray(emb.get_ovlp())


def check_fragments(mon, emb, mf, frags, sel, kind, minao="minao", indep=True):
    """sel: per fragment, the set of local-orbital indices it must hold."""
    s = emb_ovlp(emb)
    uhf = not emb.is_rhf
    nsp = 2 if uhf else 1
    mos = mf.mo_coeff if uhf else [mf.mo_coeff]
    occs = mf.mo_occ if uhf else [mf.mo_occ]
    refs = ref.fragment_ref(mf, kind, s, minao) if indep else None
    tot = np.zeros(nsp)
    allc = []
    for sp in range(nsp):
        cs = [ref.spin(f.c_frag, sp, uhf) for f in frags]
        allc.append(np.hstack(cs))
    for fx, idx in zip(frags, sel):
        for sp in range(nsp):
            cf = ref.spin(fx.c_frag, sp, uhf)
            ce = None if fx.c_env is None else ref.spin(fx.c_env, sp, uhf)
            mon.zero("frag-orthonormal", ref.orth_err(cf, s), 1e-8)
            if fx.c_env is None:  # symmetry copies carry no environment of their own
                mon.true("only-copies-lack-environment", fx.sym_parent is not None)
                dm = (mos[sp] * occs[sp]) @ mos[sp].T
                tot[sp] += np.trace(cf.T @ s @ dm @ s @ cf)
                continue
            mon.zero("env-orthonormal", ref.orth_err(ce, s), 1e-8)
            if cf.shape[1] and ce.shape[1]:
                mon.zero("frag-env-orthogonal", cf.T @ s @ ce, 1e-8)
            mon.eq("frag+env-count", cf.shape[1] + ce.shape[1], mos[sp].shape[1])
            mon.zero("frag+env-complete", ref.span_err(np.hstack([cf, ce]), mos[sp], s), 1e-7)
            if refs is not None:
                r = refs[sp][0]
                mon.eq("frag-size", cf.shape[1], len(idx), "fragment %s" % fx.name)
                if cf.shape[1] == len(idx):
                    mon.zero("frag-orbitals-assignment", ref.upto_sign_err(cf, r[:, idx], s), 1e-6, "fragment %s" % fx.name)
            dm = (mos[sp] * occs[sp]) @ mos[sp].T
            n = np.trace(cf.T @ s @ dm @ s @ cf)
            tot[sp] += n
    return tot, allc


def flags_ref(emb, mf, frags):
    s = emb_ovlp(emb)
    uhf = not emb.is_rhf
    mos = mf.mo_coeff if uhf else [mf.mo_coeff]
    occs = mf.mo_occ if uhf else [mf.mo_occ]
    orth = comp = occ = vir = True
    for sp in range(2 if uhf else 1):
        c = np.hstack([ref.spin(f.c_frag, sp, uhf) for f in frags])
        o = ref.orth_err(c, s)
        orth &= o < 1e-7
        comp &= (o < 1e-7) and c.shape[1] == mos[sp].shape[1]
        co, cv = mos[sp][:, occs[sp] > 0], mos[sp][:, occs[sp] == 0]
        po = c.T @ s @ co
        pv = c.T @ s @ cv
        occ &= (o < 1e-7) and abs((po ** 2).sum() - co.shape[1]) < 1e-6
        vir &= (o < 1e-7) and abs((pv ** 2).sum() - cv.shape[1]) < 1e-6
    return bool(orth), bool(comp), bool(occ), bool(vir)


def check_flags(mon, emb, mf, frags):
    o, c, oc, vc = flags_ref(emb, mf, frags)
    mon.eq("flag-orthonormal", bool(emb.has_orthonormal_fragmentation()), o)
    mon.eq("flag-complete", bool(emb.has_complete_fragmentation()), c)
    mon.eq("flag-occupied-complete", bool(emb.has_complete_occupied_fragmentation()), oc)
    mon.eq("flag-virtual-complete", bool(emb.has_complete_virtual_fragmentation()), vc)
    mon.event("complete" if (c or oc) else "incomplete")
    return o, c, oc, vc


def run(case, mon):
    import random

    import vayesta.ewf

    rng = random.Random(case["rs"])
    mf = S.get_mf(case["sys"])
    uhf = case["sys"]["uhf"]
    if S.gap(mf) < 0.02:
        raise Skip("small gap")
    if case["kind"] == "cas":
        return run_cas(case, mon, mf, rng)
    if case["kind"] == "select":
        return run_select(case, mon, mf, rng)
    if case["kind"] == "pbc":
        return run_pbc(case, mon, mf)
    emb = vayesta.ewf.EWF(mf)
    kind = case["frag"]
    mol = mf.mol
    s = mf.get_ovlp()
    basis = case["sys"]["basis"]
    frag = {"iao": emb.iao_fragmentation, "sao": emb.sao_fragmentation, "iaopao": emb.iaopao_fragmentation,
            "site": emb.site_fragmentation}[kind]()
    minao = getattr(frag, "minao", "minao")
    if kind in ("iao", "iaopao"):
        lab = [tuple(l) for l in ref.fragment_ref(mf, kind, s, minao)[0][1]]
        if kind == "iaopao":
            lab = [tuple(l) for l in mol.ao_labels(None)]
        if case["kind"] == "ghost":
            real = [i for i in range(mol.natm) if not mol.atom_symbol(i).lower().startswith(("ghost", "x"))]
            lab = [(real[l[0]],) + l[1:] for l in lab]
    else:
        lab = [tuple(l) for l in mol.ao_labels(None)]
    if kind == "iaopao":
        from pyscf import lo

        nryd = len(lo.nao._core_val_ryd_list(mol)[2])
        if nryd + len(ref.fragment_ref(mf, "iao", s, minao)[0][1]) != mol.nao:
            # the minimal basis and the core/valence/Rydberg classification disagree: must be refused, not mis-assigned
            mon.raises("iaopao-inconsistent-refused", lambda: frag.__enter__(), Exception)
            return
    nat = mol.natm
    by_atom = lambda atoms: [i for i, l in enumerate(lab) if l[0] in atoms]
    mode = case["mode"]
    frags, sel = [], []
    with frag as f:
        if mode == "all":
            atoms = range(nat) if case["kind"] != "ghost" or kind == "sao" else real
            for a in atoms:
                frags.append(f.add_atomic_fragment(a))
                sel.append(by_atom([a]))
        elif mode in ("groups", "incomplete"):
            for g in case["groups"]:
                frags.append(f.add_atomic_fragment(g if len(g) > 1 else g[0]))
                sel.append(by_atom(g))
        elif mode == "symbols":
            sy = sorted(set(mol.atom_symbol(i) for i in range(nat)))
            for x in sy:
                frags.append(f.add_atomic_fragment(x))
                sel.append(by_atom([i for i in range(nat) if mol.atom_symbol(i) == x]))
            mon.raises("unknown-symbol-rejected", lambda: f.add_atomic_fragment("Xe"), ValueError)
        elif mode == "orbitals":
            g = S.partition(rng, len(lab))
            g = g[: rng.randint(1, len(g))]
            for x in g:
                if rng.random() < 0.5:
                    frags.append(f.add_orbital_fragment(x))
                    sel.append(sorted(x))
                else:
                    names = ["%d %s %s%s" % lab[i] for i in x]
                    # labels are regular expressions over ao labels: only use unambiguous ones
                    lst = mol.ao_labels() if kind != "iao" else None
                    frags.append(f.add_orbital_fragment(x))
                    sel.append(sorted(x))
        elif mode == "filter":
            for a in range(nat):
                ix = by_atom([a])
                shells = sorted(set(lab[i][2] for i in ix))
                for sh in shells:
                    want = [i for i in ix if lab[i][2] == sh]
                    frags.append(f.add_atomic_fragment(a, orbital_filter=sh))
                    sel.append(want)
        elif mode == "mixed":
            a = case["first"]
            frags.append(f.add_atomic_fragment(a))
            sel.append(by_atom([a]))
            rest = [i for i in range(nat) if i != a]
            for b in rest:
                shells = sorted(set(lab[i][2] for i in by_atom([b])))
                k = rng.randint(1, len(shells))
                for chunk in (shells[:k], shells[k:]):
                    if chunk:
                        frags.append(f.add_atomshell_fragment(b, chunk))
                        sel.append([i for i in by_atom([b]) if lab[i][2] in chunk])
    mon.event("fragmentation")
    mon.event("uhf" if uhf else "rhf")
    mon.event("fragments", len(frags))
    mon.seen(kind, mode, case["sys"]["name"], basis, uhf, [len(x) for x in sel])
    mon.eq("all-fragments-registered", len(emb.fragments), len(frags))
    mon.eq("fragment-ids-unique", len(set(fx.id for fx in emb.fragments)), len(frags))
    indep = kind != "iaopao"
    tot, allc = check_fragments(mon, emb, mf, frags, [sorted(x) for x in sel], kind, minao, indep)
    if kind == "iaopao":
        iaopao_checks(mon, emb, mf, frags, sel, lab, minao)
    o, c, oc, vc = check_flags(mon, emb, mf, frags)
    mon.true("disjoint-fragments-orthonormal", o)
    nel = np.array(mol.nelec, dtype=float) if uhf else np.array([mol.nelectron], dtype=float)
    covered = sorted(i for x in sel for i in x) == list(range(len(lab)))
    if covered:
        mon.close("electrons-conserved", tot, nel, 1e-6)
        if kind == "iao":
            mon.true("iao-occupied-complete", oc)
        else:
            mon.true("full-complete", c and oc and vc)
    # Fragment's own electron number
    for fx in frags:
        n = np.asarray(fx.get_mo_occupation(fx.c_frag) if False else fx.nelectron if not uhf else fx.nelectron, dtype=float)
        dms = mf.make_rdm1()
        if uhf:
            want = [np.trace(fx.c_frag[i].T @ s @ dms[i] @ s @ fx.c_frag[i]) for i in range(2)]
        else:
            want = np.trace(fx.c_frag.T @ s @ dms @ s @ fx.c_frag)
        mon.close("fragment-electron-number", np.ravel(n), np.ravel(want), 1e-8)
    # a second overlapping fragment must make the fragmentation non-orthogonal, and be reported so
    if case["rs"] % 3 == 0 and kind in ("iao", "sao") and case["kind"] != "ghost":
        with (emb.iao_fragmentation() if kind == "iao" else emb.sao_fragmentation()) as f2:
            frags2 = frags + [f2.add_atomic_fragment(0)]
        check_flags(mon, emb, mf, frags2)
        mon.event("overlapping")


def iaopao_checks(mon, emb, mf, frags, sel, lab, minao):
    """IAO part must lie in the IAO space; PAO part in the complement; each assigned by AO label."""
    s = emb_ovlp(emb)
    uhf = not emb.is_rhf
    refs = ref.fragment_ref(mf, "iao", s, minao)
    mol = mf.mol
    ao = [tuple(l) for l in mol.ao_labels(None)]
    for sp in range(2 if uhf else 1):
        ciao, liao = refs[sp]
        ryd = [i for i, l in enumerate(ao) if l not in liao]
        p = np.eye(mol.nao) - ciao @ ciao.T @ s
        pao = p[:, ryd]
        if ryd:
            pao = pao @ ref.lowdin(pao.T @ s @ pao)
        full = np.zeros((mol.nao, len(ao)))
        for i, l in enumerate(ao):
            full[:, i] = ciao[:, liao.index(l)] if l in liao else pao[:, ryd.index(i)]
        for fx, idx in zip(frags, sel):
            cf = ref.spin(fx.c_frag, sp, uhf)
            mon.eq("frag-size", cf.shape[1], len(idx))
            if cf.shape[1] == len(idx):
                mon.zero("iaopao-assignment", ref.upto_sign_err(cf, full[:, sorted(idx)], s), 1e-6, fx.name)


def run_cas(case, mon, mf, rng):
    import vayesta.ewf

    uhf = case["sys"]["uhf"]
    s = mf.get_ovlp()
    mos = mf.mo_coeff if uhf else [mf.mo_coeff]
    occ = sum(mf.mo_occ) if uhf else mf.mo_occ
    nmo = len(occ)
    ne_tot = int(round(sum(occ)))
    anyocc = int(np.where(occ > 0)[0][-1])
    es = mf.mo_energy if uhf else [mf.mo_energy]
    # possible electron numbers when counting down from the highest (partially) occupied orbital
    for ncas in range(1, nmo + 1):
        for nelec in sorted(set([1, 2, 3, 4, 6, ne_tot, ne_tot + 2])):
            emb = vayesta.ewf.EWF(mf)
            cum, off, ok = 0, -1, True
            while cum < nelec and anyocc - off - 1 >= 0:
                off += 1
                cum += int(round(occ[anyocc - off]))
            feasible = cum == nelec and nelec <= ne_tot and ncas >= off + 1 and anyocc - off + ncas <= nmo
            po, pv = anyocc - off, anyocc - off + ncas
            degen = False
            split = [0.0]
            if feasible:
                for e in es:
                    split += [abs(e[po] - e[po - 1])] if po > 0 else []
                    split += [abs(e[pv] - e[pv - 1])] if pv < nmo else []
                split = split[1:] or [1.0]
                degen = min(split) < 1e-7
            fr = None
            try:
                with emb.cas_fragmentation() as f:
                    fr = f.add_cas_fragment(ncas, nelec)
            except Exception as e:
                mon.event("cas-rejected")
                mon.event("cas-degenerate", feasible and min(split) < 2e-9)
                mon.true("cas-feasible-accepted", not feasible or degen, "ncas=%d nelec=%d occ=%r: %r" % (ncas, nelec, occ, e))
                continue
            mon.event("cas-accepted")
            mon.event("fragmentation")
            mon.true("cas-degenerate-rejected", not feasible or min(split) > 2e-9, "ncas=%d nelec=%d splits orbitals degenerate to %.1e" % (ncas, nelec, min(split)))
            mon.seen("cas", case["sys"]["name"], uhf, ncas, nelec)
            if not mon.true("cas-infeasible-rejected", feasible, "ncas=%d nelec=%d occ=%s accepted" % (ncas, nelec, occ.astype(int).tolist())):
                continue
            ne = 0
            for sp in range(len(mos)):
                cf = ref.spin(fr.c_frag, sp, uhf)
                mon.zero("cas-orbitals", cf - mos[sp][:, po:pv], 1e-12)
                d = mf.make_rdm1()[sp] if uhf else mf.make_rdm1()
                ne += np.trace(cf.T @ s @ d @ s @ cf)
            mon.close("cas-electrons", ne, nelec, 1e-8)


def run_select(case, mon, mf, rng):
    """get_fragments must return exactly the fragments matching every given filter."""
    import vayesta.ewf

    emb = vayesta.ewf.EWF(mf)
    nat = mf.mol.natm
    with emb.iao_fragmentation() as f:
        for a in range(nat):
            f.add_atomic_fragment(a, active=bool(rng.random() < 0.7), name="X%d" % (a % 3))
        f.add_atomic_fragment(0, auxiliary=True)
        with f.secondary_fragments(bno_threshold=1e-4):
            f.add_atomic_fragment(1, auxiliary=True)
    allf = list(emb.fragments)
    mon.event("fragmentation")
    for t in range(25):
        flt, flags, opts = {}, None, None
        if rng.random() < 0.5:
            flt["active"] = rng.random() < 0.5
        if rng.random() < 0.4:
            flt["id"] = rng.sample([x.id for x in allf], rng.randint(1, 3)) if rng.random() < 0.6 else rng.choice(allf).id
        if rng.random() < 0.4:
            flt["name"] = rng.choice([x.name for x in allf])
        if rng.random() < 0.4:
            flags = dict(is_secfrag=rng.random() < 0.5)
        if rng.random() < 0.4:
            opts = dict(auxiliary=rng.random() < 0.5)
        if rng.random() < 0.2:
            flt["sym_parent"] = None
        base = rng.sample(allf, rng.randint(1, len(allf))) if rng.random() < 0.4 else None
        got = emb.get_fragments(fragments=base, options=opts, flags=flags, **flt)

        def match(x):
            for k, v in flt.items():
                v = v if isinstance(v, list) else [v]
                if getattr(x, k) not in v:
                    return False
            for k, v in (flags or {}).items():
                if getattr(x.flags, k) != v:
                    return False
            for k, v in (opts or {}).items():
                if getattr(x.opts, k) != v:
                    return False
            return True

        want = [x for x in (allf if base is None else base) if match(x)]
        mon.true("fragment-selection", [x.id for x in got] == [x.id for x in want],
                 "filters=%r flags=%r options=%r: %r != %r" % (flt, flags, opts, [x.id for x in got], [x.id for x in want]))
        mon.event("selection")
        mon.seen("select", sorted(flt), bool(flags), bool(opts))


def run_pbc(case, mon, mf):
    import vayesta.ewf
    from vayesta.core.foldscf import FoldedSCF

    emb = vayesta.ewf.EWF(mf)
    kind = case["frag"]
    uhf = case["sys"]["uhf"]
    with {"iao": emb.iao_fragmentation, "sao": emb.sao_fragmentation, "iaopao": emb.iaopao_fragmentation}[kind]() as f:
        base = f.add_all_atomic_fragments()
    nk = int(np.prod(case["sys"]["kmesh"]))
    ncell = len(case["sys"]["atom"])
    frags = list(emb.fragments)
    mon.eq("translations-of-every-fragment", len(frags), nk * ncell)
    mon.event("fragmentation")
    mon.event("pbc")
    mon.event("uhf" if uhf else "rhf")
    mon.seen("pbc", kind, case["sys"]["name"], case["sys"]["kmesh"], uhf)
    fmf = emb.mf
    tot, allc = check_fragments(mon, emb, fmf, frags, [None] * len(frags), kind, indep=False)
    o, c, oc, vc = check_flags(mon, emb, fmf, frags)
    mon.true("disjoint-fragments-orthonormal", o)
    nel = np.asarray(emb.mol.nelec if uhf else [emb.mol.nelectron], dtype=float)
    mon.close("electrons-conserved", tot, nel, 1e-6)
    mon.true("complete", oc and (c or kind == "iao"))
    # every translated copy must carry the same number of electrons, located on the atoms it names
    s = np.asarray(emb.get_ovlp())
    dm = fmf.make_rdm1()
    sl = emb.mol.aoslice_by_atom()[:, 2:]
    home = []
    for i, fx in enumerate(frags):
        at = list(np.ravel(fx.atoms))
        cf = fx.c_frag[0] if uhf else fx.c_frag
        sc = np.asarray(np.real(__import__("scipy.linalg").linalg.sqrtm(s))) @ cf
        w = np.zeros(emb.mol.natm)
        for a, (p0, p1) in enumerate(sl):
            w[a] = (sc[p0:p1] ** 2).sum()
        home.append(int(np.argmax(w)))
        if at[0] is not None:
            mon.true("fragment-on-its-atom", home[-1] in at, "fragment %s atoms=%r weights=%s" % (fx, at, w))
    mon.eq("every-supercell-atom-once", sorted(home), list(range(emb.mol.natm)))
