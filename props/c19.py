"""C19: correlation functions and population analysis are expectation values of the density matrices they are built from."""
import os
import random
import tempfile

import numpy as np

from lib.mon import Skip
from lib import ref
from props.c17 import build, both, groups, uhf_of

RULE = ("one embedding or wave function (molecule, cell, folded cell, lattice; RHF/UHF; any bath), its atomic correlation functions and populations recomputed from dense "
        "projectors, density matrices or by applying number and spin operators to CI vectors; distinct = (quantity, system, spin, projection, source of the density matrices)")
NEED = {"ci": 12, "embedded": 14, "mean field": 20, "population": 20, "full bath": 2, "closed-shell pair": 4, "uhf": 10, "pbc": 4, "symmetry": 3, "dmet": 3, "file": 8, "atoms": 8, "filter": 4}
BUDGET = {"quick": 120, "thorough": 1200}
CASE_TIMEOUT = 300
ASSUMPTIONS = ["AO overlap integrals of PySCF; PySCF's FCI and CCSD density matrices", "IAO/PAO projectors are the ones of the atomic fragments (decided by C09)"]


def cases(rng, tier):
    from lib import systems as S

    full = tier == "thorough"
    out = []
    names = ["lih", "h4", "h2o", "beh2", "oh", "h5", "bh", "ch2", "heh2", "h3", "nh"]
    n = 80 if full else 18
    for i in range(n):
        nm = ["h4", "lih", "h3", "heh2", "h5", "h2", "beh"][i % 7]
        out.append(dict(kind="ci", w=2, rs=rng.randrange(1 << 30), sys=S.mol(rng, nm, "6-31g" if nm in ("h2", "h3") else "sto-3g", amp=0.04)))
    for i in range(n):
        nm = names[i % len(names)]
        b = "6-31g" if nm not in ("ch2", "nh") else "sto-3g"
        out.append(dict(kind="emb", w=4, rs=rng.randrange(1 << 30), sys=S.mol(rng, nm, b, df=rng.choice([None, True]), amp=0.04)))
    for i in range(n):
        nm = names[(i + 4) % len(names)]
        out.append(dict(kind="pop", w=2, rs=rng.randrange(1 << 30), sys=S.mol(rng, nm, rng.choice(["6-31g", "sto-3g"]), amp=0.04, charge=0)))
    for i in range(20 if full else 6):
        mesh = [(3, 1, 1), (1, 1, 1), (2, 1, 1)][i % 3]
        nm = "heh2" if mesh == (1, 1, 1) else "h2"
        sp = S.cell(rng, nm, mesh, "6-31g", uhf=i % 2 == 1, skew=i % 3 == 0, amp=0.05)
        out.append(dict(kind="emb" if i % 3 != 1 else "pop", w=9, rs=rng.randrange(1 << 30), sys=sp))
    for i in range(16 if full else 5):
        out.append(dict(kind="dmet", w=6, rs=rng.randrange(1 << 30), sys=S.mol(rng, ["h4", "h6", "h5", "lih", "h4chain"][i % 5], "sto-3g", amp=0.03)))
    for i, c in enumerate(out):
        c["i"] = i
    return out


def run(case, mon):
    from lib import systems as S

    rng = random.Random(case["rs"])
    sp = case["sys"]
    mf = S.get_mf(sp)
    if not mf.converged or S.gap(mf) < 0.04:
        raise Skip("gap")
    mon.event("pbc", sp["type"] == "cell")
    mon.event("uhf", sp["uhf"])
    dict(ci=ci, emb=embedded, pop=population, dmet=dmet)[case["kind"]](rng, sp, mf, mon, case)


# ---------------------------------------------------------------- oracles

def overlap(emb):
    return np.asarray(emb.mol.pbc_intor("int1e_ovlp") if hasattr(emb.mol, "pbc_intor") else emb.mol.intor("int1e_ovlp"))


def ao_atoms(mol):
    return np.array([l[0] for l in mol.ao_labels(None)])


def projectors(emb, mf, projection, flt=None):
    """[(P_alpha, P_beta) of each atom] in the MO basis."""
    import vayesta.ewf

    uhf = np.ndim(emb.mo_coeff[0]) == 2
    s = overlap(emb)
    cs = [np.asarray(c).T @ s for c in both(emb.mo_coeff, uhf)]
    if projection == "sao":
        x = ref.lowdin(s)
        at = ao_atoms(emb.mol)
        lab = emb.mol.ao_labels(None)
        ok = np.array([flt is None or any(str(l[2]) + str(l[3]) == q or str(l[2]) == q for q in flt) for l in lab])
        xs = [[x[:, (at == a) & ok]] * 2 for a in range(emb.mol.natm)]
    else:
        e2 = vayesta.ewf.EWF(mf)
        fr = dict(iao=e2.iao_fragmentation)[projection] if projection == "iao" else e2.iaopao_fragmentation
        with fr(**(dict(add_symmetric=False) if e2.ncells > 1 else {})) as f:
            fs = [f.add_atomic_fragment(a) for a in range(e2.mol.natm)]
        xs = [both(y.c_frag, uhf) for y in fs]
    out = []
    for xa in xs:
        r = [c @ y for c, y in zip(cs, xa)]
        out.append([y @ y.T for y in r])
    return out


def expect(kind, p, q, d1, d2):
    """<A B> for one-body operators from spin-resolved density matrices d2 = (aa, ab, bb)."""
    f = 0.5 if kind == "sz,sz" else 1.0
    g = (f, -f if kind == "sz,sz" else f)
    v = sum(g[s] * g[s] * np.trace(p[s] @ q[s] @ d1[s]) for s in range(2))
    if d2 is not None:
        aa, ab, bb = d2
        c = lambda x, a, b: np.einsum("ijkl,ij,kl->", x, a, b, optimize=True)
        v += g[0] * g[0] * c(aa, p[0], q[0]) + g[1] * g[1] * c(bb, p[1], q[1]) + g[0] * g[1] * (c(ab, p[0], q[1]) + c(ab, q[0], p[1]))
    if kind == "dn,dn":
        v -= sum(np.sum(p[s] * d1[s]) for s in range(2)) * sum(np.sum(q[s] * d1[s]) for s in range(2))
    return v


def wick(d1, h1=None):
    """2-DM generated by a determinant h1 and the difference of the 1-DM d1 to first order (h1=d1: the determinant's own)."""
    h1 = d1 if h1 is None else h1
    dd = [a - b for a, b in zip(d1, h1)]

    def pair(a, b, same):
        x = np.einsum("ij,kl->ijkl", a, b)
        if same:
            x = x - np.einsum("il,kj->ijkl", a, b)
        return x

    def sym(s, t):
        return pair(h1[s], h1[t], s == t) + pair(dd[s], h1[t], s == t) + pair(h1[s], dd[t], s == t)

    return sym(0, 0), sym(0, 1), sym(1, 1)


def hf1(emb, uhf):
    out = []
    for n, k in zip(both(emb.nmo, uhf), both(emb.nocc, uhf)):
        d = np.zeros((int(n), int(n)))
        d[range(int(k)), range(int(k))] = 1
        out.append(d)
    return out


def matrix(kind, pr, a1, a2, d1, d2):
    return np.array([[expect(kind, pr[a], pr[b], d1, d2) for b in a2] for a in a1])


def pick_atoms(rng, emb, mon):
    nat = emb.mol.natm
    n1 = nat if emb.kcell is None else emb.kcell.natm
    r = rng.random()
    if r < 0.45:
        return None, list(range(n1)), list(range(nat))
    mon.event("atoms")
    if r < 0.7:
        l = rng.sample(range(nat), rng.randint(1, nat))
        return l, l, l
    a = rng.sample(range(nat), rng.randint(1, nat))
    b = rng.sample(range(nat), rng.randint(1, nat))
    return [a, b], a, b


def kinds(uhf):
    return ["Sz,Sz"] if uhf else ["N,N", "dN,dN", "Sz,Sz"]


def projs(sp):
    return ["sao"] if sp["basis"] != "6-31g" else ["sao", "iao+pao"]


def mean_field(rng, sp, mf, emb, mon, tag):
    uhf = sp["uhf"]
    d1 = hf1(emb, uhf)
    for pj in projs(sp):
        pr = projectors(emb, mf, pj)
        kd = rng.choice(kinds(uhf))
        at, a1, a2 = pick_atoms(rng, emb, mon)
        c = emb.get_corrfunc_mf(kd, atoms=at, projection=pj)
        mon.close("mean-field correlation function", c, matrix(kd.lower(), pr, a1, a2, d1, wick(d1)), 1e-7, "%s %s %r" % (kd, pj, at))
        mon.event("mean field")
        mon.seen("mf", tag, kd, pj, at is None)


# ---------------------------------------------------------------- workloads

def ci(rng, sp, mf, mon, case):
    """Correlation functions from supplied density matrices against operators applied to a CI vector."""
    import vayesta.ewf
    from pyscf import fci, ao2mo
    from vayesta.misc import corrfunc as cf

    uhf = sp["uhf"]
    mol = mf.mol
    emb = vayesta.ewf.EWF(mf)
    n = mol.nao
    ne = mol.nelec
    rr = np.random.default_rng(case["rs"])
    if uhf:
        # any state with these electrons, and the ground state
        ca, cb = mf.mo_coeff
        v = rr.standard_normal((fci.cistring.num_strings(n, ne[0]), fci.cistring.num_strings(n, ne[1])))
        v /= np.linalg.norm(v)
        d1, d2 = fci.direct_uhf.make_rdm12s(v, n, ne)
        d1 = [np.asarray(x) for x in d1]
        given1, given2 = tuple(d1), tuple(d2)
    else:
        c = mf.mo_coeff
        h = c.T @ mf.get_hcore() @ c
        g = ao2mo.kernel(mol, c, compact=False).reshape((n,) * 4)
        e, v = fci.direct_spin0.kernel(h, g, n, ne, conv_tol=1e-13)
        if fci.spin_op.spin_square(v, n, ne)[0] > 1e-8:
            raise Skip("ground state is no singlet")
        t1, t2 = fci.direct_spin1.make_rdm12(v, n, ne)
        d1 = [t1 / 2, t1 / 2]
        given1, given2 = t1, t2
    h1 = hf1(emb, uhf)
    pj = "sao" if case["i"] % 3 == 0 else rng.choice(projs(sp))
    flt = None
    if case["i"] % 3 == 0:
        flt = ["1s"]
        mon.event("filter")
    pr = projectors(emb, mf, pj, flt)

    def op(p, kind):
        f = (0.5, -0.5) if kind == "sz,sz" else (1.0, 1.0)
        return fci.direct_uhf.contract_1e((f[0] * p[0], f[1] * p[1]), v, n, ne)

    # without the independent-particle part the embedding adds it from the determinant
    w = wick(d1, h1)
    if uhf:
        cum = tuple(a - b for a, b in zip(given2, w))
    else:
        cum = given2 - (w[0] + w[2] + w[1] + w[1].transpose(2, 3, 0, 1))
    before = [np.array(x) for x in (given2 if uhf else [given2])] + [np.array(x) for x in (given1 if uhf else [given1])]
    for kd in kinds(uhf):
        at, a1, a2 = pick_atoms(rng, emb, mon)
        k = kd.lower()
        o = {a: op(pr[a], k) for a in set(a1) | set(a2)}
        x = np.array([[np.sum(o[a] * o[b]) for b in a2] for a in a1])
        if k == "dn,dn":
            m = {a: np.sum(o[a] * v) for a in o}
            x -= np.array([[m[a] * m[b] for b in a2] for a in a1])
        kw = dict(atoms=at, projection=pj, orbital_filter=flt)
        for w1, dm2 in ((True, given2), (False, cum)):
            r = emb.get_corrfunc(kd, dm1=given1, dm2=dm2, dm2_with_dm1=w1, **kw)
            mon.close("correlation function of given density matrices", r, x, 1e-7, "%s %s with_dm1=%s %r" % (kd, pj, w1, at))
        r = emb.get_corrfunc(kd, dm1=given1, dm2=given2, **kw)
        mon.close("correlation function of a complete 2-DM", r, x, 1e-7, "%s %s" % (kd, pj))
        mon.event("ci")
        mon.seen("ci", sp["name"], kd, pj, at is None, flt)
        # functions on plain arrays
        fn = {"sz,sz": cf.spinspin_z_unrestricted if uhf else cf.spinspin_z}.get(k, lambda *z, **y: cf.chargecharge(*z, subtract_indep=k == "dn,dn", **y))
        sp_ = (lambda p: (p[0], p[1])) if uhf else (lambda p: p[0])
        a, b = rng.choice(a1), rng.choice(a2)
        mon.close("pair function", fn(given1, given2, proj1=sp_(pr[a]), proj2=sp_(pr[b])), x[a1.index(a), a2.index(b)], 1e-7, kd)
        one = [np.eye(n)] * 2
        t = op(one, k)
        tot = np.sum(t * t) - (np.sum(t * v) ** 2 if k == "dn,dn" else 0)
        mon.close("total", fn(given1, given2), tot, 1e-7, kd)
        if at is None and flt is None:
            mon.close("sum over atoms", r.sum(), tot, 1e-6, kd)
        # the determinant
        d = (tuple(h1) if uhf else h1[0] * 2)
        z = matrix(k, {0: pr[a], 1: pr[b]}, [0], [1], h1, wick(h1))[0, 0]
        mon.close("pair function of a determinant", fn(d, None, proj1=sp_(pr[a]), proj2=sp_(pr[b])), z, 1e-8, kd)
        zt = matrix(k, {0: one}, [0], [0], h1, wick(h1))[0, 0]
        mon.close("total of a determinant", fn(d, None), zt, 1e-8, kd)
    if uhf:
        a = rng.randrange(mol.natm)
        mon.close("spin of an atom", cf.spin_z_unrestricted(given1, proj=(pr[a][0], pr[a][1])), np.sum(op(pr[a], "sz,sz") * v), 1e-8)
        mon.close("total spin", cf.spin_z_unrestricted(given1), (ne[0] - ne[1]) / 2, 1e-8)
    after = [np.array(x) for x in (given2 if uhf else [given2])] + [np.array(x) for x in (given1 if uhf else [given1])]
    mon.close("given density matrices untouched", after, before, 1e-15)
    mean_field(rng, sp, mf, emb, mon, sp["name"])


def cumulant(emb, uhf):
    """Sum of the fragments' approximate cumulants in the full MO basis, spin-resolved."""
    s = overlap(emb)
    cs = [np.asarray(c).T @ s for c in both(emb.mo_coeff, uhf)]
    n = [c.shape[0] for c in cs]
    out = [np.zeros((n[0],) * 4), np.zeros((n[0], n[0], n[1], n[1])), np.zeros((n[1],) * 4)]
    for f in emb.get_fragments(contributes=True):
        r = [c @ x for c, x in zip(cs, both(f.cluster.coeff, uhf))]
        if f.solver == "MP2":
            t2 = f.results.wf.t2
            pj = both(f.get_overlap("cluster[occ]|frag|cluster[occ]"), uhf)
            tt = [np.asarray(x) for x in t2] if uhf else [t2 - t2.transpose(0, 1, 3, 2), t2, t2 - t2.transpose(0, 1, 3, 2)]
            d = []
            for t, (a, b) in zip(tt, ((0, 0), (0, 1), (1, 1))):
                x = (np.einsum("xi,ijab->xjab", pj[a], t) + np.einsum("xj,ijab->ixab", pj[b], t)) / 2
                o1, o2, v1, v2 = x.shape
                y = np.zeros((o1 + v1, o1 + v1, o2 + v2, o2 + v2))
                y[:o1, o1:, :o2, o2:] = x.transpose(0, 2, 1, 3)
                y[o1:, :o1, o2:, :o2] = x.transpose(2, 0, 3, 1)
                d.append(y)
        else:
            d2 = f.make_fragment_dm2cumulant()
            if not uhf:
                aa = (d2 - d2.transpose(0, 3, 2, 1)) / 6
                d2 = (aa, d2 / 2 - aa, aa)
            d = d2
        for x, y, (a, b) in zip(out, d, ((0, 0), (0, 1), (1, 1))):
            x += np.einsum("pqrs,ip,jq,kr,ls->ijkl", y, r[a], r[a], r[b], r[b], optimize=True)
    return out


def embedded(rng, sp, mf, mon, case):
    uhf = sp["uhf"]
    u = (case["i"] * 0.381966) % 1
    solver = "MP2" if u < 0.35 else "CCSD"
    r = (case["i"] * 0.618034) % 1
    bath = dict(bathtype="full") if r < 0.35 else dict(bathtype="dmet") if r < 0.5 else dict(bathtype="mp2", threshold=10 ** rng.uniform(-5, -2.5))
    cell = sp["type"] == "cell"
    gr = [[i] for i in range(len(sp["atom"]))] if cell or rng.random() < 0.6 else None
    frag = "sao" if cell or rng.random() < 0.5 else "iao"
    kw = dict(solver=solver, sopts=dict(solve_lambda=True, conv_tol=1e-10, conv_tol_normt=1e-8) if solver == "CCSD" else None)

    def mk(m, s, sym=None):
        g = gr or groups(random.Random(case["rs"]), _emb(m), s)
        return build(m, s, g, frag, bath, sym=sym, **kw)

    emb = mk(mf, sp)
    if solver == "CCSD" and not all(f.results.converged for f in emb.fragments):
        raise Skip("CCSD")
    dm1 = emb.make_rdm1()
    d1 = [np.asarray(x) for x in dm1] if uhf else [dm1 / 2, dm1 / 2]
    d2 = [a + b for a, b in zip(wick(d1, hf1(emb, uhf)), cumulant(emb, uhf))]
    tag = (sp["name"], solver, bath["bathtype"], frag)
    res = {}
    for pj in projs(sp):
        if pj != "sao" and cell:
            continue
        pr = projectors(emb, mf, pj)
        for kd in kinds(uhf):
            at, a1, a2 = pick_atoms(rng, emb, mon)
            c = emb.get_corrfunc(kd, atoms=at, projection=pj)
            mon.close("embedded correlation function", c, matrix(kd.lower(), pr, a1, a2, d1, d2), 1e-7, "%s %s %r" % (kd, pj, at))
            mon.event("embedded")
            mon.seen("emb", tag, kd, pj, at is None)
            res[kd, pj] = at, c
            if pj == "sao":
                mon.close("symmetry switch", emb.get_corrfunc(kd, atoms=at, projection=pj, use_symmetry=False), c, 1e-9, kd)
    mean_field(rng, sp, mf, emb, mon, tag)
    if solver == "CCSD" and bath["bathtype"] == "full" and not cell:
        from pyscf import cc

        m = (cc.UCCSD if uhf else cc.RCCSD)(mf)
        if sp.get("df") and not uhf:
            m = cc.CCSD(mf)
        m.conv_tol, m.conv_tol_normt, m.max_cycle = 1e-11, 1e-8, 200
        m.kernel()
        m.solve_lambda()
        if m.converged and m.converged_lambda and abs(m.e_tot - emb.e_tot) < 1e-6:
            p1, p2 = m.make_rdm1(), m.make_rdm2()
            if uhf:
                q1, q2 = list(p1), list(p2)
            else:
                q1 = [p1 / 2] * 2
                aa = (p2 - p2.transpose(0, 3, 2, 1)) / 6
                q2 = [aa, p2 / 2 - aa, aa]
            pr = projectors(emb, mf, "sao")
            for kd in kinds(uhf):
                at, a1, a2 = pick_atoms(rng, emb, mon)
                mon.close("correlation function in the complete bath", emb.get_corrfunc(kd, atoms=at), matrix(kd.lower(), pr, a1, a2, q1, q2), 3e-6, kd)
            mon.event("full bath")
    if cell and np.prod(sp["kmesh"]) > 1:
        e2 = mk(mf, sp, sym=True)
        for (kd, pj), (at, c) in res.items():
            mon.close("fragments by translation", e2.get_corrfunc(kd, atoms=at, projection=pj), c, 3e-6, kd)
        mon.event("symmetry")
    if not uhf and not cell and rng.random() < 0.6:
        mu = uhf_of(mf, sp)
        s2 = dict(sp, uhf=True)
        e2 = mk(mu, s2)
        at, c = res["Sz,Sz", "sao"]
        if solver == "MP2" or abs(e2.e_tot - emb.e_tot) < 1e-6:
            same = max(abs(a - b) for a, b in zip(e2.get_fragment_cluster_sizes(), emb.get_fragment_cluster_sizes())) if hasattr(emb, "get_fragment_cluster_sizes") else 0
            if not same:
                mon.close("restricted equals unrestricted", e2.get_corrfunc("Sz,Sz", atoms=at), c, 3e-6)
                mon.event("closed-shell pair")


def _emb(mf):
    import vayesta.ewf

    return vayesta.ewf.EWF(mf)


def dmet(rng, sp, mf, mon, case):
    import vayesta.dmet

    uhf = sp["uhf"]
    emb = vayesta.dmet.DMET(mf, solver="FCI", maxiter=1, bath_options=dict(bathtype="dmet"), solver_options=dict(conv_tol=1e-13))
    with emb.sao_fragmentation() as f:
        for a in range(emb.mol.natm):
            f.add_atomic_fragment(a)
    emb.kernel()
    dm1, dm2 = emb.make_rdm1(), emb.make_rdm2()
    if uhf:
        d1, d2 = [np.asarray(x) for x in dm1], [np.asarray(x) for x in dm2]
    else:
        d1 = [dm1 / 2] * 2
    pr = projectors(emb, mf, "sao")
    for kd in kinds(uhf):
        if not uhf:
            # democratic 2-DMs are no singlet states; the documented spin decomposition of DM2 is what defines Sz,Sz
            aa = (dm2 - dm2.transpose(0, 3, 2, 1)) / 6
            d2 = [aa, dm2 / 2 - aa, aa]
        at, a1, a2 = pick_atoms(rng, emb, mon)
        # democratic 2-DMs lack the symmetry under exchange of the electrons: judge the average of <A B> and <B A>
        c = (emb.get_corrfunc(kd, atoms=[a1, a2]) + emb.get_corrfunc(kd, atoms=[a2, a1]).T) / 2
        w = (matrix(kd.lower(), pr, a1, a2, d1, d2) + matrix(kd.lower(), pr, a2, a1, d1, d2).T) / 2
        mon.close("DMET correlation function", c, w, 1e-7, "%s %r" % (kd, at))
        mon.event("dmet")
        mon.seen("dmet", sp["name"], kd)


def population(rng, sp, mf, mon, case):
    import vayesta.ewf

    uhf = sp["uhf"]
    emb = vayesta.ewf.EWF(mf)
    mol = emb.mol
    s = overlap(emb)
    n = mol.nao
    rr = np.random.default_rng(case["rs"])
    mos = [np.asarray(c) for c in both(emb.mo_coeff, uhf)]
    src = rng.choice(["mf", "correlated", "random"])
    dm = []
    for sx in range(2 if uhf else 1):
        k = int(emb.nocc[sx] if uhf else emb.nocc)
        o = np.zeros(n)
        o[:k] = 1 if uhf else 2
        d = np.diag(o)
        if src != "mf":
            m = rr.standard_normal((n, n)) * 0.1
            q, _ = np.linalg.qr(np.eye(n) + m - m.T)
            if src == "correlated":
                o = o - 0.03
                o[k:] = 0.03 * k / max(n - k, 1)
                o[:k] = (1 if uhf else 2) - 0.03
            d = q @ np.diag(o) @ q.T
        dm.append(d)
    nel = [np.trace(d) for d in dm]
    ao = [c @ d @ c.T for c, d in zip(mos, dm)]
    at = ao_atoms(mol)
    z = np.array([mol.atom_charge(a) for a in range(mol.natm)], float)
    los = ["lowdin", "mulliken", "array"] + (["iao+pao"] if sp["basis"] == "6-31g" and sp["type"] == "mol" else [])
    for lo in los:
        if lo == "array":
            q, _ = np.linalg.qr(rr.standard_normal((n, n)))
            x = [ref.lowdin(s) @ q] * len(dm)
            arg = tuple(x) if uhf else x[0]
        elif lo == "lowdin":
            x = [ref.lowdin(s)] * len(dm)
            arg = lo
        elif lo == "iao+pao":
            x = [np.asarray(y) for y in both(emb.get_lo_coeff("iao+pao"), uhf)]
            arg = lo
        else:
            arg = lo
        if lo == "mulliken":
            pop = [np.einsum("ab,ba->a", d, s) for d in ao]
        else:
            pop = [np.diag(y.T @ s @ d @ s @ y) for y, d in zip(x, ao)]
        inmo = rng.random() < 0.5
        with tempfile.TemporaryDirectory() as td:
            fn = os.path.join(td, "sub", "pop.txt") if rng.random() < 0.6 else None
            res = rng.random() < 0.5
            kw = dict(filename=fn, orbital_resolved=res) if fn else dict(write=rng.random() < 0.5)
            if inmo:
                r = emb.pop_analysis(tuple(dm) if uhf else dm[0], mo_coeff=emb.mo_coeff, local_orbitals=arg, **kw)
            else:
                r = emb.pop_analysis(tuple(ao) if uhf else ao[0], local_orbitals=arg, **kw)
            mon.close("population", np.array(r), np.array(pop if uhf else pop[0]), 1e-8, lo)
            mon.close("populations add up to the electrons", np.sum(r, axis=-1), np.array(nel) if uhf else nel[0], 1e-8, lo)
            q, sz = emb.get_atomic_charges(r)
            pt = np.array([sum(p[at == a].sum() for p in pop) for a in range(mol.natm)])
            ps = np.array([pop[0][at == a].sum() - pop[1][at == a].sum() if uhf else 0.0 for a in range(mol.natm)])
            mon.close("atomic charges", q, z - pt, 1e-8, lo)
            mon.close("atomic spins", sz, ps, 1e-8, lo)
            if fn:
                check_file(mon, fn, mol, z - pt, ps, pop, res, at)
                # appended by default
                emb.pop_analysis(tuple(ao) if uhf else ao[0], local_orbitals=arg, **kw)
                mon.eq("appended", sum(l.startswith("# Population") for l in open(fn)), 2)
        mon.event("population")
        mon.seen("pop", sp["name"], lo, src, inmo, bool(fn))
    if lo == "iao+pao":
        # each atom's IAO+PAO population is the trace over its atomic fragment
        pr = projectors(emb, mf, "iao+pao")
        got = np.array([[p[at == a].sum() for a in range(mol.natm)] for p in pop])
        want = np.array([[np.sum(pr[a][sx] * dm[sx]) for a in range(mol.natm)] for sx in range(len(dm))])
        mon.close("IAO+PAO population per atom", got, want, 1e-7)
    mean_field(rng, sp, mf, emb, mon, sp["name"])


def check_file(mon, fn, mol, q, sz, pop, res, at):
    rows = [l.rstrip("\n") for l in open(fn) if l.strip() and not l.startswith("#")]
    gq, gs, gp = [], [], []
    for l in rows:
        if "q=" in l:
            a, b = l.split("q=")[1].split("s=")
            gq.append(float(a))
            gs.append(float(b))
        else:
            gp.append([float(v) for v in l.split("=")[1].split()])
    mon.close("charges in the file", gq, q, 2e-8)
    mon.close("spins in the file", gs, sz, 2e-8)
    if res:
        mon.close("orbital populations in the file", np.array(gp).ravel() if gp else [], np.array(pop).T.ravel(), 2e-8)
    mon.event("file")
