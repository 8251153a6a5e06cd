"""C17: perturbative corrections to embedded energies: connected triples, inter-cluster MP2 and the finite-bath correction."""
import random

import numpy as np

from lib.mon import Skip

RULE = ("one embedding (molecule, DF molecule, cell, folded cell; RHF/UHF; full or truncated baths; fragments entered explicitly or by symmetry), its (T), inter-cluster "
        "MP2 and finite-bath energies recomputed from dense integrals and amplitudes; distinct = (correction, system, spin, bath, options)")
NEED = {"triples:full": 4, "triples:truncated": 8, "fbc:truncated": 8, "fbc:full": 3, "icmp2": 20, "icmp2:complete": 3, "uhf": 10, "closed-shell pair": 5, "pbc": 5, "symmetry": 4, "blocks": 4}
BUDGET = {"quick": 150, "thorough": 1500}
CASE_TIMEOUT = 300
ASSUMPTIONS = ["AO integrals of PySCF; PySCF CCSD(T) for complete clusters", "clusters with fragment orbitals at the edge of the DMET bath threshold are skipped"]


def cases(rng, tier):
    from lib import systems as S

    full = tier == "thorough"
    out = []
    names = ["lih", "h4", "h2o", "beh2", "oh", "h5", "bh", "ch2", "heh2"]
    n = 70 if full else 18
    for i in range(n):
        nm = names[i % len(names)]
        sp = S.mol(rng, nm, "6-31g" if nm not in ("ch2", "beh2") else "sto-3g", df=rng.choice([None, True]), amp=0.04)
        out.append(dict(kind="t", w=6, rs=rng.randrange(1 << 30), sys=sp))
    for i in range(n):
        nm = names[(i * 2) % len(names)]
        sp = S.mol(rng, nm, "6-31g", df=rng.choice([None, True]), amp=0.04)
        out.append(dict(kind="fbc", w=4, rs=rng.randrange(1 << 30), sys=sp))
    for i in range(n):
        nm = names[(i + 3) % len(names)]
        sp = S.mol(rng, nm, "6-31g" if i % 3 else "sto-3g", df=True, amp=0.04)
        out.append(dict(kind="icmp2", w=5, rs=rng.randrange(1 << 30), sys=sp))
    for i in range(24 if full else 6):
        dim = 2 if i % 3 == 2 else 3
        mesh = [(3, 1, 1), (1, 1, 1), (2, 1, 1)][i % 3]
        nm = "heh2" if mesh == (1, 1, 1) else "h2"
        b = "6-31g" if nm != "heh2" or i % 2 else "sto-3g"
        for kind in ("icmp2", "fbc", "t"):
            if kind == "t" and mesh == (3, 1, 1) and i:
                continue
            sp = S.cell(rng, nm, mesh, b if kind != "t" else "sto-3g", uhf=i % 2 == 1, dim=dim, skew=dim == 3, amp=0.05, exxdiv=rng.choice(["ewald", "ewald", None]))
            out.append(dict(kind=kind, w=10, rs=rng.randrange(1 << 30), sys=sp))
    for i, c in enumerate(out):
        c["i"] = i
    return out


def run(case, mon):
    from lib import systems as S

    rng = random.Random(case["rs"])
    sp = case["sys"]
    mf = S.get_mf(sp)
    if not mf.converged or S.gap(mf) < 0.05:
        raise Skip("gap")
    if sp["type"] == "cell":
        mon.event("pbc")
    if sp["uhf"]:
        mon.event("uhf")
    dict(t=triples, fbc=fbc, icmp2=icmp2)[case["kind"]](rng, sp, mf, mon, case)


def lists(x, uhf):
    return [np.asarray(y) for y in x] if uhf else [np.asarray(x)]


def both(x, uhf):
    l = lists(x, uhf)
    return l if uhf else l * 2


def groups(rng, emb, sp):
    nat = emb.mol.natm if sp["type"] == "mol" else len(sp["atom"])
    if rng.random() < 0.6 or nat == 1:
        return [[i] for i in range(nat)]
    k = rng.randrange(1, nat)
    return [list(range(k)), list(range(k, nat))]


def build(mf, sp, gr, frag, bath, sym=None, rot=False, solver="MP2", sopts=None, **kw):
    """Embedding of all cells: translated copies by symmetry (sym=True) or entered one by one."""
    import vayesta.ewf

    emb = vayesta.ewf.EWF(mf, solver=solver, bath_options=bath, solver_options=sopts or {}, **kw)
    nc = emb.ncells
    nat = len(sp["atom"])
    ctx = dict(iao=emb.iao_fragmentation, sao=emb.sao_fragmentation)[frag]
    with ctx(**(dict(add_symmetric=bool(sym)) if nc > 1 else {})) as f:
        for r in range(1 if sym else nc):
            for g in gr:
                f.add_atomic_fragment([a + r * nat for a in g])
    emb.kernel()
    return emb


def uhf_of(mf, sp):
    """The same closed-shell determinant as an unrestricted mean field."""
    m = mf.to_uhf()
    if hasattr(mf, "with_df"):
        m.with_df = mf.with_df
    m.converged = True
    return m


def case_u(case):
    """Stratified choice in [0, 1)."""
    return (case["i"] * 0.381966) % 1


def rbath(rng, case):
    r = case_u(case)
    if r < 0.2:
        return dict(bathtype="full"), "full"
    if r < 0.35:
        return dict(bathtype="dmet"), "dmet"
    if r < 0.75:
        return dict(bathtype="mp2", threshold=10 ** rng.uniform(-6, -2)), "mp2"
    return dict(bathtype="mp2", truncation="number", threshold=rng.randint(0, 3)), "mp2n"


# ---------------------------------------------------------------- connected triples

def spin_orbital(x, a):
    """Spin-blocked (ca, cb) arrays of two-index spin-diagonal quantities."""
    n0, m0 = x[0].shape
    n1, m1 = x[1].shape
    out = np.zeros((n0 + n1, m0 + m1))
    out[:n0, :m0], out[n0:, m0:] = x
    return out


def so_t2(t2):
    aa, ab, bb = t2
    na, nb, va, vb = ab.shape
    t = np.zeros((na + nb, na + nb, va + vb, va + vb))
    t[:na, :na, :va, :va] = aa
    t[na:, na:, va:, va:] = bb
    t[:na, na:, :va, va:] = ab
    t[na:, :na, va:, :va] = ab.transpose(1, 0, 3, 2)
    t[:na, na:, va:, :va] = -ab.transpose(0, 1, 3, 2)
    t[na:, :na, :va, va:] = -ab.transpose(1, 0, 2, 3)
    return t


def so_eri(tr, ca, cb):
    """<pq||rs> for four lists (alpha, beta) of coefficients given as ca[k] = (alpha_k, beta_k)."""
    def chem(p, q, r, s):
        sh = [sum(x.shape[1] for x in y) for y in (p, q, r, s)]
        out = np.zeros(sh)
        for i in range(2):
            for j in range(2):
                sl = []
                for k, y in enumerate((p, q, r, s)):
                    z = (i, i, j, j)[k]
                    o = y[0].shape[1] if z else 0
                    sl.append(slice(o, o + y[z].shape[1]))
                out[tuple(sl)] = tr(p[i], q[i], r[j], s[j])
        return out
    p, q, r, s = ca, cb[0], cb[1], cb[2]
    return chem(p, r, q, s).transpose(0, 2, 1, 3) - chem(p, s, q, r).transpose(0, 2, 3, 1)


def et_ref(dn, fock, co, cv, t1, t2, proj):
    """Projected connected-triples energy in spin orbitals."""
    o = spin_orbital
    g = lambda a, b, c, d: so_eri(dn.tr, a, (b, c, d))
    vovv = g(cv, co, cv, cv)      # <e i || b c>  stored [e,i,b,c]
    ovoo = g(co, cv, co, co)      # <m a || j k>
    oovv = g(co, co, cv, cv)
    fo = o([c.T @ f @ c for c, f in zip(co, fock)], 0)
    fv = o([c.T @ f @ c for c, f in zip(cv, fock)], 0)
    fov = o([a.T @ f @ b for a, b, f in zip(co, cv, fock)], 0)
    t1 = o(t1, 0)
    t2 = so_t2(t2)
    eo, ev = np.diag(fo), np.diag(fv)
    d = (eo[:, None, None, None, None, None] + eo[None, :, None, None, None, None] + eo[None, None, :, None, None, None]
         - ev[None, None, None, :, None, None] - ev[None, None, None, None, :, None] - ev[None, None, None, None, None, :])
    # connected: P(i/jk) P(a/bc) [ sum_e t_jk^ae <ei||bc> - sum_m t_im^bc <ma||jk> ]
    w = np.einsum("jkae,eibc->ijkabc", t2, vovv, optimize=True) - np.einsum("imbc,majk->ijkabc", t2, ovoo, optimize=True)
    v = np.einsum("ia,jkbc->ijkabc", t1, oovv) + np.einsum("ia,jkbc->ijkabc", fov, t2)

    def asym(x):
        x = x - x.transpose(1, 0, 2, 3, 4, 5) - x.transpose(2, 1, 0, 3, 4, 5)
        return x - x.transpose(0, 1, 2, 4, 3, 5) - x.transpose(0, 1, 2, 5, 4, 3)

    w, v = asym(w), asym(v)
    z = (w + v) / d
    pw = (np.einsum("il,ljkabc->ijkabc", proj, w) + np.einsum("jl,ilkabc->ijkabc", proj, w) + np.einsum("kl,ijlabc->ijkabc", proj, w)) / 3
    return np.sum(pw * z) / 36


def amps(x, uhf):
    wf = x.results.wf.as_ccsd()
    if uhf:
        return wf.t1, wf.t2
    t = wf.t2
    return (wf.t1, wf.t1), (t - t.transpose(0, 1, 3, 2), t, t - t.transpose(0, 1, 3, 2))


def triples(rng, sp, mf, mon, case):
    from props.c10 import Dense

    cell = sp["type"] == "cell"
    uhf = sp["uhf"]
    frag = "iao" if sp["basis"] != "sto-3g" else rng.choice(["iao", "sao"])
    bath, bname = rbath(rng, case)
    so = dict(conv_tol=1e-11, conv_tol_normt=1e-9)
    sym = cell and rng.random() < 0.6
    import vayesta.ewf

    gr = groups(rng, vayesta.ewf.EWF(mf), sp)
    emb = build(mf, sp, gr, frag, bath, sym, solver="CCSD", sopts=so, calc_e_ccsd_t_corr=rng.random() < 0.5)
    opt = emb.opts.calc_e_ccsd_t_corr
    if not all(x.results.converged for x in emb.get_fragments(sym_parent=None)):
        raise Skip("CCSD did not converge")
    mon.seen("t", sp["name"], sp["basis"], uhf, bname, sym, opt)
    e = {}
    for p in ("w", "r" if uhf else "z"):
        for gt in (False, True):
            e[p, gt] = emb.get_ccsd_t_corr_energy(project=p, global_t1=gt)
    p2 = "r" if uhf else "z"
    tol = 2e-8
    for gt in (False, True):
        mon.close("triples: projecting either factor gives the same energy", e["w", gt], e[p2, gt], 1e-10)
    mon.close("triples: default", emb.get_ccsd_t_corr_energy(), e["w", False], 1e-12)
    # dense
    dn = Dense(emb.mf, sp)
    s = emb.get_ovlp()
    fock = both(emb.get_fock(), uhf)
    big = max(sum(y.shape[1] for y in both(x.cluster.c_active_occ, uhf)) ** 3 * sum(y.shape[1] for y in both(x.cluster.c_active_vir, uhf)) ** 3 for x in emb.fragments)
    if big < 1.2e7:
        gt1 = emb.get_global_t1()
        gt1 = both(gt1, uhf)
        mo = both(emb.mo_coeff_occ, uhf), both(emb.mo_coeff_vir, uhf)
        tot = {False: 0.0, True: 0.0}
        for x in emb.get_fragments(contributes=True):
            co, cv = both(x.cluster.c_active_occ, uhf), both(x.cluster.c_active_vir, uhf)
            if x.sym_parent is None:
                pr = []
                for c, f in zip(co, both(x.c_frag, uhf)):
                    r = c.T @ s @ f
                    pr.append(r @ r.T)
                proj = spin_orbital(pr, 0)
                t1, t2 = amps(x, uhf)
                t1g = [c.T @ s @ m @ t @ n.T @ s @ d for c, d, m, n, t in zip(co, cv, mo[0], mo[1], gt1)]
                loc = {gt: et_ref(dn, fock, co, cv, t1g if gt else t1, t2, proj) for gt in (False, True)}
                if opt:
                    mon.event("option")
                    mon.close("triples: calc_e_ccsd_t_corr stores the fragment's energy", x.results.e_corr_ccsd_t, loc[False], tol)
                par = {x.id: loc}
            else:
                loc = None
            w = x.symmetry_factor if x.sym_parent is None else 0
            for gt in tot:
                if loc is not None:
                    tot[gt] += w * loc[gt] / emb.ncells
        for gt in tot:
            mon.event("triples:truncated" if bname != "full" else "triples:full")
            mon.close("triples: sum of projected fragment energies", e["w", gt], tot[gt], tol, "global_t1=%s" % gt)
    # amplitudes given explicitly
    fr = emb.get_fragments(contributes=True)
    if len(fr) == 1 or (len(emb.get_fragments(contributes=True, sym_parent=None)) == 1):
        x = emb.get_fragments(contributes=True, sym_parent=None)[0]
        wf = x.results.wf.as_ccsd()
        mon.event("explicit amplitudes")
        mon.close("triples: explicit amplitudes", emb.get_ccsd_t_corr_energy(t1=wf.t1, t2=wf.t2), e["w", False], 1e-12)
    if bname == "full" and (not cell or emb.ncells == 1):
        from pyscf import cc
        from pyscf.pbc import cc as pcc

        m = (pcc if cell else cc).CCSD(emb.mf) if not cell else None
        if m is not None:
            m.conv_tol, m.conv_tol_normt, m.max_cycle = 1e-11, 1e-9, 200
            m.kernel()
            if m.converged and abs(m.e_corr - emb.e_corr) < 1e-7:
                mon.event("triples:full")
                for k, v in e.items():
                    mon.close("triples: complete clusters reproduce CCSD(T)", v, m.ccsd_t(), tol, k)
    if not uhf and not cell:
        m2 = uhf_of(mf, sp)
        e2 = build(m2, sp, gr, frag, bath, sym, solver="CCSD", sopts=so)
        if abs(e2.e_corr - emb.e_corr) < 1e-8:
            mon.event("closed-shell pair")
            for gt in (False, True):
                mon.close("triples: restricted and unrestricted agree", e2.get_ccsd_t_corr_energy(global_t1=gt), e["w", gt], tol)
    if cell and emb.ncells > 1:
        e2 = build(mf, sp, gr, frag, bath, not sym, solver="CCSD", sopts=so)
        if abs(e2.e_corr - emb.e_corr) < 1e-8:
            mon.event("symmetry")
            for gt in (False, True):
                mon.close("triples: symmetry-derived fragments count like explicit ones", e2.get_ccsd_t_corr_energy(global_t1=gt), e["w", gt], tol)


# ---------------------------------------------------------------- helpers for MP2

def canon(c, f):
    e, u = np.linalg.eigh(c.T @ f @ c)
    return c @ u, e


def dmet_space(c, s, cfrag):
    """Span of the fragment's projection onto the space c."""
    u, w, _ = np.linalg.svd(c.T @ s @ cfrag)
    w2 = w ** 2
    if ((w2 > 1e-11) & (w2 < 1e-4)).any():
        raise Skip("fragment orbital at the edge of the bath threshold")
    n = int((w2 > 1e-6).sum())
    return c @ u[:, :n]


def pair(dn, co, eo, cv, ev):
    """(t, g) blocks of plain MP2 (opposite-spin form without exchange): dict of spin pairs."""
    g, t = {}, {}
    for a, b in ((0, 0), (0, 1), (1, 1)):
        x = dn.tr(co[a], cv[a], co[b], cv[b]).transpose(0, 2, 1, 3)
        d = eo[a][:, None, None, None] + eo[b][None, :, None, None] - ev[a][None, None, :, None] - ev[b][None, None, None, :]
        g[a, b], t[a, b] = x, x / d
    return t, g


def emp2_frag(dn, fock, s, co, cv, cfrag):
    """MP2 energy with the first occupied index projected onto the fragment (spin summed)."""
    (co0, eo0), (co1, eo1) = [canon(c, f) for c, f in zip(co, fock)]
    (cv0, ev0), (cv1, ev1) = [canon(c, f) for c, f in zip(cv, fock)]
    co, eo, cv, ev = (co0, co1), (eo0, eo1), (cv0, cv1), (ev0, ev1)
    t, g = pair(dn, co, eo, cv, ev)
    p = []
    for c, f in zip(co, cfrag):
        r = c.T @ s @ f
        p.append(r @ r.T)
    e = 0
    for a in (0, 1):
        x, y = t[a, a], g[a, a]
        e += 0.5 * np.einsum("ik,ijab,kjab->", p[a], x - x.transpose(0, 1, 3, 2), y, optimize=True)
    e += 0.5 * np.einsum("ik,ijab,kjab->", p[0], t[0, 1], g[0, 1], optimize=True)
    e += 0.5 * np.einsum("jk,ijab,ikab->", p[1], t[0, 1], g[0, 1], optimize=True)
    return e


# ---------------------------------------------------------------- finite-bath correction

class SmallBlocks:
    """Memory pressure: the amplitudes of the bath construction are processed in small blocks."""

    def __init__(self, n):
        self.n = n
        self.hits = 0

    def __enter__(self):
        import inspect

        from vayesta.core.bath import bno

        self.save = []
        for k in (bno.MP2_BNO_Bath, bno.UMP2_BNO_Bath):
            fn = k.__dict__.get("_make_t2")
            if fn is None or "blksize" not in inspect.signature(fn).parameters:
                continue

            def wrap(obj, *a, __fn=fn, **kw):
                kw.setdefault("blksize", self.n)
                self.hits += 1
                return __fn(obj, *a, **kw)
            self.save.append((k, fn))
            setattr(k, "_make_t2", wrap)
        return self

    def __exit__(self, *a):
        for k, fn in self.save:
            setattr(k, "_make_t2", fn)


def fbc(rng, sp, mf, mon, case):
    import contextlib

    import vayesta.ewf
    from props.c10 import Dense

    uhf = sp["uhf"]
    cell = sp["type"] == "cell"
    frag = "iao" if sp["basis"] != "sto-3g" else rng.choice(["iao", "sao"])
    gr = groups(rng, vayesta.ewf.EWF(mf), sp)
    r = case_u(case)
    if r < 0.2:
        bath, bname = dict(bathtype="mp2", threshold=-np.inf if rng.random() < 0.5 else -1), "full"
    elif r < 0.4:
        bath, bname = dict(bathtype="mp2", threshold=np.inf), "dmet"
    elif r < 0.7:
        bath, bname = dict(bathtype="mp2", threshold=10 ** rng.uniform(-5, -2)), "mp2"
    elif r < 0.85:
        bath, bname = dict(bathtype="mp2", threshold_occ=10 ** rng.uniform(-5, -2), threshold_vir=10 ** rng.uniform(-5, -2)), "mp2ov"
    else:
        bath, bname = dict(bathtype_occ="mp2", bathtype_vir="mp2", truncation="number", threshold=rng.randint(0, 3)), "mp2n"
    if rng.random() < 0.4:
        bath["project_dmet_order"] = rng.choice([0, 1])
    if rng.random() < 0.3:
        bath["canonicalize"] = True
    sym = cell and rng.random() < 0.6
    blk = rng.choice([0, 0, 1, 2])
    with (SmallBlocks(blk) if blk else contextlib.nullcontext()) as sb:
        emb = build(mf, sp, gr, frag, bath, sym)
        eo = emb.get_fbc_energy(virtual=False)
        ev = emb.get_fbc_energy(occupied=False)
        tot = emb.get_fbc_energy()
    if blk and sb.hits:
        mon.event("blocks")
    mon.seen("fbc", sp["name"], sp["basis"], uhf, bname, sym, blk)
    mon.close("finite-bath correction: occupied and virtual parts add up", eo + ev, tot, 1e-11)
    mon.raises("finite-bath correction: neither part requested", lambda: emb.get_fbc_energy(occupied=False, virtual=False))
    dn = Dense(emb.mf, sp)
    s = emb.get_ovlp()
    fock = both(emb.get_fock(), uhf)
    moo, mov = both(emb.mo_coeff_occ, uhf), both(emb.mo_coeff_vir, uhf)
    ro = rv = 0.0
    for x in emb.get_fragments(contributes=True, sym_parent=None):
        cf = both(x.c_frag, uhf)
        do = [dmet_space(c, s, f) for c, f in zip(moo, cf)]
        dv = [dmet_space(c, s, f) for c, f in zip(mov, cf)]
        ao, av = both(x.cluster.c_active_occ, uhf), both(x.cluster.c_active_vir, uhf)
        w = x.symmetry_factor / emb.ncells
        ro += w * (emp2_frag(dn, fock, s, moo, dv, cf) - emp2_frag(dn, fock, s, ao, dv, cf))
        rv += w * (emp2_frag(dn, fock, s, do, mov, cf) - emp2_frag(dn, fock, s, do, av, cf))
    mon.event("fbc:" + ("full" if bname == "full" else "truncated"))
    tol = 1e-8
    mon.close("finite-bath correction: occupied part", eo, ro, tol)
    mon.close("finite-bath correction: virtual part", ev, rv, tol)
    if bname == "full":
        mon.zero("finite-bath correction: zero for complete clusters", tot, 1e-9)
    if not uhf:
        if not cell:
            e2 = build(uhf_of(mf, sp), sp, gr, frag, bath, sym)
            if abs(e2.e_corr - emb.e_corr) < 1e-9:
                mon.event("closed-shell pair")
                mon.close("finite-bath correction: restricted and unrestricted agree", e2.get_fbc_energy(), tot, tol)
    if cell and emb.ncells > 1:
        e2 = build(mf, sp, gr, frag, bath, not sym)
        if abs(e2.e_corr - emb.e_corr) < 1e-9:
            mon.event("symmetry")
            mon.close("finite-bath correction: symmetry-derived fragments count like explicit ones", e2.get_fbc_energy(), tot, tol)


# ---------------------------------------------------------------- inter-cluster MP2

def icmp2_ref(dn, fock, s, frs, cl, uhf, project_dc, direct, exchange, vers, diagonal):
    """Dense inter-cluster energy of all ordered pairs of fragments; frs: list of dict(co, cv, cf, ao, av) per spin."""
    e = 0.0
    spins = ((0, 0), (0, 1), (1, 0), (1, 1))
    for ix, x in enumerate(frs):
        for iy, y in enumerate(frs):
            if (diagonal == "only" and ix != iy) or (not diagonal and ix == iy):
                continue
            for a, b in spins:
                co, cv = x["co"][a], x["cv"][a]
                do, dv = y["co"][b], y["cv"][b]
                g = dn.tr(co, cv, do, dv).transpose(0, 2, 1, 3)
                d = x["eo"][a][:, None, None, None] + y["eo"][b][None, :, None, None] - x["ev"][a][None, None, :, None] - y["ev"][b][None, None, None, :]
                pi, pj = x["cf"][a].T @ s @ co, y["cf"][b].T @ s @ do
                t = np.einsum("xi,yj,ijab->xyab", pi, pj, g / d, optimize=True)
                g = np.einsum("xi,yj,ijab->xyab", pi, pj, g, optimize=True)
                po, pv = np.eye(t.shape[1]), np.eye(t.shape[3])
                if project_dc in ("occ", "both"):
                    o = np.concatenate([x["ao"][b], x["av"][b]], axis=1).T @ s @ y["cf"][b]
                    po = po - o.T @ o
                if project_dc in ("vir", "both"):
                    o = x["av"][b].T @ s @ dv
                    pv = pv - o.T @ o
                sv = cv.T @ s @ dv if a == b else None
                if direct:
                    if vers == 2 and project_dc in ("occ", "vir"):
                        # virtual index of the first electron additionally passed through the second cluster
                        sva = cv.T @ s @ y["cv"][a]
                        e += 0.5 * np.einsum("ijab,ikcd,jk,bd,ac->", t, g, po, pv, sva @ sva.T, optimize=True)
                    else:
                        e += 0.5 * np.einsum("ijab,ikac,jk,bc->", t, g, po, pv, optimize=True)
                if exchange and a == b:
                    # t_ij^{a B} (i b | j A'), with A' the image of a in y and b that of B in x
                    e -= 0.5 * np.einsum("ijaB,ikbC,jk,CA,aA,bB->", t, g, po, pv, sv, sv, optimize=True)
    return e


def icmp2(rng, sp, mf, mon, case):
    import vayesta.ewf
    from props.c10 import Dense

    uhf = sp["uhf"]
    cell = sp["type"] == "cell"
    frag = "iao" if sp["basis"] != "sto-3g" else rng.choice(["iao", "sao"])
    gr = groups(rng, vayesta.ewf.EWF(mf), sp)
    thr = [np.inf, 10 ** rng.uniform(-4, -2), np.inf, -np.inf][case["i"] % 4]
    order = rng.choice([0, 1, 2])
    b0 = dict(bathtype="mp2", project_dmet_order=order)
    sym = cell and rng.random() < 0.7
    emb = build(mf, sp, gr, frag, dict(b0, threshold=thr), sym)
    dn = Dense(emb.mf, sp)
    s = emb.get_ovlp()
    fock = both(emb.get_fock(), uhf)
    nrep = 3
    unre = None
    if not uhf and not cell:
        unre = build(uhf_of(mf, sp), sp, gr, frag, dict(b0, threshold=thr), sym)
        if abs(unre.e_corr - emb.e_corr) > 1e-9:
            unre = None
    for rep in range(nrep):
        tv = rng.choice([10 ** rng.uniform(-7, -2), 10 ** rng.uniform(-7, -2), 1e-9, None])
        to = None if uhf else rng.choice([None, None, 10 ** rng.uniform(-6, -2), -1])
        if rep == 0 and not uhf:
            tv, to = -1, -1
        if uhf and tv is None:
            tv = np.inf
        dc = "vir" if uhf else rng.choice(["occ", "vir", "both", None, "vir"])
        if rep == 0 and not uhf:
            dc = None
        kw = dict(direct=rng.random() < 0.8, exchange=rng.random() < 0.7)
        if not any(kw.values()) or rep == 0:
            kw = dict(direct=True, exchange=True)
        if uhf:
            got = emb.get_intercluster_mp2_energy(bno_threshold=tv, **kw)
            vers, diag = 1, True
        else:
            vers, diag = rng.choice([1, 1, 2]), rng.choice([True, True, False, "only"])
            if rep == 0:
                vers, diag = 1, True
            got = emb.get_intercluster_mp2_energy(bno_threshold_vir=tv, bno_threshold_occ=to, project_dc=dc, vers=vers, diagonal=diag, **kw)
        # explicit fragments, with the clusters of the inter-cluster part made by a second embedding
        ex = build(mf, sp, gr, frag, dict(b0, threshold=thr), False)
        ic = build(mf, sp, gr, frag, dict(b0, threshold_occ=np.inf if to is None else to, threshold_vir=np.inf if tv is None else tv), False)
        frs = []
        for x, y in zip(ex.fragments, ic.fragments):
            d = dict(cf=both(x.c_frag, uhf), ao=both(x.cluster.c_active_occ, uhf), av=both(x.cluster.c_active_vir, uhf))
            d["co"], d["eo"] = zip(*[canon(c, f) for c, f in zip(both(y.cluster.c_active_occ, uhf), fock)])
            d["cv"], d["ev"] = zip(*[canon(c, f) for c, f in zip(both(y.cluster.c_active_vir, uhf), fock)])
            frs.append(d)
        ref = icmp2_ref(dn, fock, s, frs, None, uhf, dc, kw["direct"], kw["exchange"], vers, diag) / emb.ncells
        mon.event("icmp2")
        mon.seen("icmp2", sp["name"], sp["basis"], uhf, dc, kw["direct"], kw["exchange"], vers, diag, to is None, sym)
        tol = 2e-8
        what = "dc=%s thresholds=%s/%s bath=%s %s vers=%s diagonal=%s sym=%s" % (dc, to, tv, thr, kw, vers, diag, sym)
        ok = mon.close("inter-cluster MP2: dense recomputation", got, ref, tol, what)
        if rep == 0 and not uhf:
            mon.event("icmp2:complete")
            moo, mov = both(emb.mo_coeff_occ, uhf), both(emb.mo_coeff_vir, uhf)
            full = emp2_frag(dn, fock, s, moo, mov, [np.eye(len(s)) @ c for c in moo]) / emb.ncells
            mon.close("inter-cluster MP2: complete spaces without projection give the full MP2 energy", got, full, tol, what)
        if thr == -np.inf and dc is not None:
            mon.event("icmp2:full")
            mon.zero("inter-cluster MP2: nothing left outside complete clusters", got, 1e-9, what)
        if unre is not None and dc == "vir" and to is None and vers == 1 and diag is True:
            mon.event("closed-shell pair")
            u = unre.get_intercluster_mp2_energy(bno_threshold=np.inf if tv is None else tv, **kw)
            mon.close("inter-cluster MP2: restricted and unrestricted agree", u, got, tol, what)
    if not uhf:
        mon.raises("inter-cluster MP2: unknown projection", lambda: emb.get_intercluster_mp2_energy(project_dc="x"))
