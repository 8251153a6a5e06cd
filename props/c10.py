"""C10: cluster Hamiltonians are the full Hamiltonian restricted to the cluster in the field of the frozen electrons."""
import itertools
import random

import numpy as np

from lib import ref
from lib.mon import Skip

RULE = ("one cluster of one embedding (molecule, DF molecule, cell, folded cell, lattice; RHF/UHF; DMET, bath-natural-orbital, full or random active space): "
        "one- and two-electron integrals, Fock matrices, three-centre integrals and the mean-field objects built from them compared with dense references; "
        "distinct = (system, spin, bath, cached, sub-cluster)")
NEED = {"cluster": 40, "uhf": 12, "unequal": 2, "pbc": 3, "block": 400, "subcluster": 15, "vext": 15, "mf": 40}
BUDGET = {"quick": 110, "thorough": 1200}
CASE_TIMEOUT = 300
ASSUMPTIONS = ["AO integrals of PySCF (four-centre, or the fitted ones where the mean field is fitted) define the Hamiltonian"]


def cases(rng, tier):
    from lib import systems as S

    full = tier == "thorough"
    out = []
    names = ["h4", "lih", "h6chain", "h2o", "oh", "h5", "nh", "bh", "heh2", "ch2", "h6"]
    for i in range(150 if full else 36):
        nm = names[i % len(names)]
        sp = S.mol(rng, nm, rng.choice(["sto-3g", "6-31g"]) if nm in ("h4", "lih", "oh", "h5") else "sto-3g", df=rng.choice([None, None, True]),
                   uhf=None if rng.random() < 0.7 else True)
        out.append(dict(kind="mol", w=2, rs=rng.randrange(1 << 30), sys=sp))
    for i in range(40 if full else 9):
        dim = 2 if i % 3 == 2 else 3
        mesh = rng.choice([(1, 1, 1), (2, 1, 1), (1, 3, 1), (1, 1, 1)])
        nm = rng.choice(["h2", "heh2", "lih"]) if mesh == (1, 1, 1) else "h2"
        sp = S.cell(rng, nm, mesh, "6-31g" if nm != "lih" and i % 2 else "sto-3g", uhf=i % 2 == 1, dim=dim, skew=dim == 3, amp=0.05, exxdiv=rng.choice(["ewald", "ewald", None]))
        out.append(dict(kind="pbc", w=6, rs=rng.randrange(1 << 30), sys=sp))
    for i in range(40 if full else 8):
        out.append(dict(kind="latt", w=1, rs=rng.randrange(1 << 30), n=rng.choice([6, 6, 10]), u=rng.uniform(1, 6), v=0.0, uhf=i % 2 == 1))
    return out


def lattice_mf(case):
    from vayesta.lattmod import Hubbard1D, LatticeRHF, LatticeUHF

    n = case["n"]
    mol = Hubbard1D(n, nelectron=n, hubbard_u=case["u"], v_nn=case["v"], boundary="PBC" if n % 4 == 2 else "APBC")
    if case["uhf"]:
        mf = LatticeUHF(mol)
        dm = np.diag([0.9, 0.1] * (n // 2)), np.diag([0.1, 0.9] * (n // 2))
        mf.conv_tol = 1e-12
        mf.kernel(dm0=np.array(dm))
    else:
        mf = LatticeRHF(mol)
        mf.conv_tol = 1e-12
        mf.kernel()
    return mf


def aoint(mf, sp=None):
    """AO integrals of an embedding's mean field: (hcore, eri, madelung, overlap)."""
    s, h = mf.get_ovlp(), mf.get_hcore()
    if sp is None:
        return h, mf.mol.get_eri(), 0.0, s
    if sp["type"] == "mol":
        return h, ref.ao_eri(mf), 0.0, s
    from props.c07 import k_eri
    from pyscf.pbc import tools

    gdf = mf.kmf.with_df if hasattr(mf, "kmf") else mf.with_df
    kpts = mf.kmf.kpts if hasattr(mf, "kmf") else np.zeros((1, 3))
    kcell = mf.kmf.cell if hasattr(mf, "kmf") else mf.mol
    n = mf.mol.nao
    mad = tools.madelung(kcell, kpts) if mf.exxdiv == "ewald" else 0.0
    return h, k_eri(gdf, [np.eye(n)] * 4), mad, s


class Dense:
    """Dense AO Hamiltonian."""

    def __init__(self, mf, sp):
        self.h, self.eri, self.mad, self.s = aoint(mf, sp)

    def veff(self, dm, exxdiv=False):
        """Spin-resolved potential of a spin-resolved density."""
        j = np.einsum("pqrs,rs->pq", self.eri, dm[0] + dm[1], optimize=True)
        out = []
        for d in dm:
            k = np.einsum("prsq,rs->pq", self.eri, d, optimize=True)
            if exxdiv:
                k = k + self.mad * self.s @ d @ self.s
            out.append(j - k)
        return out

    def tr(self, a, b, c, d):
        return ref.mo_eri(self.eri, a, b, c, d)


def cat(x):
    return np.concatenate([np.ravel(y) for y in x])


def spins(x, uhf):
    return tuple(x) if uhf else (x, x)


def build(case, mon=None):
    """Embedding with one fragment and its cluster."""
    import vayesta.ewf
    from lib import systems as S

    rng = random.Random(case["rs"])
    sp = case.get("sys")
    mf = S.get_mf(sp) if sp else lattice_mf(case)
    if S.gap(mf) < 0.03 or not mf.converged:
        raise Skip("gap")
    bt = rng.choice(["dmet", "mp2", "mp2", "full"])
    if case["kind"] == "latt":
        bt = rng.choice(["dmet", "full"])
    bath = dict(bathtype=bt)
    if bt == "mp2":
        if rng.random() < 0.5:
            bath["threshold"] = 10 ** rng.uniform(-6, -2)
        else:
            bath.update(truncation="number", threshold=rng.randint(0, 3))
    store = rng.random() < 0.5
    kw = dict(store_eris=store) if case["kind"] != "x" else {}
    emb = vayesta.ewf.EWF(mf, solver=case.get("solver", "MP2"), bath_options=bath, solver_options=case.get("sopts", {}), **kw)
    ft = rng.choice(["iao", "sao"]) if sp else "site"
    nat = emb.mol.natm
    k = rng.randint(1, max(1, nat - 1))
    at = sorted(rng.sample(range(nat), k)) if sp else sorted(rng.sample(range(nat), rng.randint(1, 3)))
    with dict(iao=emb.iao_fragmentation, sao=emb.sao_fragmentation, site=emb.site_fragmentation)[ft](**(dict(add_symmetric=False) if case["kind"] == "pbc" else {})) as f:
        fx = f.add_atomic_fragment(at)
    fx.make_bath()
    fx.make_cluster()
    return emb, fx, emb.mf, sp, bt, store, rng


def sym(rs, n):
    a = rs.standard_normal((n, n)) * 0.2
    return a + a.T


def check_ham(mon, ham, cl, dn, uhf, emb, rs, tag, veff=None, dmmf=None, exx=True):
    """Monitor one cluster Hamiltonian (cl: its cluster) against the dense AO Hamiltonian; returns dense (h, eri, focks)."""
    ca, co, cv = (spins(x, uhf) for x in (cl.c_active, cl.c_active_occ, cl.c_active_vir))
    nocc = [x.shape[1] for x in co]
    n = [x.shape[1] for x in ca]
    one = (lambda x: x) if uhf else (lambda x: x[0])
    dact = [x @ x.T for x in co]
    dmf = dmmf
    froz = [a - b for a, b in zip(dmf, dact)]
    vf = dn.veff(froz)
    h = tuple(c.T @ (dn.h + v) @ c for c, v in zip(ca, vf))
    fk = {x: tuple(c.T @ (dn.h + v) @ c for c, v in zip(ca, dn.veff(dmf, exxdiv=x))) for x in (False, True)}
    g = (dn.tr(ca[0], ca[0], ca[0], ca[0]), dn.tr(ca[0], ca[0], ca[1], ca[1]), dn.tr(ca[1], ca[1], ca[1], ca[1]))
    tol = 2e-6 if exx else 1e-7
    mon.eq("ncas", tuple(int(x) for x in ham.ncas), tuple(n), tag)
    mon.eq("nelec", tuple(int(x) for x in ham.nelec), tuple(nocc), tag)
    mon.close("orbitals", cat(spins(ham.mo.coeff, uhf)), cat(ca), 1e-12, tag)

    # blocks without any cached array first
    sl = [dict(o=slice(nocc[s]), v=slice(nocc[s], n[s])) for s in range(2)]

    def want(block):
        sp = [int(x.isupper()) for x in block]
        idx = tuple(sl[s][x.lower()] for s, x in zip(sp, block))
        if sp[0] <= sp[2]:
            return g[sum(sp) // 2][idx]
        return g[1].transpose(2, 3, 0, 1)[idx]

    labels = ["".join(x) for x in itertools.product("ov", repeat=4)]
    if uhf:
        labels = [x[:2] + y for z in labels for x, y in ((z, z[2:]), (z, z[2:].upper()))] + [z.upper() for z in labels] + [z[:2].upper() + z[2:] for z in labels]
    for when in ("before", "after"):
        for b in labels if when == "after" else random.Random(int(rs.integers(1 << 30))).sample(labels, 6):
            mon.event("block")
            for f in (ham.get_eris_bare, ham.get_eris_screened):
                mon.close("integral block", f(block=b), want(b), tol, "%s %s %s the full array" % (tag, b, when))
        full = ham.get_eris_bare()
        for x, y in zip(full if uhf else [full], g):
            mon.close("two-electron integrals", x, y, tol, tag)
    full = ham.get_eris_screened()
    for x, y in zip(full if uhf else [full], g):
        mon.close("two-electron integrals", x, y, tol, tag)
    for obj in (ham.get_dummy_eri_object(force_bare=False), ham.get_dummy_eri_object(force_bare=True)):
        for b in random.Random(int(rs.integers(1 << 30))).sample(labels, 3):
            mon.close("just-in-time block", getattr(obj, b), want(b), tol, tag + b)
        mon.close("just-in-time fock", cat(spins(obj.fock, uhf)), cat(fk[False]), tol, tag)
        mon.raises("invalid label", lambda: obj.ovo, AttributeError)
        mon.eq("nocc", np.ravel(obj.nocc).tolist(), nocc if uhf else nocc[:1], tag)

    for x in (False, True):
        mon.close("fock", cat(spins(ham.get_fock(with_exxdiv=x), uhf)), cat(fk[x]), tol, tag)
    mon.close("heff", cat(spins(ham.get_heff(), uhf)), cat(h), tol, tag)
    hh, ee = ham.get_integrals()
    mon.close("integrals heff", cat(spins(hh, uhf)), cat(h), tol, tag)
    return h, g, fk, nocc, n, tol


def check_df(mon, ham, g, nocc, n, uhf, tag, tol):
    """Three-centre integrals reproduce the four-centre ones."""
    for ov in (False, True):
        for comp in (False, True):
            c, cneg = ham.get_cderi_bare(only_ov=ov, compress=comp)
            c, cneg = spins(c, uhf), spins(cneg, uhf)
            for k, (i, j) in enumerate(((0, 0), (0, 1), (1, 1))):
                w = g[k]
                if ov:
                    w = w[:nocc[i], nocc[i]:, :nocc[j], nocc[j]:]
                if c[i].shape[0] != c[j].shape[0]:
                    mon.violate("three-centre integrals of both spins share the auxiliary index", "%s %s %s" % (tag, c[i].shape, c[j].shape))
                    continue
                got = np.einsum("Lpq,Lrs->pqrs", c[i], c[j])
                if cneg[i] is not None:
                    got = got - np.einsum("Lpq,Lrs->pqrs", cneg[i], cneg[j])
                    mon.event("negative")
                mon.close("three-centre integrals", got, w, tol, "%s only_ov=%s compress=%s spin %d%d" % (tag, ov, comp, i, j))
                mon.event("cderi")


def check_mf(mon, ham, h, g, fk, nocc, n, uhf, tag, tol, df, v, rs):
    """Mean-field objects of the cluster (with the external potential v applied once, everywhere)."""
    from lib.ci import energies

    vs = spins(v, uhf) if v is not None else (0, 0)
    fv = [a + b for a, b in zip(fk[False], vs)]
    hv = [a + b for a, b in zip(h, vs)]
    mon.close("fock with v_ext", cat(spins(ham.get_fock(with_vext=True), uhf)), cat(fv), tol, tag)
    mon.close("fock without v_ext", cat(spins(ham.get_fock(with_vext=False), uhf)), cat(fk[False]), tol, tag)
    mon.close("heff with v_ext", cat(spins(ham.get_heff(with_vext=True), uhf)), cat(hv), tol, tag)
    mon.close("heff without v_ext", cat(spins(ham.get_heff(with_vext=False), uhf)), cat(h), tol, tag)
    hh, ee = ham.get_integrals(with_vext=True)
    mon.close("integrals heff with v_ext", cat(spins(hh, uhf)), cat(hv), tol, tag)
    for x in (False, True):
        nao, c, e, o, s = ham.get_clus_mf_info(with_exxdiv=x)
        mon.close("orbital energies", cat(spins(e, uhf)), cat([np.diag(a) + np.diag(np.atleast_2d(b) if np.ndim(b) else np.zeros((len(a),) * 2)) for a, b in zip(fk[x], vs)]), tol, tag)
        for a, m, k in zip(spins(o, uhf), nocc, n):
            mon.close("occupations", a, [(1 if uhf else 2) * (i < m) for i in range(k)], 1e-12, tag)
    eref, _ = energies(hv, g, nocc)
    variants = [dict(), dict(force_bare_eris=True), dict(allow_dummy_orbs=True), dict(overwrite_fock=True)]
    if df:
        variants.append(dict(allow_df=True))
    for kw in variants:
        if n[0] != n[1] and kw.get("allow_dummy_orbs") is False:
            continue
        try:
            mf, frozen = ham.to_pyscf_mf(**kw)
        except NotImplementedError:
            if n[0] != n[1] and not kw.get("allow_dummy_orbs", uhf):
                continue
            raise
        m = max(n)
        mon.event("mf")
        t = tag + str(kw)
        mon.eq("frozen orbitals", [list(range(k, m)) for k in n] if n[0] != n[1] else None, frozen, t)
        f, hc = np.asarray(mf.get_fock()), np.asarray(mf.get_hcore())
        fs, hs = spins(f, uhf), spins(hc, uhf)
        es = spins(mf.mo_energy, uhf)
        for s in range(2):
            k = n[s]
            mon.close("mf hcore", hs[s][:k, :k], hv[s], tol, t)
            mon.close("mf fock", fs[s][:k, :k], fv[s], 5 * tol, t)
            mon.close("mf energies", es[s][:k], np.diag(fv[s]), tol, t)
            if k < m:
                mon.event("unequal")
                mon.zero("dummy orbitals decoupled", max(abs(fs[s][:k, k:]).max(), abs(hs[s][:k, k:]).max()), 1e-12, t)
                mon.true("dummy orbitals above all others", es[s][k:].min() > max(x[:y].max() for x, y in zip(es, n)) + 1, t)
        co = spins(mf.mo_coeff, uhf)
        oc = spins(mf.mo_occ, uhf)
        mon.true("mf orbitals", all(np.allclose(x, np.eye(m)) for x in co), t)
        mon.eq("mf electrons", [float(np.sum(x)) * (1 if uhf else 0.5) for x in oc], [float(x) for x in nocc], t)
        mon.eq("mf nelec", tuple(int(x) for x in mf.mol.nelec), tuple(nocc), t)
        mon.close("mf overlap", np.asarray(mf.get_ovlp()), np.eye(m) if not uhf else np.array([np.eye(m)] * 2), 1e-12, t)
        dm = mf.make_rdm1()
        mon.close("mf energy", mf.energy_elec(dm=dm)[0], eref, 20 * tol, t)
        if uhf:
            for s, (i, j) in enumerate(((0, 0), (0, 1), (1, 1))):
                gg = mf._eri[s]
                mon.eq("mf integral shape", gg.shape, (m,) * 4, t)
                mon.close("mf integrals", gg[:n[i], :n[i], :n[j], :n[j]], g[s], tol, t)
                z = gg.copy()
                z[:n[i], :n[i], :n[j], :n[j]] = 0
                mon.zero("dummy orbitals do not interact", abs(z).max(), 1e-12, t)
        else:
            d = sym(rs, m)
            j = np.einsum("pqrs,rs->pq", g[0], d) - 0.5 * np.einsum("prsq,rs->pq", g[0], d)
            if not kw.get("overwrite_fock"):
                mon.close("mf potential", mf.get_veff(dm=d), j, 20 * tol, t)


def run(case, mon):
    emb, fx, mf, sp, bt, store, rng = build(case)
    uhf = np.ndim(mf.mo_occ[0]) > 0
    rs = np.random.default_rng(case["rs"])
    cl = fx.cluster
    dn = Dense(mf, sp)
    dmmf = spins(mf.make_rdm1(), uhf)
    if not uhf:
        dmmf = tuple(x / 2 for x in dmmf)
    n = [x.shape[1] for x in spins(cl.c_active, uhf)]
    no = [x.shape[1] for x in spins(cl.c_active_occ, uhf)]
    if max(n) > 14 or min(no) == 0 or min(np.array(n) - no) == 0:
        raise Skip("size")
    pbc = case["kind"] == "pbc"
    mon.event("cluster")
    if uhf:
        mon.event("uhf")
    if pbc:
        mon.event("pbc")
    tag = "%s %s %s store=%s " % (case["kind"], sp["name"] if sp else "hubbard", bt, store)
    mon.seen(case["kind"], sp["name"] if sp else "hubbard", uhf, bt, store, n[0] != n[1])
    df = bool(emb.has_df)
    veff = None
    for sub in (False, True):
        if sub:
            from vayesta.core.types import Cluster, Orbitals

            # a smaller active space in rotated cluster orbitals
            co, cv = [], []
            ko = [rng.randint(1, x) for x in no]
            kv = [rng.randint(1, x - y) for x, y in zip(n, no)]
            if not uhf:
                ko, kv = ko[:1] * 2, kv[:1] * 2
            elif rng.random() < 0.3:
                ko[1], kv[1] = min(ko[0], no[1]), min(kv[0], n[1] - no[1])
            q = [np.linalg.qr(rs.standard_normal((m, m)))[0] for m in no] + [np.linalg.qr(rs.standard_normal((a - b, a - b)))[0] for a, b in zip(n, no)]
            for s in range(2):
                co.append(spins(cl.c_active_occ, uhf)[s] @ q[s][:, :ko[s]])
                cv.append(spins(cl.c_active_vir, uhf)[s] @ q[2 + s][:, :kv[s]])
            c = [np.hstack(x) for x in zip(co, cv)]
            new = Cluster(Orbitals(tuple(c) if uhf else c[0], occ=tuple(ko) if uhf else ko[0]), None)
            ham = fx.hamil.with_new_cluster(new)
            mon.event("subcluster")
            use = new
        else:
            ham, use = fx.get_frag_hamil(), cl
        h, g, fk, nocc, nn, tol = check_ham(mon, ham, use, dn, uhf, emb, rs, tag + "sub=%s " % sub, dmmf=dmmf, exx=pbc)
        if df:
            check_df(mon, ham, g, nocc, nn, uhf, tag, tol * 5)
        for v in (None, True):
            if v:
                mon.event("vext")
                v = tuple(sym(rs, k) for k in nn) if uhf else sym(rs, nn[0])
            ham.v_ext = v
            check_mf(mon, ham, h, g, fk, nocc, nn, uhf, tag + ("v " if v is not None else ""), tol, df, v, rs)
        ham.v_ext = None
        mon.close("heff after removing v_ext", cat(spins(ham.get_heff(), uhf)), cat(h), tol, tag)
