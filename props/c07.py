"""C07: AO->MO transformations give the same integrals whatever the route (k-points, blocks, drivers, containers)."""
import itertools

import numpy as np

from lib.mon import Skip

RULE = ("one transformation of integrals (k-point three-centre, post-SCF container, dense block, exotic-space) compared with a dense "
        "reference evaluated by summing PySCF's k-point four-centre integrals or the AO integrals; distinct = (kind, spin, dimension, mesh, method)")
NEED = {"kind:kao": 6, "kind:post": 4, "kind:mol": 6, "kind:model": 10, "elements": 1000}
BUDGET = {"quick": 110, "thorough": 1200}
CASE_TIMEOUT = 300
ASSUMPTIONS = ["the four-centre k-point integrals of PySCF's density-fitting object (gdf.get_eri) are the meaning of the fitted interaction"]

TOL = 2e-8


def cases(rng, tier):
    from lib import systems as S

    full = tier == "thorough"
    out = []
    meshes = [(2, 1, 1), (3, 1, 1), (2, 2, 1), (1, 3, 1), (4, 1, 1), (3, 2, 1), (1, 2, 2), (1, 1, 5)]
    for i in range(60 if full else 11):
        dim = 2 if i % 4 == 3 else 3
        mesh = meshes[i % len(meshes)] if dim == 3 else rng.choice([(2, 1, 1), (3, 1, 1), (2, 2, 1), (1, 3, 1)])
        kind = rng.choice(["h2", "he", "heh2", "h2"])
        basis = "6-31g" if kind == "he" else "sto-3g"
        c = S.cell(rng, kind, mesh, basis, dim=dim, skew=dim == 3 and rng.random() < 0.6, amp=0.05)
        out.append(dict(kind="kao", w=9 if i < 2 else 4, rs=rng.randrange(1 << 30), cell=c,
                        nmo=[rng.randint(1, 4) for _ in range(4)], blk=rng.choice([1, 2, 3, 5, 7])))
    for i in range(30 if full else 6):
        dim = 2 if i % 3 == 2 else 3
        mesh = rng.choice([(2, 1, 1), (3, 1, 1), (1, 2, 1)])
        uhf = i % 2 == 1
        c = S.cell(rng, rng.choice(["h2", "heh2"]), mesh, "sto-3g", uhf=uhf, dim=dim, skew=dim == 3, amp=0.05)
        out.append(dict(kind="post", w=8, rs=rng.randrange(1 << 30), cell=c, uhf=uhf, frozen=rng.randint(0, 2)))
    names = ["h2o", "lih", "h4", "heh2", "oh", "nh", "h5", "bh", "ch2"]
    for i in range(40 if full else 12):
        nm = names[i % len(names)]
        sp = S.mol(rng, nm, rng.choice(["sto-3g", "6-31g"]) if nm not in ("h2o", "bh", "ch2") else "sto-3g", df=rng.choice([None, True]),
                   uhf=None if rng.random() < 0.6 else True)
        out.append(dict(kind="mol", w=3, rs=rng.randrange(1 << 30), mol=sp, frozen=rng.randint(0, 1)))
    for i in range(200 if full else 40):
        out.append(dict(kind="model", w=1, rs=rng.randrange(1 << 30), uhf=i % 2 == 1,
                        no=[rng.randint(1, 3), rng.randint(1, 3)], nv=[rng.randint(1, 4), rng.randint(1, 4)]))
    return out


def k_eri(gdf, cos):
    """Supercell (ij|kl) for real supercell coefficients, by summation over k-point quadruples."""
    from pyscf.pbc.lib import kpts_helper

    kpts = gdf.kpts
    nk, nao = len(kpts), gdf.cell.nao
    ph = phase(gdf.cell, kpts)
    ck = [np.einsum("kR,Rai->kai", ph.conj(), c.reshape(nk, nao, -1)) for c in cos]
    kc = conserve(gdf.cell, kpts)
    out = 0
    for a, b, c in itertools.product(range(nk), repeat=3):
        d = kc[a, b, c]
        g = gdf.get_eri([kpts[a], kpts[b], kpts[c], kpts[d]], compact=False).reshape((nao,) * 4)
        out = out + np.einsum("abcd,ai,bj,ck,dl->ijkl", g, ck[0][a].conj(), ck[1][b], ck[2][c].conj(), ck[3][d], optimize=True)
    assert abs(out.imag).max() < 1e-6
    return out.real / nk


def conserve(cell, kpts):
    """index of k1 - k2 + k3 modulo reciprocal lattice (own implementation)."""
    s = np.asarray(cell.get_scaled_kpts(kpts))
    nk = len(s)
    out = np.zeros((nk,) * 3, int)
    for a, b, c in itertools.product(range(nk), repeat=3):
        d = s[a] - s[b] + s[c] - s
        m = np.where(abs(d - np.rint(d)).max(axis=1) < 1e-6)[0]
        assert len(m) == 1
        out[a, b, c] = m[0]
    return out


def mesh_of(cell, kpts):
    s = np.asarray(cell.get_scaled_kpts(kpts)).round(8)
    return [len(np.unique(s[:, d])) for d in range(3)]


def phase(cell, kpts):
    """(k,R) with R running over the supercell with the last lattice direction fastest."""
    m = mesh_of(cell, kpts)
    rel = np.array(list(itertools.product(*[range(x) for x in m])), float)
    r = rel @ cell.lattice_vectors()
    return np.exp(1j * (np.asarray(kpts) @ r.T)) / np.sqrt(len(rel))


def run_kao(case, mon):
    from lib import systems as S
    from pyscf.pbc import df
    from vayesta.core.ao2mo import helper, kao2gmo_cderi

    rs = np.random.default_rng(case["rs"])
    cell = S.build_mol(case["cell"])
    kpts = cell.make_kpts(case["cell"]["kmesh"])
    nk = len(kpts)
    gdf = df.GDF(cell, kpts)
    if case["cell"]["name"] in ("he", "heh2"):
        gdf.auxbasis = df.aug_etb(cell, 2.6)
    gdf.build()
    mon.event("kind:kao")
    mon.seen("kao", case["cell"]["dim"], tuple(case["cell"]["kmesh"]), case["cell"]["name"])
    # momentum conservation tables
    kc3 = conserve(cell, kpts)
    mon.true("kconserv3", np.all(helper.get_kconserv(cell, kpts, nk=3) == kc3))
    g0 = int(np.argmin(abs(kpts).sum(axis=1)))
    mon.true("kconserv2", np.all(helper.get_kconserv(cell, kpts, nk=2) == kc3[:, :, g0]))
    n = nk * cell.nao
    cos = [rs.standard_normal((n, m)) for m in case["nmo"]]
    ref = k_eri(gdf, cos)
    mon.event("elements", ref.size)

    def eri(l, r):
        e = np.einsum("Lij,Lkl->ijkl", l[0].conj(), r[0])
        if l[1] is not None:
            e = e - np.einsum("Lij,Lkl->ijkl", l[1].conj(), r[1])
        return e

    combos = [dict(), dict(driver="python", tril_kij=False), dict(blksize=case["blk"]), dict(blksize=case["blk"], tril_kij=False, driver="python"),
              dict(blksize=case["blk"], make_real=False), dict(make_real=False, driver="python", blksize=4)]
    base = {}
    for kw in combos:
        l = kao2gmo_cderi(gdf, (cos[0], cos[1]), **kw)
        r = kao2gmo_cderi(gdf, (cos[2], cos[3]), **kw)
        mon.event("transforms", 2)
        mon.true("neg present iff low dimension", (l[1] is None) == (case["cell"]["dim"] == 3), str(kw))
        e = eri(l, r)
        mon.close("k->Gamma ERIs", e, ref, TOL * max(1, abs(ref).max()), str(kw))
        if kw.get("make_real", True):
            mon.true("real", np.isrealobj(l[0]))
        key = kw.get("make_real", True)
        if key in base:
            mon.close("three-centre integrals independent of driver/blocks", l[0], base[key][0], 1e-9 * max(1, abs(base[key][0]).max()), str(kw))
        else:
            base[key] = l
    # single coefficient set = same on both sides; exchange = transpose
    a = kao2gmo_cderi(gdf, cos[0])
    mon.close("hermitian", a[0], a[0].transpose(0, 2, 1), 1e-7 * max(1, abs(a[0]).max()))
    b = kao2gmo_cderi(gdf, (cos[1], cos[0]), blksize=case["blk"])
    mon.close("exchange", b[0].transpose(0, 2, 1), base[True][0], 1e-7 * max(1, abs(b[0]).max()))
    # linear in the coefficients / empty sets
    x = kao2gmo_cderi(gdf, (cos[0], np.zeros((n, 0))))
    mon.true("empty set", x[0].shape[1:] == (case["nmo"][0], 0) and (x[1] is None) == (case["cell"]["dim"] == 3))
    if nk > 1:
        # lattice translation of all orbitals leaves the four-index integrals alone
        m = case["cell"]["kmesh"]
        t = [int(rs.integers(0, q)) for q in m]
        idx = np.arange(nk).reshape(m)
        perm = np.roll(idx, t, axis=(0, 1, 2)).ravel()
        tr = lambda c: c.reshape(nk, cell.nao, -1)[perm].reshape(n, -1)
        e = eri(kao2gmo_cderi(gdf, (tr(cos[0]), tr(cos[1]))), kao2gmo_cderi(gdf, (tr(cos[2]), tr(cos[3]))))
        mon.close("translation invariance", e, ref, TOL * max(1, abs(ref).max()))


BLK_R = ["oooo", "ovoo", "oovv", "ovov", "ovvo", "ovvv", "vvvv"]
BLK_AB = ["ooOO", "ovOO", "ooVV", "ovVO", "ovOV", "ovVV", "vvVV"]
BLK_BA = ["OVoo", "OOvv", "OVvo", "OVvv"]


def check_eris_r(mon, eris, g, no, f, tag, tol, mp2=False, dffull=True):
    from vayesta.core.ao2mo import helper

    sl = {"o": slice(0, no), "v": slice(no, None)}
    blocks = ["ovov"] if mp2 else BLK_R
    for b in blocks:
        want = g[tuple(sl[x] for x in b)]
        got = np.asarray(helper.get_block(eris, b) if not mp2 else eris.ovov)
        if got.size == 0 and want.size == 0:
            continue
        mon.event("elements", want.size)
        mon.close("block %s" % b, got.reshape(want.shape), want, tol, tag)
    if not mp2:
        full = helper.get_full_array(eris)
        mon.close("full array", full, g, tol, tag)
    mon.close("eris.fock", eris.fock, f, 1e-8 + tol, tag)


def check_eris_u(mon, eris, gs, no, f, tag, tol, mp2=False):
    from vayesta.core.ao2mo import helper

    gaa, gab, gbb = gs
    sl = {"o": slice(0, no[0]), "v": slice(no[0], None), "O": slice(0, no[1]), "V": slice(no[1], None)}
    todo = [(b, gaa) for b in BLK_R] + [(b.upper(), gbb) for b in BLK_R] + [(b, gab) for b in BLK_AB]
    todo += [(b, gab.transpose(2, 3, 0, 1)) for b in BLK_BA]
    if mp2:
        todo = [("ovov", gaa), ("OVOV", gbb), ("ovOV", gab)]
    for b, g in todo:
        want = g[tuple(sl[x] for x in b)]
        got = np.asarray(getattr(eris, b) if mp2 else helper.get_block(eris, b))
        if want.size == 0:
            continue
        mon.event("elements", want.size)
        mon.close("block %s" % b, got.reshape(want.shape), want, tol, tag)
    if not mp2:
        full = helper.get_full_array(eris)
        for s, (x, y) in enumerate(zip(full, gs)):
            mon.close("full array", x, y, tol, "%s spin block %d" % (tag, s))
    for s in range(2):
        mon.close("eris.fock", eris.fock[s], f[s], 1e-8 + tol, tag)


def methods(uhf, folded, df):
    import pyscf.cc
    import pyscf.ci
    import pyscf.mp
    from pyscf.cc import ccsd, dfccsd, rccsd, uccsd
    from pyscf.ci import cisd, ucisd
    from pyscf.mp import mp2, ump2

    if uhf:
        return [("UMP2", ump2.UMP2), ("UCCSD", uccsd.UCCSD), ("UCISD", ucisd.UCISD)]
    out = [("MP2", mp2.MP2), ("CCSD", ccsd.CCSD), ("RCCSD", rccsd.RCCSD), ("CISD", cisd.CISD)]
    if df:
        out.append(("DFCCSD", dfccsd.RCCSD))
    return out


def run_post(case, mon):
    """Periodic systems through the embedding's own integral interface."""
    from lib import systems as S
    import vayesta.ewf

    rs = np.random.default_rng(case["rs"])
    kmf = S.get_mf(case["cell"])
    if S.gap(kmf) < 0.02:
        raise Skip("gap")
    uhf = case["uhf"]
    emb = vayesta.ewf.EWF(kmf)
    mf = emb.mf
    gdf = kmf.with_df
    mon.event("kind:post")
    mon.seen("post", uhf, case["cell"]["dim"], tuple(case["cell"]["kmesh"]))
    # random occ-occ / vir-vir rotated orbitals
    def rot(c, no):
        q = lambda k: np.linalg.qr(rs.standard_normal((k, k)))[0]
        return np.hstack([c[:, :no] @ q(no), c[:, no:] @ q(c.shape[1] - no)])

    fz = case["frozen"]
    if uhf:
        nos = [int((o > 0.5).sum()) for o in mf.mo_occ]
        mo = tuple(rot(c, n) for c, n in zip(mf.mo_coeff, nos))
        fr = [list(range(min(fz, nos[0] - 1))), list(range(min(fz, nos[1] - 1)))]
        act = [m[:, len(f):] for m, f in zip(mo, fr)]
        gs = tuple(k_eri(gdf, x) for x in ([act[0]] * 4, [act[0]] * 2 + [act[1]] * 2, [act[1]] * 4))
        no = [n - len(f) for n, f in zip(nos, fr)]
        sc = max(1, abs(gs[0]).max())
        for nm, cls in methods(True, True, True):
            ps = cls(mf, mo_coeff=mo, frozen=fr if fz else None)
            eris = emb.get_eris_object(ps)
            f = emb.get_fock(with_exxdiv=nm == "UMP2")
            fr_ = [a.T @ x @ a for a, x in zip(act, f)]
            check_eris_u(mon, eris, gs, no, fr_, nm, TOL * sc, mp2=nm == "UMP2")
            fe = emb.get_fock()
            mon.close("eris.mo_energy", eris.mo_energy, [np.diag(a.T @ x @ a) for a, x in zip(act, fe)], 1e-8)
        arr = emb.get_eris_array_uhf(act)
        for x, y in zip(arr, gs):
            mon.close("get_eris_array_uhf", x, y, TOL * sc)
        sub = [(a[:, :2], b[:, 1:]) for a, b in zip(act, act)]
        arr = emb.get_eris_array_uhf([s[0] for s in sub], [s[1] for s in sub])
        idx = np.s_[:2, 1:, :2, 1:]
        for x, y in zip(arr, gs):
            mon.close("get_eris_array_uhf(mo_coeff2)", x, y[idx], TOL * sc)
    else:
        nocc = int((mf.mo_occ > 0.5).sum())
        mo = rot(mf.mo_coeff, nocc)
        fr = list(range(min(fz, nocc - 1)))
        act = mo[:, len(fr):]
        g = k_eri(gdf, [act] * 4)
        sc = max(1, abs(g).max())
        for nm, cls in methods(False, True, case["cell"]["dim"] == 3):
            ps = cls(mf, mo_coeff=mo, frozen=fr if fr else None)
            if nm == "DFCCSD":
                from vayesta.core.ao2mo.postscf_ao2mo import postscf_kao2gmo

                eris = postscf_kao2gmo(ps, gdf, emb.get_fock(with_exxdiv=False), np.diag(act.T @ emb.get_fock() @ act))
            else:
                eris = emb.get_eris_object(ps)
            f = emb.get_fock(with_exxdiv=nm == "MP2")
            check_eris_r(mon, eris, g, nocc - len(fr), act.T @ f @ act, nm, TOL * sc, mp2=nm == "MP2")
            mon.close("eris.mo_energy", eris.mo_energy, np.diag(act.T @ emb.get_fock() @ act), 1e-8)
        mon.close("get_eris_array", emb.get_eris_array(act), g, TOL * sc)
        a, b, c, d = act[:, :2], act[:, 1:], act[:, -2:], act
        mon.close("get_eris_array mixed", emb.get_eris_array([a, b, c, d]), g[:2, 1:, -2:, :], TOL * sc)
        mon.close("get_eris_array shared", emb.get_eris_array([a, b, a, d]), g[:2, 1:, :2, :], TOL * sc)


def run_mol(case, mon):
    from lib import ref, systems as S
    from pyscf import ao2mo
    import vayesta.ewf
    from vayesta.core.ao2mo import helper

    rs = np.random.default_rng(case["rs"])
    mf = S.get_mf(case["mol"])
    uhf = case["mol"]["uhf"]
    emb = vayesta.ewf.EWF(mf)
    eri = ref.ao_eri(mf)
    mon.event("kind:mol")
    mon.seen("mol", case["mol"]["name"], uhf, bool(case["mol"]["df"]))
    fock = np.asarray(mf.get_fock())
    pert = rs.standard_normal(fock.shape[-2:])
    pert = 0.01 * (pert + pert.T)
    fock2 = fock + pert

    def rot(c, no):
        q = lambda k: np.linalg.qr(rs.standard_normal((k, k)))[0]
        return np.hstack([c[:, :no] @ q(no), c[:, no:] @ q(c.shape[1] - no)])

    fz = case["frozen"]
    if uhf:
        nos = [int((o > 0.5).sum()) for o in mf.mo_occ]
        mo = np.array([rot(c, n) for c, n in zip(mf.mo_coeff, nos)])
        if min(nos) < 1 + fz or min(mo.shape[-1] - n for n in nos) < 1:
            fz = 0
        if min(nos) < 1:
            raise Skip("empty channel")
        act = [m[:, fz:] for m in mo]
        no = [n - fz for n in nos]
        gs = tuple(ref.mo_eri(eri, *x) for x in ([act[0]] * 4, [act[0]] * 2 + [act[1]] * 2, [act[1]] * 4))
        for nm, cls in methods(True, False, bool(case["mol"]["df"])):
            if nm == "UMP2" and case["mol"]["df"]:
                continue
            for fk in (None, fock2):
                ps = cls(mf, mo_coeff=mo, frozen=[list(range(fz))] * 2 if fz else None)
                eris = emb.get_eris_object(ps, fock=fk)
                ff = fock if fk is None else fk
                check_mp2 = nm == "UMP2"
                check_eris_u(mon, eris, gs, no, [a.T @ x @ a for a, x in zip(act, ff)], nm, TOL, mp2=check_mp2)
                mon.close("eris.mo_energy", eris.mo_energy, [np.diag(a.T @ x @ a) for a, x in zip(act, fock)], 1e-8)
                mon.close("mean field restored", np.asarray(mf.get_fock()), fock, 1e-8, nm)
        arr = emb.get_eris_array_uhf(act)
        for x, y in zip(arr, gs):
            mon.close("get_eris_array_uhf", x, y, TOL)
        ca = act[0]
    else:
        nocc = int((mf.mo_occ > 0.5).sum())
        mo = rot(mf.mo_coeff, nocc)
        if nocc < 2:
            fz = 0
        act = mo[:, fz:]
        g = ref.mo_eri(eri, act, act, act, act)
        for nm, cls in methods(False, False, bool(case["mol"]["df"])):
            if nm in ("MP2", "RCCSD") and case["mol"]["df"]:
                continue
            for fk in (None, fock2):
                ps = cls(mf, mo_coeff=mo, frozen=fz if fz else None)
                if nm == "DFCCSD":
                    ps.with_df = mf.with_df
                eris = emb.get_eris_object(ps, fock=fk)
                ff = fock if fk is None else fk
                check_eris_r(mon, eris, g, nocc - fz, act.T @ ff @ act, nm, TOL, mp2=nm == "MP2")
                mon.close("eris.mo_energy", eris.mo_energy, np.diag(act.T @ fock @ act), 1e-8)
                mon.close("mean field restored", np.asarray(mf.get_fock()), fock, 1e-8, nm)
        # projection onto a sub-space of orbitals
        from pyscf.cc import ccsd

        ps = ccsd.CCSD(mf, mo_coeff=mo, frozen=fz if fz else None)
        eris = ps.ao2mo()
        no2 = max(1, nocc - fz - 1)
        nv2 = max(1, act.shape[1] - (nocc - fz) - 1)
        q = lambda k, m: np.linalg.qr(rs.standard_normal((k, k)))[0][:, :m]
        no = nocc - fz
        sub = np.hstack([act[:, :no] @ q(no, no2), act[:, no:] @ q(act.shape[1] - no, nv2)])
        pe = helper.project_ccsd_eris(eris, sub, no2, mf.get_ovlp())
        mon.close("projected ERIs", helper.get_full_array(pe), ref.mo_eri(eri, sub, sub, sub, sub), TOL)
        mon.close("projected Fock", pe.fock, sub.T @ fock @ sub, 1e-7)
        mon.close("get_eris_array", emb.get_eris_array(act), g, TOL)
        a, b, c, d = act[:, :2], act[:, 1:], act[:, -2:], act
        mon.close("get_eris_array mixed", emb.get_eris_array([a, b, c, d]), g[:2, 1:, -2:, :], TOL)
        ca = act
    if case["mol"]["df"]:
        l = ref.cderi_ao(mf)
        x, y = ca[:, :2], ca[:, 1:]
        for kw in (dict(), dict(blksize=3)):
            cd, neg = emb.get_cderi((x, y), **kw)
            mon.true("no negative part", neg is None)
            mon.close("get_cderi", cd, np.einsum("Lab,ai,bj->Lij", l, x, y, optimize=True), 1e-9)
        ex = rs.standard_normal((3, mf.mol.nao, mf.mol.nao))
        cd, neg = emb.get_cderi_exspace(ex)
        mon.close("get_cderi_exspace", cd, np.einsum("Lab,nab->Ln", l, ex), 1e-9)


def sym8(rs, n):
    l = rs.standard_normal((n + 1, n, n))
    l = l + l.transpose(0, 2, 1)
    return np.einsum("Lij,Lkl->ijkl", l, l), l


def run_model(case, mon):
    from vayesta.core.ao2mo import helper
    from vayesta.core.ao2mo.pyscf_eris import make_ccsd_eris, make_uccsd_eris

    rs = np.random.default_rng(case["rs"])
    mon.event("kind:model")
    no, nv = case["no"], case["nv"]
    mon.seen("model", case["uhf"], tuple(no), tuple(nv))
    if not case["uhf"]:
        o, n = no[0], no[0] + nv[0]
        g, _ = sym8(rs, n)
        f = rs.standard_normal((n, n))
        f = f + f.T
        eris = make_ccsd_eris(f, g, o)
        check_eris_r(mon, eris, g, o, f, "make_ccsd_eris", 1e-11 * abs(g).max())
        mon.close("default mo_energy", eris.mo_energy, np.diag(f), 1e-14)
        d = rs.standard_normal((n,) * 4)
        # symmetries the 2-DM of a real wave function has
        d = d + d.transpose(2, 3, 0, 1)
        d = d + d.transpose(1, 0, 3, 2)
        mon.close("contract 2-DM", helper.contract_dm2_eris(d, eris), np.einsum("pqrs,pqrs", d, g), 1e-9 * abs(g).max() * n ** 4)
        # PySCF intermediates
        import pyscf.lib
        cc = fake_cc(o, n)
        t1, t2 = rs.standard_normal((o, n - o)) * 0.2, rs.standard_normal((o, o, n - o, n - o)) * 0.2
        l1, l2 = rs.standard_normal((o, n - o)) * 0.2, rs.standard_normal((o, o, n - o, n - o)) * 0.2
        t2, l2 = t2 + t2.transpose(1, 0, 3, 2), l2 + l2.transpose(1, 0, 3, 2)
        from pyscf.cc import ccsd_rdm as cr

        h5 = pyscf.lib.H5TmpFile()
        d2 = cr._gamma2_outcore(cc, t1, t2, l1, l2, h5, compress_vvvv=False)
        d2 = [np.array(x) for x in d2]
        full = cr._make_rdm2(cc, None, d2, with_dm1=False, with_frozen=False)
        want = np.einsum("pqrs,pqrs", full, g)
        got = helper.contract_dm2intermeds_eris_rhf(tuple(d2), eris, destroy_dm2=bool(rs.integers(2)))
        mon.close("contract 2-DM intermediates", got, want, 1e-9 * max(1, abs(g).max()) * n ** 4)
    else:
        na, nb = no[0] + nv[0], no[1] + nv[1]
        k = 5
        la, lb = rs.standard_normal((k, na, na)), rs.standard_normal((k, nb, nb))
        la, lb = la + la.transpose(0, 2, 1), lb + lb.transpose(0, 2, 1)
        gs = tuple(np.einsum("Lij,Lkl->ijkl", x, y) for x, y in ((la, la), (la, lb), (lb, lb)))
        f = [rs.standard_normal((m, m)) for m in (na, nb)]
        f = [x + x.T for x in f]
        eris = make_uccsd_eris(f, gs, no)
        sc = max(abs(x).max() for x in gs)
        check_eris_u(mon, eris, gs, no, f, "make_uccsd_eris", 1e-11 * sc)
        mon.close("default mo_energy", eris.mo_energy, [np.diag(x) for x in f], 1e-14)

        def sy(d, same):
            if same:
                d = d + d.transpose(2, 3, 0, 1)
            return d + d.transpose(1, 0, 3, 2)

        d = (sy(rs.standard_normal((na,) * 4), True), sy(rs.standard_normal((na, na, nb, nb)), False), sy(rs.standard_normal((nb,) * 4), True))
        want = np.einsum("pqrs,pqrs", d[0], gs[0]) + 2 * np.einsum("pqrs,pqrs", d[1], gs[1]) + np.einsum("pqrs,pqrs", d[2], gs[2])
        mon.close("contract 2-DM", helper.contract_dm2_eris(d, eris), want, 1e-9 * sc * max(na, nb) ** 4)
        from pyscf.cc import uccsd_rdm as ur
        cc = fake_ucc(no, (na, nb))
        rt1 = lambda: tuple(rs.standard_normal((a, b)) * 0.2 for a, b in zip(no, nv))

        def rt2():
            def anti(t):
                t = t - t.transpose(1, 0, 2, 3)
                return t - t.transpose(0, 1, 3, 2)
            return (anti(rs.standard_normal((no[0], no[0], nv[0], nv[0])) * 0.1), rs.standard_normal((no[0], no[1], nv[0], nv[1])) * 0.2,
                    anti(rs.standard_normal((no[1], no[1], nv[1], nv[1])) * 0.1))

        d2 = ur._gamma2_intermediates(cc, rt1(), rt2(), rt1(), rt2())
        full = ur._make_rdm2(cc, None, d2, with_dm1=False, with_frozen=False)
        want = sum(w * np.einsum("pqrs,pqrs", a, b) for w, a, b in zip((1, 2, 1), full, gs))
        got = helper.contract_dm2intermeds_eris_uhf(d2, eris, destroy_dm2=bool(rs.integers(2)))
        mon.close("contract 2-DM intermediates", got, want, 1e-9 * max(1, sc) * max(na, nb) ** 4)


def fake_cc(no, n):
    from types import SimpleNamespace as NS
    return NS(nmo=n, nocc=no, mo_coeff=np.eye(n), mo_occ=np.array([2.0] * no + [0.0] * (n - no)), frozen=None, stdout=None, verbose=0,
              max_memory=4000)


def fake_ucc(no, n):
    from types import SimpleNamespace as NS
    return NS(nmo=n, nocc=tuple(no), mo_coeff=[np.eye(k) for k in n],
              mo_occ=[np.array([1.0] * o + [0.0] * (k - o)) for o, k in zip(no, n)], frozen=None, stdout=None, verbose=0, max_memory=4000)


def run(case, mon):
    {"kao": run_kao, "post": run_post, "mol": run_mol, "model": run_model}[case["kind"]](case, mon)
