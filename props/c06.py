"""C06: folding a k-point mean field into its supercell."""
import copy
import itertools

import numpy as np

from lib.mon import Skip
from props.c07 import k_eri, mesh_of, phase

RULE = ("one k-point sampled mean field (RHF/UHF, 2D/3D, any mesh) folded to the supercell and compared with quantities evaluated directly in the "
        "supercell; distinct = (kind, spin, dimension, mesh, cell)")
NEED = {"kind:fold": 8, "kind:arrays": 20, "kind:mos": 10, "kind:emb": 2}
BUDGET = {"quick": 110, "thorough": 1200}
CASE_TIMEOUT = 300
ASSUMPTIONS = ["gapped (or spin-polarised gapped) mean fields; Gamma-centred meshes"]


def cases(rng, tier):
    from lib import systems as S

    full = tier == "thorough"
    out = []
    meshes = [(2, 1, 1), (3, 1, 1), (2, 2, 1), (1, 3, 1), (4, 1, 1), (1, 1, 5), (3, 2, 1), (1, 2, 2)]
    for i in range(70 if full else 16):
        dim = 2 if i % 4 == 3 else 3
        mesh = meshes[i % len(meshes)] if dim == 3 else rng.choice([(2, 1, 1), (3, 1, 1), (2, 2, 1), (1, 3, 1)])
        uhf = i % 3 == 1
        nm = rng.choice(["h2", "heh2", "he", "h2", "lih"]) if not (uhf and rng.random() < 0.4) else "h3"
        if nm == "lih" and mesh[0] * mesh[1] * mesh[2] > 3:
            nm = "h2"
        c = S.cell(rng, nm, mesh, "6-31g" if nm == "he" else "sto-3g", uhf=uhf, dim=dim, skew=dim == 3 and rng.random() < 0.6, amp=0.05,
                   exxdiv=rng.choice(["ewald", "ewald", None]))
        out.append(dict(kind="fold", w=8, rs=rng.randrange(1 << 30), cell=c))
    for i in range(200 if full else 50):
        c = S.cell(rng, "h2", rng.choice([m for m in itertools.product((1, 2, 3, 4), repeat=3) if m[0] * m[1] * m[2] <= 12]), skew=rng.random() < 0.6)
        out.append(dict(kind="arrays", w=0.3, rs=rng.randrange(1 << 30), cell=c))
    for i in range(200 if full else 60):
        c = S.cell(rng, "h2", rng.choice([m for m in itertools.product((1, 2, 3, 4), repeat=3) if 2 < m[0] * m[1] * m[2] <= 8]), skew=rng.random() < 0.6)
        out.append(dict(kind="mos", w=0.3, rs=rng.randrange(1 << 30), cell=c, degenerate=rng.random() < 0.4, sort=rng.random() < 0.7))
    for i in range(16 if full else 4):
        uhf = i % 2 == 1
        c = S.cell(rng, "h2", rng.choice([(2, 1, 1), (1, 1, 3), (1, 2, 1)]), "sto-3g" if i % 3 else "6-31g", uhf=uhf, skew=True, amp=0.05)
        out.append(dict(kind="emb", w=10, rs=rng.randrange(1 << 30), cell=c))
    return out


def fold_ref(a, ph):
    """Own folding: <R i|A|S j> = sum_k e^{ikR} A_k e^{-ikS} / nk."""
    nk = len(ph)
    out = np.einsum("kR,kij,kS->RiSj", ph, a, ph.conj(), optimize=True)
    n = nk * a.shape[-1]
    return out.reshape(n, n)


def sq(x):
    return np.asarray(x)


def run_fold(case, mon):
    from lib import systems as S
    from pyscf.pbc import tools
    from vayesta.core.foldscf import fold_scf

    kmf = S.get_mf(case["cell"])
    if S.gap(kmf) < 0.03:
        raise Skip("gap")
    cell, kpts = kmf.cell, np.asarray(kmf.kpts)
    nk, nao = len(kpts), cell.nao
    uhf = case["cell"]["uhf"]
    mon.event("kind:fold")
    mon.seen("fold", uhf, case["cell"]["dim"], tuple(case["cell"]["kmesh"]), case["cell"]["name"])
    before = [np.array(x) for x in ([c for c in (kmf.mo_coeff if not uhf else list(kmf.mo_coeff[0]) + list(kmf.mo_coeff[1]))])]
    mf = fold_scf(kmf)
    n = nk * nao
    sc = tools.super_cell(cell, case["cell"]["kmesh"])
    mon.true("supercell", mf.mol.nao == n and np.allclose(mf.mol.atom_coords(), sc.atom_coords()) and np.allclose(mf.mol.lattice_vectors(), sc.lattice_vectors()))
    mon.eq("mesh", list(mf.subcellmesh), list(case["cell"]["kmesh"]))
    mon.eq("ncells", mf.ncells, nk)
    ph = phase(cell, kpts)
    mon.close("phase", mf.kphase, ph, 1e-10)
    s = mf.get_ovlp()
    mon.close("overlap", s, sc.pbc_intor("int1e_ovlp", hermi=1), 1e-6)
    t = fold_ref(np.asarray(cell.pbc_intor("int1e_kin", hermi=1, kpts=kpts)), ph).real
    mon.close("own folding of the kinetic energy", t, sc.pbc_intor("int1e_kin", hermi=1), 1e-6)
    h = mf.get_hcore()
    hk = np.asarray(kmf.get_hcore())
    mon.close("hcore", h, fold_ref(hk, ph).real, 1e-8)
    mon.true("real", all(np.isrealobj(x) for x in (s, h, mf.get_veff())))
    # density, orbitals, energies
    kdm = np.asarray(kmf.make_rdm1())
    mos, es, occs = (mf.mo_coeff, mf.mo_energy, mf.mo_occ) if uhf else ((mf.mo_coeff,), (mf.mo_energy,), (mf.mo_occ,))
    kes, koccs = (kmf.mo_energy, kmf.mo_occ) if uhf else ((kmf.mo_energy,), (kmf.mo_occ,))
    kdms = kdm if uhf else kdm[None]
    dms = []
    f = np.asarray(mf.get_fock())
    fs = f if uhf else f[None]
    for c, e, o, ke, ko, kd, ff in zip(mos, es, occs, kes, koccs, kdms, fs):
        mon.true("real orbitals", np.isrealobj(c))
        mon.close("orthonormal", c.T @ s @ c, np.eye(n), 1e-6)
        mon.close("orbital energies", e, np.sort(np.concatenate([np.ravel(x) for x in ke])), 1e-8)
        mon.close("electron number", o.sum(), sum(np.sum(x) for x in ko), 1e-10)
        d = (c * o) @ c.T
        dms.append(d)
        mon.close("density matrix", d, fold_ref(kd, ph), 1e-6)
        mon.close("canonical", c.T @ ff @ c, np.diag(e), 2e-5)
        mon.true("aufbau", np.all(np.diff(o) <= 1e-12))
    mon.close("energy", mf.e_tot, nk * kmf.e_tot, 1e-9)
    mon.close("make_rdm1", mf.make_rdm1(), np.array(dms) if uhf else dms[0], 1e-9)
    # mean-field potential of the converged and of another density
    rs = np.random.default_rng(case["rs"])
    eri = k_eri(kmf.with_df, [np.eye(n)] * 4)
    mad = tools.madelung(cell, kpts) if kmf.exxdiv == "ewald" else 0.0

    def veff(d):
        d = np.asarray(d)
        if not uhf:
            return np.einsum("pqrs,rs->pq", eri, d) - 0.5 * (np.einsum("prsq,rs->pq", eri, d) + mad * s @ d @ s)
        j = np.einsum("pqrs,rs->pq", eri, d[0] + d[1])
        return np.array([j - np.einsum("prsq,rs->pq", eri, x) - mad * s @ x @ s for x in d])

    # a translation-invariant symmetric perturbation of the density
    pert = rs.standard_normal((nk, nao, nao)) * 0.05 + 0.05j * rs.standard_normal((nk, nao, nao))
    g = fold_ref(pert, ph).real
    g = g + g.T
    d0 = np.asarray(dms) if uhf else dms[0]
    if case["cell"]["dim"] == 3 or True:
        sl = 1e-6
        mon.close("veff", mf.get_veff(), veff(d0), sl)
        d1 = d0 + (np.array([g, -0.3 * g]) if uhf else g)
        mon.close("veff of a given density", mf.get_veff(dm=d1), veff(d1), sl)
        mon.close("fock", f, h + veff(d0), sl)
    # energy components
    if uhf:
        eel = sum(np.einsum("pq,pq", h, d) + 0.5 * np.einsum("pq,pq", v, d) for d, v in zip(d0, veff(d0)))
    else:
        eel = np.einsum("pq,pq", h + 0.5 * veff(d0), d0)
    mon.close("energy from folded quantities", eel + nk * cell.energy_nuc(), mf.e_tot, 1e-5 * nk)
    after = [np.array(x) for x in ([c for c in (kmf.mo_coeff if not uhf else list(kmf.mo_coeff[0]) + list(kmf.mo_coeff[1]))])]
    mon.close("k-point object untouched", after, before, 0.0 + 1e-300)
    # attribute propagation; a copy of the k-point object is modified, never the original
    e0 = kmf.e_tot
    mon.eq("converged", mf.converged, kmf.converged)
    mon.eq("exxdiv", mf.exxdiv, kmf.exxdiv)
    mf.e_tot = 3.0
    mon.close("e_tot setter", [mf.e_tot, kmf.e_tot], [3.0, e0], 1e-12)


def run_arrays(case, mon):
    from lib import systems as S
    from vayesta.core import foldscf
    from vayesta.core.util import ImaginaryPartError

    rs = np.random.default_rng(case["rs"])
    cell = S.build_mol(case["cell"])
    m = case["cell"]["kmesh"]
    kpts = cell.make_kpts(m)
    nk = len(kpts)
    mon.event("kind:arrays")
    mon.seen("arrays", tuple(m))
    ph = phase(cell, kpts)
    mon.eq("kmesh guess", list(foldscf.kpts_to_kmesh(cell, kpts)), list(m))
    for km in (None, m):
        sc, p = foldscf.get_phase(cell, kpts, kmesh=km)
        mon.close("phase", p, ph, 1e-10)
        mon.close("supercell lattice", sc.lattice_vectors(), np.diag(m) @ cell.lattice_vectors(), 1e-10)
    # atoms of the supercell: cell R holds the atoms of the primitive cell displaced by R (the order folding relies on)
    rel = np.array(list(itertools.product(*[range(x) for x in m])), float) @ cell.lattice_vectors()
    want = (rel[:, None] + cell.atom_coords()[None]).reshape(-1, 3)
    mon.close("supercell atoms", sc.atom_coords(), want, 1e-8)
    n = 3
    for lead in ((), (2,)):
        a = rs.standard_normal(lead + (nk, n, n)) + 1j * rs.standard_normal(lead + (nk, n, n))
        g = foldscf.k2bvk_2d(a, ph, make_real=False)
        mon.close("k2bvk", g, fold_ref(a, ph) if not lead else np.array([fold_ref(x, ph) for x in a]), 1e-9)
        mon.close("bvk2k inverse of k2bvk", foldscf.bvk2k_2d(g, ph), a, 1e-9)
        # real translation-invariant matrix
        t = rs.standard_normal(lead + tuple(m) + (n, n))
        real = np.zeros(lead + (nk, n, nk, n))
        cells = list(itertools.product(*[range(x) for x in m]))
        for i, r in enumerate(cells):
            for j, q in enumerate(cells):
                d = tuple((x - y) % z for x, y, z in zip(r, q, m))
                real[..., i, :, j, :] = t[(Ellipsis,) + d + (slice(None), slice(None))] if lead else t[d]
        real = real.reshape(lead + (nk * n, nk * n))
        k = foldscf.bvk2k_2d(real, ph)
        back = foldscf.k2bvk_2d(k, ph)
        mon.true("real", np.isrealobj(back))
        mon.close("real translation-invariant matrix", back, real, 1e-9)
        if nk > 1 and any(x > 2 for x in m) or any(x > 1 for x in m):
            bad = k.copy()
            bad[..., 0, 0, 0] += 1j
            mon.raises("imaginary part detected", lambda: foldscf.k2bvk_2d(bad, ph), ImaginaryPartError)
            mon.close("imaginary part kept on request", foldscf.k2bvk_2d(bad, ph, make_real=False),
                      fold_ref(bad, ph) if not lead else np.array([fold_ref(x, ph) for x in bad]), 1e-9)


def run_mos(case, mon):
    """Time-reversal-symmetric model Hamiltonians, with and without degeneracies, folded to real orbitals."""
    from lib import systems as S
    from vayesta.core import foldscf
    import scipy.linalg

    rs = np.random.default_rng(case["rs"])
    cell = S.build_mol(case["cell"])
    m = case["cell"]["kmesh"]
    kpts = cell.make_kpts(m)
    nk, n = len(kpts), 3
    ph = phase(cell, kpts)
    mon.event("kind:mos")
    mon.seen("mos", tuple(m), case["degenerate"], case["sort"])
    cells = list(itertools.product(*[range(x) for x in m]))

    def tinv(scale, sym=True):
        t = {d: rs.standard_normal((n, n)) * scale for d in cells}
        out = np.zeros((nk, n, nk, n))
        for i, r in enumerate(cells):
            for j, q in enumerate(cells):
                out[i, :, j, :] = t[tuple((x - y) % z for x, y, z in zip(r, q, m))]
        out = out.reshape(nk * n, nk * n)
        return out + out.T

    ovlp = np.eye(nk * n) + tinv(0.2 / (nk * n))
    if np.linalg.eigvalsh(ovlp)[0] < 0.1:
        raise Skip("overlap")
    h = tinv(1.0)
    if case["degenerate"]:
        # bands without dispersion: same spectrum at every k-point
        from scipy.linalg import block_diag
        b = rs.standard_normal((n, n))
        h = block_diag(*([b + b.T] * nk))
        ovlp = np.eye(nk * n)
    def tok(a):
        return np.einsum("kR,RiSj,kS->kij", ph.conj(), a.reshape(nk, n, nk, n), ph, optimize=True)

    hk, sk = tok(h), tok(ovlp)
    e, c = zip(*[scipy.linalg.eigh(a, b) for a, b in zip(hk, sk)])
    # arbitrary phases of the orbitals
    c = [x * np.exp(2j * np.pi * rs.random(n)) if abs(k).sum() > 1e-9 else x for x, k in zip(c, kpts)]
    allE = np.sort(np.concatenate(e))
    nocc = int(rs.integers(1, nk * n))
    thr = (allE[nocc - 1] + allE[nocc]) / 2
    if abs(allE[nocc] - allE[nocc - 1]) < 1e-3:
        raise Skip("gap")
    occ = [np.where(x < thr, 2.0, 0.0) for x in e]
    kw = {} if case["sort"] else dict(sort=False)
    me, mc, mo = foldscf.fold_mos(list(e), c, occ, ph, ovlp, **kw)
    mon.true("real", np.isrealobj(mc))
    mon.close("orthonormal", mc.T @ ovlp @ mc, np.eye(nk * n), 1e-7)
    if case["sort"]:
        mon.close("energies", me, allE, 1e-9)
    else:
        mon.close("energies", me, np.concatenate(e), 1e-9)
        mon.close("occupations", mo, np.concatenate(occ), 0.0 + 1e-300)
    mon.close("eigenvectors", h @ mc, ovlp @ mc * me, 1e-6)
    d = (mc * mo) @ mc.T
    want = fold_ref(np.array([(x * o) @ x.conj().T for x, o in zip(c, occ)]), ph)
    mon.close("density", d, want, 1e-7)
    me2, mc2, mo2 = foldscf.fold_mos(list(e), c, occ, ph, ovlp, make_real=False, **kw)
    mon.close("complex orbitals: density", (mc2 * mo2) @ mc2.conj().T, want, 1e-8)
    mon.close("complex orbitals: eigenvectors", h @ mc2, ovlp @ mc2 * me2, 1e-7)


def run_emb(case, mon):
    """Embedding on the k-point object = embedding on the supercell at Gamma."""
    from lib import systems as S
    from pyscf.pbc import scf, tools
    import vayesta.ewf

    kmf = S.get_mf(case["cell"])
    if S.gap(kmf) < 0.05:
        raise Skip("gap")
    uhf = case["cell"]["uhf"]
    mon.event("kind:emb")
    mon.seen("emb", uhf, tuple(case["cell"]["kmesh"]), case["cell"]["basis"])
    sc = tools.super_cell(kmf.cell, case["cell"]["kmesh"])
    mf = (scf.UHF if uhf else scf.RHF)(sc)
    mf.exxdiv = kmf.exxdiv
    mf = mf.density_fit()
    mf.conv_tol = 1e-11
    # start from the folded density
    from vayesta.core.foldscf import fold_scf
    mf.kernel(fold_scf(kmf).make_rdm1())
    nk = len(kmf.kpts)
    if not mf.converged or abs(mf.e_tot - nk * kmf.e_tot) > 1e-4:
        raise Skip("supercell mean field")
    mon.close("mean-field energy", mf.e_tot, nk * kmf.e_tot, 1e-5 * nk)
    nat = kmf.cell.natm
    res = []
    solver = "CCSD" if case["rs"] % 2 else "MP2"
    for m, atoms in ((kmf, range(nat)), (mf, range(sc.natm))):
        emb = vayesta.ewf.EWF(m, solver=solver, bath_options=dict(bathtype="dmet" if case["rs"] % 4 < 2 else "full"),
                              solver_options=dict(conv_tol=1e-11, conv_tol_normt=1e-9) if solver == "CCSD" else {})
        with emb.iao_fragmentation() as f:
            for a in atoms:
                f.add_atomic_fragment(a)
        emb.kernel()
        res.append([emb.e_corr, emb.e_tot, len(emb.get_fragments())])
    mon.eq("ncells", emb.ncells, 1)
    tol = 2e-5
    mon.close("correlation energy per cell", res[0][0], res[1][0] / nk, tol)
    mon.close("total energy per cell", res[0][1], res[1][1] / nk, tol)


def run(case, mon):
    {"fold": run_fold, "arrays": run_arrays, "mos": run_mos, "emb": run_emb}[case["kind"]](case, mon)
