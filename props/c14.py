"""C14: lattice models are the Hubbard Hamiltonian they describe."""
import itertools
import random

import numpy as np

from lib.mon import Skip

RULE = ("one lattice model (1D or 2D, sizes, tiles or random order, boundary conditions, hopping, interactions, filling): Hamiltonian rebuilt from the site coordinates and lattice vectors, "
        "mean-field potentials from the integrals, analytic bands, translation-symmetric embedding, or one evaluation of the exact thermodynamic-limit formulas; "
        "distinct = (dimension, sizes, order, boundaries, spin)")
NEED = {"1d": 8, "2d": 16, "rectangular": 8, "mixed boundary": 6, "tiles": 6, "order": 6, "jk": 20, "band": 8, "sym": 5, "bethe": 6, "vnn": 3, "df": 6}
BUDGET = {"quick": 80, "thorough": 900}
CASE_TIMEOUT = 300
ASSUMPTIONS = ["one-dimensional rings of two sites, whose two bonds coincide, are not considered"]


def cases(rng, tier):
    full = tier == "thorough"
    out = []
    for i in range(60 if full else 14):
        n = rng.choice([3, 4, 5, 6, 8, 10, 14, 20])
        out.append(dict(kind="latt", w=1, dim=1, n=n, bc=rng.choice(["PBC", "APBC", "auto" if n % 2 == 0 else "PBC"]), rs=rng.randrange(1 << 30)))
    for i in range(100 if full else 30):
        nx, ny = rng.choice([2, 3, 4, 6]), rng.choice([2, 3, 4, 6, 8])
        bcs = ["PBC", "APBC", "open", "periodic", "anti-periodic"]
        bc = rng.choice(bcs) if i % 3 == 0 else [rng.choice(bcs), rng.choice(bcs)]
        if nx % 2 == 0 and ny % 2 == 0 and i % 7 == 1 and nx > 2 and ny > 2:
            bc = "auto"
        out.append(dict(kind="latt", w=1, dim=2, n=[nx, ny], bc=bc, rs=rng.randrange(1 << 30)))
    for i in range(30 if full else 8):
        out.append(dict(kind="sym", w=4, dim=1 + (i % 4 > 0), rs=rng.randrange(1 << 30)))
    for i in range(40 if full else 8):
        out.append(dict(kind="bethe", w=1, rs=rng.randrange(1 << 30)))
    return out


PH = dict(pbc=1, periodic=1, apbc=-1, open=0)
PH["anti-periodic"] = -1


def phases(mol):
    bc = mol.boundary
    bc = [bc] if isinstance(bc, str) else list(bc)
    return [PH[x.lower()] for x in bc]


def hops(mol, dim, sizes):
    """Sum over periodic images of nearest-neighbour bonds with boundary phases, from coordinates in units of the site distance."""
    from pyscf.lib.parameters import BOHR

    x = mol.atom_coords() * BOHR
    a = np.asarray(mol.lattice_vectors()) * BOHR
    ph = phases(mol)
    n = len(x)
    out = np.zeros((n, n))
    for im in itertools.product(*[(-1, 0, 1)] * dim):
        f = np.prod([1.0 if k == 0 else p for k, p in zip(im, ph)])
        shift = sum((k * a[d] for d, k in enumerate(im)), np.zeros(3))
        r = np.linalg.norm(x[:, None] - x[None] - shift, axis=2)
        out += f * (abs(r - 1) < 1e-6)
    return out


def run(case, mon):
    rng = random.Random(case["rs"])
    rs = np.random.default_rng(case["rs"])
    dict(latt=run_latt, sym=run_sym, bethe=run_bethe)[case["kind"]](case, mon, rng, rs)


def run_latt(case, mon, rng, rs):
    from vayesta import lattmod
    from pyscf.lib.parameters import BOHR

    dim = case["dim"]
    sizes = [case["n"]] if dim == 1 else list(case["n"])
    n = int(np.prod(sizes))
    t, u = rng.choice([1.0, rng.uniform(0.3, 2)]), rng.choice([0.0, rng.uniform(0.5, 8)])
    v = rng.uniform(0.2, 1) if dim == 1 and rng.random() < 0.4 else 0.0
    ne = n if (n % 2 == 0 and (rng.random() < 0.7 or case["bc"] == "auto")) else 2 * rng.randint(1, max(1, n // 2))
    kw = dict(nelectron=ne, hubbard_t=t, hubbard_u=u, boundary=case["bc"] if not isinstance(case["bc"], list) else tuple(case["bc"]))
    how = rng.choice(["default", "tiles", "order"])
    if how == "order":
        order = list(range(n))
        rng.shuffle(order)
        kw["order"] = order
    tiles = (1, 1)
    if how == "tiles" and dim == 2:
        tiles = tuple(rng.choice([k for k in range(1, s + 1) if s % k == 0]) for s in sizes)
        kw["tiles"] = tiles
    mol = lattmod.Hubbard1D(sizes[0], v_nn=v, **kw) if dim == 1 else lattmod.Hubbard2D(tuple(sizes), **kw)
    tag = "%dD %s bc=%s %s tiles=%s" % (dim, sizes, case["bc"], how, tiles)
    mon.event("%dd" % dim)
    ph = phases(mol)
    if dim == 2 and sizes[0] != sizes[1]:
        mon.event("rectangular")
    if len(set(ph)) > 1:
        mon.event("mixed boundary")
    if tiles != (1, 1):
        mon.event("tiles")
    if how == "order":
        mon.event("order")
    mon.seen(dim, tuple(sizes), how, tiles, tuple(ph))
    x = mol.atom_coords() * BOHR
    mon.eq("number of sites", (mol.natm, mol.nao_nr(), mol.nao, len(x)), (n,) * 4, tag)
    grid = sorted(itertools.product(*[range(s) for s in sizes]))
    mon.eq("sites form the grid", sorted(tuple(int(round(c)) for c in r[:dim]) for r in x), grid, tag)
    mon.zero("coordinates on the grid", abs(x - np.round(x)).max(), 1e-9, tag)
    sl = mol.aoslice_by_atom()
    mon.eq("one orbital per site", sl[:, 2:].tolist(), [[i, i + 1] for i in range(n)], tag)
    # hopping
    want = hops(mol, dim, sizes)
    mon.close("hopping between neighbouring sites", mol.h1e, -t * want, 1e-12, tag)
    if how == "order":
        base = lattmod.Hubbard1D(sizes[0], v_nn=v, **dict(kw, order=None)) if dim == 1 else lattmod.Hubbard2D(tuple(sizes), **dict(kw, order=None))
        mon.close("reordered hopping", mol.h1e, base.h1e[np.ix_(order, order)], 1e-13, tag)
        mon.close("reordered sites", mol.atom_coords(), base.atom_coords()[order], 1e-13, tag)
    if tiles != (1, 1):
        k = tiles[0] * tiles[1]
        for b in range(n // k):
            r = np.round(x[b * k:(b + 1) * k, :2]).astype(int)
            r = sorted(map(tuple, (r - r.min(axis=0)).tolist()))
            mon.eq("tiles are contiguous", r, sorted(itertools.product(range(tiles[0]), range(tiles[1]))), tag)
    # indices outside the cell
    for _ in range(4):
        i = [rng.randrange(-s, 2 * s) for s in sizes]
        idx, fac = mol.get_index(*i)
        home, f0 = mol.get_index(*[a % s for a, s in zip(i, sizes)])
        mon.eq("site index of an image", int(idx), int(home), tag + str(i))
        mon.close("phase of an image", float(fac), float(np.prod([p ** abs(a // s) for a, s, p in zip(i, sizes, ph)])), 1e-12, tag + str(i))
    # free bands
    if all(ph) and min(sizes) > 2:
        mon.event("band")
        ks = [2 * np.pi * (np.arange(s) + (0.5 if p < 0 else 0)) / s for s, p in zip(sizes, ph)]
        e = sum(np.meshgrid(*[-2 * t * np.cos(k) for k in ks], indexing="ij"))
        mon.close("band energies", np.linalg.eigvalsh(mol.h1e), np.sort(np.ravel(e)), 1e-10, tag)
    # interaction
    g = np.zeros((n,) * 4)
    for i in range(n):
        g[i, i, i, i] = u
    if v:
        mon.event("vnn")
        nb = np.abs(hops(mol, 1, sizes)) > 0
        for i, j in zip(*np.nonzero(nb)):
            g[i, i, j, j] = v
    mon.close("interaction", mol.get_eri(), g, 1e-12, tag)
    u2 = rng.uniform(0, 5)
    mon.zero("interaction with another U", abs(mol.get_eri(hubbard_u=u2) - (g if not v else g)).max() - (abs(u2 - u)), 1e-12, tag)
    mon.close("on-site interaction", np.einsum("iiii->i", mol.get_eri(hubbard_u=u2)), np.full(n, u2), 1e-12, tag)
    if v:
        return
    cs = [rs.standard_normal((n, rng.randint(1, 4))) for _ in range(4)]
    mon.close("transformed interaction", mol.ao2mo(cs).reshape([c.shape[1] for c in cs]), np.einsum("pqrs,pi,qj,rk,sl->ijkl", g, *cs, optimize=True), 1e-10, tag)
    mon.close("transformed interaction", mol.ao2mo(cs[0]).reshape([cs[0].shape[1]] * 4), np.einsum("pqrs,pi,qj,rk,sl->ijkl", g, *[cs[0]] * 4, optimize=True), 1e-10, tag)
    # mean field
    for uhf in (False, True):
        mf = (lattmod.LatticeUHF if uhf else lattmod.LatticeRHF)(mol)
        mon.close("one-electron Hamiltonian", mf.get_hcore(), mol.h1e, 0 + 1e-14, tag)
        mon.close("overlap", mf.get_ovlp(), np.eye(n), 1e-14, tag)
        d = rs.standard_normal((2, n, n))
        d = d + d.transpose(0, 2, 1)
        dm = d if uhf else d[0]
        j, k = mf.get_jk(dm=dm)
        mon.event("jk")
        if uhf:
            for s in range(2):
                mon.close("Coulomb potential", j[s], np.einsum("pqrs,rs->pq", g, d[s]), 1e-10, tag)
                mon.close("exchange potential", k[s], np.einsum("prsq,rs->pq", g, d[s]), 1e-10, tag)
        else:
            mon.close("Coulomb potential", j, np.einsum("pqrs,rs->pq", g, dm), 1e-10, tag)
            mon.close("exchange potential", k, np.einsum("prsq,rs->pq", g, dm), 1e-10, tag)
        dms = tuple(d) if uhf else (d[0] / 2, d[0] / 2)
        vj = u * np.diag(np.diag(dms[0] + dms[1]))
        ve = [vj - u * np.diag(np.diag(x)) for x in dms]
        got = mf.get_veff(dm=dm)
        mon.close("potential", np.asarray(got), np.asarray(ve) if uhf else ve[0], 1e-10, tag)
        g0 = mf.get_init_guess()
        tr = [np.trace(x) for x in g0] if uhf else [np.trace(g0)]
        mon.close("electrons in the initial guess", sum(tr), float(ne), 0.011 * n, tag)
        mf.verbose = 0
        mf.conv_tol = 1e-11
        mf.max_cycle = 200
        mf.kernel()
        dd = mf.make_rdm1()
        dd = tuple(dd) if uhf else (dd / 2, dd / 2)
        e = sum(np.sum(mol.h1e * x) for x in dd) + u * np.sum(np.diag(dd[0]) * np.diag(dd[1]))
        mon.close("mean-field energy", mf.e_tot, e, 1e-8, tag)
        mon.close("number of electrons", sum(np.trace(x) for x in dd), float(ne), 1e-8, tag)
        if u == 0:
            ev = np.linalg.eigvalsh(mol.h1e)
            if len(ev) == ne // 2 or ev[ne // 2] - ev[ne // 2 - 1] > 1e-6:
                mon.close("free energy", mf.e_tot, 2 * ev[:ne // 2].sum(), 1e-8, tag)
    mold = lattmod.Hubbard1D(sizes[0], incore_anyway=False, **kw) if dim == 1 else lattmod.Hubbard2D(tuple(sizes), incore_anyway=False, **kw)
    mf = lattmod.LatticeRHF(mold)
    mon.event("df")
    from pyscf.lib import unpack_tril

    L = np.vstack([unpack_tril(b) for b in mf.with_df.loop()])
    mon.eq("fitting functions", mf.with_df.get_naoaux(), len(L), tag)
    mon.close("fitted interaction", np.einsum("Lpq,Lrs->pqrs", L, L, optimize=True), g, 1e-10, tag)
    mon.close("fitted transformed interaction", mf.with_df.ao2mo(cs).reshape([c.shape[1] for c in cs]), np.einsum("pqrs,pi,qj,rk,sl->ijkl", g, *cs, optimize=True), 1e-10, tag)


def run_sym(case, mon, rng, rs):
    """Translation-derived fragments of a lattice equal explicit ones."""
    import vayesta.ewf
    from vayesta import lattmod

    u = rng.uniform(1, 5)
    for _ in range(30):
        if case["dim"] == 1:
            n = rng.choice([6, 10, 12])
            k = rng.choice([x for x in (1, 2, 3, 5) if n % x == 0])
            mol = lattmod.Hubbard1D(n, nelectron=n, hubbard_u=u)
            tv, k0 = [n // k, 1, 1], k
        else:
            nx, ny = rng.choice([(2, 4), (4, 2), (2, 6), (6, 2), (4, 4), (2, 3), (3, 2), (4, 3)])
            tiles = (rng.choice([x for x in (1, 2) if nx % x == 0]), rng.choice([x for x in (1, 2, 3) if ny % x == 0]))
            bc = tuple(rng.choice(["PBC", "APBC"]) for _ in range(2))
            mol = lattmod.Hubbard2D((nx, ny), nelectron=nx * ny, hubbard_u=u, boundary=bc, tiles=tiles)
            n, k0 = nx * ny, tiles[0] * tiles[1]
            tv = [nx // tiles[0], ny // tiles[1], 1]
        ev = np.linalg.eigvalsh(mol.h1e)
        if ev[n // 2] - ev[n // 2 - 1] > 0.05:
            break
    else:
        raise Skip("gap")
    mf = lattmod.LatticeRHF(mol)
    mf.conv_tol = 1e-12
    mf.kernel()
    if not mf.converged or np.ptp(np.diag(mf.make_rdm1())) > 1e-6:
        raise Skip("mean field not symmetric")
    res = []
    solver = "FCI" if k0 <= 3 and rng.random() < 0.5 else "CCSD"
    opts = dict(conv_tol=1e-13, max_cycle=200) if solver == "FCI" else dict(solve_lambda=False, conv_tol=1e-10, conv_tol_normt=1e-8)
    for sym in (True, False):
        emb = vayesta.ewf.EWF(mf, solver=solver, bath_options=dict(bathtype="dmet"), solver_options=opts)
        with emb.site_fragmentation() as f:
            if sym:
                fx = f.add_atomic_fragment(list(range(k0)))
                fx.add_tsymmetric_fragments(tv)
            else:
                for b in range(n // k0):
                    f.add_atomic_fragment(list(range(b * k0, (b + 1) * k0)))
        emb.kernel()
        if not emb.converged:
            raise Skip("not converged")
        res.append((emb.e_corr, emb.e_tot))
        mon.eq("number of fragments", len(emb.fragments), n // k0, str((case["dim"], tv)))
    mon.event("sym")
    mon.seen("sym", case["dim"], tuple(tv), k0)
    mon.close("energy from symmetric fragments", res[0][0], res[1][0], 5e-6, str((case["dim"], tv, mol.boundary)))


def run_bethe(case, mon, rng, rs):
    import scipy.integrate as si
    import scipy.special as ss
    from vayesta.lattmod import bethe

    t, u = rng.uniform(0.4, 2), rng.uniform(1.0, 12)
    tag = "t=%.4f u=%.4f" % (t, u)
    mon.event("bethe")
    mon.seen("bethe", t, u)
    q = lambda f: si.quad(f, 1e-12, 40 * 2 * t / u + 1e-3, limit=400, epsabs=1e-13)[0]
    e = -4 * t * q(lambda x: ss.jv(0, x) * ss.jv(1, x) / (x * (1 + np.exp(x * u / (2 * t)))))
    got = bethe.hubbard1d_bethe_energy(t, u)
    mon.close("energy per site", got, e, 1e-8, tag)
    mon.close("scaling", bethe.hubbard1d_bethe_energy(2 * t, 2 * u), 2 * got, 1e-8, tag)
    h = 1e-3
    d = (bethe.hubbard1d_bethe_energy(t, u + h) - bethe.hubbard1d_bethe_energy(t, u - h)) / (2 * h)
    mon.close("double occupancy", bethe.hubbard1d_bethe_docc(t, u), d, 1e-6, tag)
    mon.true("double occupancy between 0 and 1/4", 0 < bethe.hubbard1d_bethe_docc(t, u) < 0.25, tag)
    for o in (1, 2):
        mon.close("numerical double occupancy", bethe.hubbard1d_bethe_docc_numdiff(t, u, du=1e-4, order=o), d, 1e-5, tag)
    gap = u - 4 * t + 8 * t * q(lambda x: ss.jv(1, x) / (x * (1 + np.exp(x * u / (2 * t)))))
    mon.close("band gap", bethe.hubbard1d_bethe_gap(t, u), gap, 1e-5, tag)
    mon.true("weak-coupling energy", abs(bethe.hubbard1d_bethe_energy(t, 0.0) + 4 * t / np.pi) < 2e-3, tag)
    # finite rings approach the thermodynamic limit from exact diagonalisation
    if rng.random() < 0.5:
        from pyscf import fci
        from vayesta import lattmod

        es = []
        for n in (6, 10):
            mol = lattmod.Hubbard1D(n, nelectron=n, hubbard_u=u, hubbard_t=t)
            es.append(fci.direct_spin1.FCI().kernel(mol.h1e, mol.get_eri(), n, n, verbose=0)[0] / n)
        x = (es[1] * 100 - es[0] * 36) / 64
        mon.close("limit of finite rings", x, got, 0.012 * t, tag + str(es))
