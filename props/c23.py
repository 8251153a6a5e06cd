"""C23: structure builders, analysis tools and array helpers."""
import itertools
import os
import random
import tempfile

import numpy as np

RULE = ("one call pattern of a helper or tool (cube files, atom shells, counterpoise molecules, structures, correlation functions of given density matrices, equation-of-state fits, block SVD, array and orbital helpers) "
        "on random input, its result recomputed from the definition; distinct = (tool, options, sizes)")
NEED = {"cube": 8, "cube:pbc": 2, "cube:multi": 3, "cube:crop": 2, "shells": 4, "cp": 6, "cp:pbc": 2, "cpfrag": 3, "molecule": 10, "solid": 7, "corr": 8, "ucorr": 3, "eos": 4, "bsvd": 8, "einsum": 8, "packed": 6, "decompress": 8,
        "blocks": 8, "orbitals": 6}
BUDGET = {"quick": 80, "thorough": 600}
CASE_TIMEOUT = 200
ASSUMPTIONS = ["basis functions, cells and Mole objects of PySCF as given", "neighbour images: only cells whose nearest images lie in the adjacent cells", "density matrices of up to four orbitals"]


def cases(rng, tier):
    k = 6 if tier == "thorough" else 1
    out = []
    for kind, n in (("cube", 16), ("shells", 14), ("cp", 14), ("cpfrag", 5), ("molecule", 16), ("solid", 12), ("corr", 60), ("eos", 6), ("bsvd", 20), ("arrays", 14), ("orbitals", 8)):
        for i in range(n * k):
            out.append(dict(kind=kind, w=1, j=i, rs=rng.randrange(1 << 30)))
    for i, c in enumerate(out):
        c["i"] = i
    return out


def run(case, mon):
    rng = random.Random(case["rs"])
    rs = np.random.default_rng(case["rs"])
    np.random.seed(case["rs"] % (1 << 32))
    globals()["run_" + case["kind"]](case, mon, rng, rs)


def rand_mol(rng, rs, nat=None, **kw):
    from pyscf import gto

    nat = nat or rng.randint(1, 4)
    atoms = [[rng.choice(["H", "He", "Li", "O"]), list(rs.uniform(-1, 1, 3) + 1.6 * np.array([i, i % 2, 0]))] for i in range(nat)]
    m = gto.M(atom=atoms, basis=rng.choice(["sto-3g", "6-31g", "cc-pvdz"]), verbose=0, spin=None, cart=rng.random() < 0.2, **kw)
    return m


def rand_cell(rng, rs, dim=3, nat=None):
    from pyscf.pbc import gto

    nat = nat or rng.randint(1, 3)
    a = np.diag(rs.uniform(3.2, 4.5, 3)) + rs.uniform(-0.3, 0.3, (3, 3))
    c = gto.Cell()
    c.a = a
    c.atom = [[rng.choice(["H", "He"]), list(rs.uniform(0, 1, 3) @ a)] for i in range(nat)]
    c.basis = "sto-3g"
    c.dimension = dim
    c.spin = None
    c.verbose = 0
    c.build(False, False)
    return c


# --- cube files


def read_cube(fn):
    with open(fn) as f:
        lines = f.read().split("\n")
    head = lines[2].split()
    nat = int(head[0])
    org = np.array([float(x) for x in head[1:4]])
    nval = int(head[4]) if len(head) > 4 else 1
    ax = [lines[i].split() for i in (3, 4, 5)]
    n = [int(x[0]) for x in ax]
    vec = np.array([[float(y) for y in x[1:4]] for x in ax])
    atoms = [[float(y) for y in lines[6 + i].split()] for i in range(abs(nat))]
    k = 6 + abs(nat)
    ids = None
    if nat < 0:
        x = [int(y) for y in lines[k].split()]
        ids = x[1:]
        assert x[0] == len(ids)
        nval = len(ids)
        k += 1
    data = np.array([float(y) for l in lines[k:] for y in l.split()])
    widest = max(len(l.split()) for l in lines[k:])
    return dict(nat=abs(nat), neg=nat < 0, origin=org, n=n, vec=vec, atoms=np.array(atoms), ids=ids, nval=nval, data=data, widest=widest, title=lines[0], comment=lines[1])


def run_cube(case, mon, rng, rs):
    from vayesta.misc.cubefile import CubeFile

    pbc = rng.random() < 0.3
    mol = rand_cell(rng, rs) if pbc else rand_mol(rng, rs)
    nao = mol.nao
    opts = dict(gridsize=tuple(rng.randint(3, 9) for _ in range(3)))
    how = rng.choice(["grid", "grid", "fine", "resolution"])
    if how == "fine":
        opts["gridsize"] = (rng.randint(18, 24), rng.randint(20, 24), rng.randint(18, 22))  # several blocks of points
    if how == "resolution":
        opts["resolution"] = rng.uniform(1.0, 1.6)
    crop = None
    if rng.random() < 0.3:
        crop = {k: rng.uniform(0.1, 1.0) for k in rng.sample(["a0", "a1", "b0", "b1", "c0", "c1"], rng.randint(1, 6))}
        opts["crop"] = crop
    tag = "pbc=%s %s %s crop=%s" % (pbc, how, opts["gridsize"], crop)
    tmp = tempfile.mkdtemp(prefix="c23-")
    try:
        fn = os.path.join(tmp, rng.choice(["x.cube", "sub/dir/x.cube"]))
        want, ids = [], []

        def nxt(idx, i):
            if idx is not None:
                return idx + i
            return max(ids) + 1 if ids else 1

        cf = CubeFile(mol, filename=fn, title="some title", **opts)
        for _ in range(rng.randint(1, 3)):
            idx = rng.choice([None, None, rng.randint(1, 40), 0])
            if rng.random() < 0.6:
                c = rs.normal(size=(nao, rng.randint(1, 3)))
                arg = c
                if c.shape[1] == 1 and rng.random() < 0.7:
                    arg = c[:, 0]
                cf.add_orbital(arg, dset_idx=idx)
                for i in range(c.shape[1]):
                    want.append(("o", c[:, i].copy()))
                    ids.append(nxt(idx, i))
                if rng.random() < 0.5:
                    arg *= 0.0  # the file keeps its own copy
            else:
                d = rs.normal(size=(rng.randint(1, 2), nao, nao))
                d = d + d.transpose(0, 2, 1)
                arg = d[0] if len(d) == 1 and rng.random() < 0.7 else d
                cf.add_density(arg, dset_idx=idx)
                for i in range(len(d)):
                    want.append(("d", d[i].copy()))
                    ids.append(nxt(idx, i))
        if rng.random() < 0.3:
            st = os.path.join(tmp, "state.pkl")
            cf.save_state(st)
            cf = CubeFile.load_state(st, cell=mol)
            mon.event("cube:state")
        if rng.random() < 0.5:
            with cf:
                pass
        else:
            cf.write()
        r = read_cube(fn)
        nf = len(want)
        mon.eq("number of atoms", r["nat"], mol.natm, tag)
        mon.eq("multiple data sets are announced", r["neg"], nf > 1, tag)
        mon.eq("title", r["title"], "some title", tag)
        if nf > 1:
            mon.eq("data-set indices", r["ids"], ids, tag)
            mon.event("cube:multi")
        mon.close("atoms", r["atoms"][:, 2:], mol.atom_coords(), 1e-6, tag)
        mon.eq("atomic numbers", [int(x) for x in r["atoms"][:, 0]], [int(x) for x in mol.atom_charges()], tag)
        # box
        if pbc:
            box, org = np.array(mol.lattice_vectors()), np.zeros(3)
        else:
            x = mol.atom_coords()
            org = x.min(0) - 3.0
            box = np.diag(x.max(0) - x.min(0) + 6.0)
        unit = box / np.linalg.norm(box, axis=1)[:, None]
        if crop:
            mon.event("cube:crop")
            for i, l in enumerate("abc"):
                org = org + crop.get(l + "0", 0) * unit[i]
                box[i] = box[i] - (crop.get(l + "0", 0) + crop.get(l + "1", 0)) * unit[i]
        n = np.array(r["n"])
        mon.close("origin", r["origin"], org, 2e-6, tag)
        mon.close("axes span the box", r["vec"] * (n - 1)[:, None], box, 4e-5, tag)
        if how != "resolution":
            mon.eq("number of grid points", tuple(n), tuple(opts["gridsize"]), tag)
        else:
            mon.eq("number of grid points", tuple(n), tuple(int(np.ceil(abs(box[i, i]) * opts["resolution"])) for i in range(3)), tag)
        mon.eq("number of values", r["data"].size, int(n.prod()) * nf, tag)
        mon.true("at most six values per line", r["widest"] <= 6, tag)
        frac = np.array(list(itertools.product(*[np.arange(k) / (k - 1) for k in n])))
        pts = frac @ box + org
        ao = mol.pbc_eval_gto("GTOval", pts) if pbc else mol.eval_gto("GTOval", pts)
        data = r["data"].reshape(-1, nf)
        for i, (t, x) in enumerate(want):
            v = ao @ x if t == "o" else np.einsum("gp,pq,gq->g", ao, x, ao)
            mon.close("orbital values" if t == "o" else "density values", data[:, i], v, 2e-5 * max(1e-2, abs(v).max()), tag)
    finally:
        for root, _, files in os.walk(tmp, topdown=False):
            for f in files:
                os.unlink(os.path.join(root, f))
            os.rmdir(root)
    mon.event("cube")
    if pbc:
        mon.event("cube:pbc")
    mon.seen("cube", tag)


# --- atoms around a point


def dists(coords, point, amat, dim, m):
    r = [range(-m, m + 1) if i < dim else (0,) for i in range(3)]
    out = np.full(len(coords), np.inf)
    for s in itertools.product(*r):
        sh = np.dot(s, amat) if dim else np.zeros(3)
        out = np.minimum(out, np.linalg.norm(coords + sh - point, axis=1))
    return out


def run_shells(case, mon, rng, rs):
    from vayesta.misc.gto_helper import get_atom_distances, get_atom_shells

    pbc = rng.random() < 0.6
    if pbc:
        dim = rng.randint(1, 3)
        mol = rand_cell(rng, rs, dim=3, nat=rng.randint(2, 5))
    else:
        dim = 0
        mol = rand_mol(rng, rs, nat=4)
    coords = mol.atom_coords()
    point = coords[rng.randrange(mol.natm)] if rng.random() < 0.6 else rs.uniform(0, 3, 3)
    amat = mol.lattice_vectors() if pbc else None
    want = dists(coords, point, amat, dim, 1)
    if pbc and abs(dists(coords, point, amat, dim, 3) - want).max() > 1e-8:
        return
    kw = dict(dimension=dim) if pbc and (dim < 3 or rng.random() < 0.5) else {}
    if pbc and rng.random() < 0.5:
        # the dimension of the cell is used if none is given
        mol.dimension, kw = dim, {}
    d = get_atom_distances(mol, point, **kw)
    tag = "pbc=%s dim=%s" % (pbc, dim)
    mon.close("distances", d, want, 1e-10, tag)
    sh, d2 = get_atom_shells(mol, point, **kw)
    mon.close("distances of the shells", d2, want, 1e-10, tag)
    u = np.unique(want.round(5))
    if len(u) == 1 or np.diff(u).min() > 3e-5:
        mon.eq("shells count the distinct distances", [int(x) for x in sh], [int(abs(u - x).argmin()) for x in want], tag)
    mon.event("shells")
    mon.seen("shells", tag)


def run_cp(case, mon, rng, rs):
    import pyscf.lib
    from vayesta.misc.counterpoise import make_cp_mol

    pbc = rng.random() < 0.55
    dim = rng.randint(1, 3) if pbc else 0
    mol = rand_cell(rng, rs, dim=3, nat=rng.randint(1, 3)) if pbc else rand_mol(rng, rs, nat=rng.randint(2, 4))
    if pbc and dim < 3:
        mol.dimension = dim
    at = rng.randrange(mol.natm)
    bohr = pyscf.lib.param.BOHR
    nim = rng.choice([1, 1, 2]) if pbc else rng.choice([1, 2])
    coords = mol.atom_coords() * bohr
    unit = rng.choice(["A", "B"] + (["a1", "a2", "a3"] if pbc else []))
    amat = mol.lattice_vectors() * bohr if pbc else None
    fac = dict(A=1.0, B=bohr)
    if pbc:
        fac.update({"a%d" % (i + 1): np.linalg.norm(amat[i]) for i in range(3)})
    target = rng.choice([None, rng.uniform(1.0, 7.0)])
    rmax = (target or 0) / fac[unit]
    if target is None:
        rmax = rng.choice([0, None, False])
    want = []
    if target:
        for s in itertools.product(*[range(-nim, nim + 1) if i < dim else (0,) for i in range(3)]):
            for i in range(mol.natm):
                if i == at and not any(s):
                    continue
                x = coords[i] + (np.dot(s, amat) if pbc else 0)
                if abs(np.linalg.norm(x - coords[at]) - target) < 1e-6:
                    return
                if np.linalg.norm(x - coords[at]) < target:
                    want.append((mol.atom_pure_symbol(i), x))
    z = mol.atom_charge(at)
    before = (mol.natm, mol.nao, mol.atom_coords().copy())
    m = make_cp_mol(mol, at, rmax, nimages=nim, unit=unit, spin=int(z) % 2, charge=0)
    tag = "pbc=%s dim=%d unit=%s nimages=%d rmax=%s" % (pbc, dim, unit, nim, target is not None)
    mon.eq("atoms within the radius", m.natm, 1 + len(want), tag)
    if m.natm == 1 + len(want):
        got = m.atom_coords() * bohr
        mon.close("position of the atom", got[0], coords[at], 1e-8, tag)
        mon.eq("one real atom", (int(m.atom_charge(0)), [int(m.atom_charge(i)) for i in range(1, m.natm)]), (int(z), [0] * len(want)), tag)
        key = lambda x: tuple(np.round(x, 6) + 0.0)
        mon.eq("positions of the ghosts", sorted(key(x) for x in got[1:]), sorted(key(x) for _, x in want), tag)
        one = {}
        for i in range(mol.natm):
            s, e = mol.aoslice_by_atom()[i][2:]
            one[mol.atom_pure_symbol(i)] = e - s
        mon.eq("basis functions on every centre", m.nao, one[mol.atom_pure_symbol(at)] + sum(one[s] for s, _ in want), tag)
        mon.eq("electrons of the atom", m.nelectron, int(z), tag)
    mon.eq("periodicity removed", getattr(m, "dimension", 0), 0, tag)
    mon.true("argument unchanged", before[:2] == (mol.natm, mol.nao) and abs(before[2] - mol.atom_coords()).max() == 0, tag)
    mon.event("cp")
    if pbc:
        mon.event("cp:pbc")
    mon.seen("cp", tag)


def run_cpfrag(case, mon, rng, rs):
    from pyscf import gto
    from vayesta.misc.gto_helper import make_counterpoise_fragments

    n = rng.randint(2, 4)
    atom, syms = [], []
    for i in range(n):
        for s in rng.choice([["H", "H"], ["He"], ["O"]]):
            l = "%s%d" % (s, i)
            syms.append(l)
            atom.append([l, list(rs.uniform(-0.5, 0.5, 3) + [2.5 * i, 0, len(atom) % 2])])
    names = sorted(set(syms))
    bas = {s: rng.choice(["sto-3g", "6-31g"]) for s in names} if rng.random() < 0.5 else "6-31g"
    mol = gto.M(atom=atom, basis=bas, verbose=0)
    idx = list(range(n))
    rng.shuffle(idx)
    k = rng.randint(1, n)
    groups = [[s for s in names if int(s.lstrip("HeO")) == i] for i in idx[:k]]
    full, rest = rng.random() < 0.6, rng.random() < 0.6
    fm = make_counterpoise_fragments(mol, groups, full_basis=full, add_rest_fragment=rest, dump_input=False)
    tag = "groups=%s full=%s rest=%s dict=%s" % (groups, full, rest, isinstance(bas, dict))
    allg = list(groups)
    r = [s for s in names if not any(s in g for g in groups)]
    if rest and r:
        allg.append(r)
    mon.eq("one molecule per fragment", len(fm), len(allg), tag)
    sl = mol.aoslice_by_atom()
    for m, g in zip(fm, allg):
        real = [i for i, s in enumerate(syms) if s in g]
        mon.eq("electrons of the fragment", m.nelectron, int(sum(mol.atom_charge(i) for i in real)), tag)
        mon.eq("basis of the fragment", m.nao, mol.nao if full else int(sum(sl[i][3] - sl[i][2] for i in real)), tag)
        x = m.atom_coords()
        mon.close("atoms in place", x[[i for i in range(m.natm) if m.atom_charge(i) > 0]], mol.atom_coords()[real], 1e-9, tag)
        if full:
            mon.close("ghosts in place", x, mol.atom_coords(), 1e-9, tag)
    mon.event("cpfrag")
    mon.seen("cpfrag", tag)


# --- structures


def xyz(atom):
    return [a[0] for a in atom], np.array([np.asarray(a[1], float) for a in atom])


def bonds(x, sel, d):
    return [[j for j in sel if j != i and abs(np.linalg.norm(x[i] - x[j]) - d) < 1e-6] for i in range(len(x))]


def run_molecule(case, mon, rng, rs):
    from vayesta.misc import molecules as M

    k = ["alkane", "alkene", "arene", "ring", "chain", "ethanol", "ketene", "ferrocene"][case["j"] % 8]
    cc, ch, u = rng.uniform(1.2, 1.7), rng.uniform(0.9, 1.15), rng.uniform(0.7, 1.6)
    if k == "alkane":
        n = rng.randint(1, 5)
        num = rng.choice([False, "atom", "unit"])
        sc = rng.choice([1.0, u])
        s, x = xyz(M.alkane(n, cc_bond=cc, ch_bond=ch, scale=sc, numbering=num))
        c = [i for i, a in enumerate(s) if a[0] == "C"]
        h = [i for i, a in enumerate(s) if a[0] == "H"]
        tag = "alkane %d %s %s" % (n, num, sc == 1)
        mon.eq("formula", (len(c), len(h)), (n, 2 * n + 2), tag)
        nc, nh = bonds(x, c, cc * sc), bonds(x, h, ch * sc)
        for a, i in enumerate(c):
            mon.eq("neighbours of carbon", (len(nc[i]), len(nc[i]) + len(nh[i])), ((a > 0) + (a < n - 1), 4), tag)
            v = [(x[j] - x[i]) / np.linalg.norm(x[j] - x[i]) for j in nc[i] + nh[i]]
            for p, q in itertools.combinations(v, 2):
                mon.close("tetrahedral angles", p @ q, -1 / 3, 1e-6, tag)
        if num == "atom":
            mon.eq("numbering", [int(a[1:]) for a in s], list(range(len(s))), tag)
        if num == "unit":
            mon.true("numbering", [int(s[i][1:]) for i in c] == list(range(n)) and all(s[j][1:] == s[i][1:] for i in c for j in nh[i]), tag)
    elif k == "alkene":
        n = rng.choice([2, 4, 6])
        s, x = xyz(M.alkene(n, cc_bond=cc, ch_bond=ch))
        c = [i for i, a in enumerate(s) if a == "C"]
        h = [i for i, a in enumerate(s) if a == "H"]
        tag = "alkene %d" % n
        mon.eq("formula", (len(c), len(h)), (n, n + 2), tag)
        nc, nh = bonds(x, c, cc), bonds(x, h, ch)
        for a, i in enumerate(c):
            mon.eq("neighbours of carbon", (len(nc[i]), len(nc[i]) + len(nh[i])), ((a > 0) + (a < n - 1), 3), tag)
            v = [(x[j] - x[i]) / np.linalg.norm(x[j] - x[i]) for j in nc[i] + nh[i]]
            for p, q in itertools.combinations(v, 2):
                mon.close("trigonal angles", p @ q, -0.5, 1e-6, tag)
    elif k == "arene":
        n = rng.randint(3, 8)
        un = rng.choice([1.0, u])
        at = rng.choice([["C", "H"], ["B", "H", "N", "F"]])
        s, x = xyz(M.arene(n, atoms=at, cc_bond=cc, ch_bond=ch, unit=un))
        tag = "arene %d unit=%s %d" % (n, un == 1, len(at))
        inner, outer = x[0::2], x[1::2]
        mon.close("bond length of the ring", np.linalg.norm(inner - np.roll(inner, 1, 0), axis=1), np.full(n, un * cc), 1e-9, tag)
        mon.close("bond length to the substituents", np.linalg.norm(inner - outer, axis=1), np.full(n, un * ch), 1e-9, tag)
        mon.eq("elements", s, [at[(2 * i) % len(at) + j] for i in range(n) for j in (0, 1)], tag)
    elif k in ("ring", "chain"):
        n = rng.randint(3, 9)
        num = rng.choice([None, 0, 3])
        el = rng.choice(["H", ["Li", "H"], ["H"]])
        kw = dict(bond_length=cc)
        z = 0.0
        if k == "ring":
            if rng.random() < 0.4:
                kw = dict(radius=cc)
            z = rng.uniform(-1, 1)
            kw["z"] = z
            s, x = xyz(M.ring(el, n, numbering=num, **kw))
            if "radius" in kw:
                mon.close("radius", np.linalg.norm(x[:, :2], axis=1), np.full(n, cc), 1e-9)
            else:
                mon.close("bond length", np.linalg.norm(x - np.roll(x, 1, 0), axis=1), np.full(n, cc), 1e-9)
            mon.close("plane", x[:, 2], np.full(n, z), 1e-12)
        else:
            s, x = xyz(M.chain(el, n, cc, numbering=num))
            mon.close("bond length", np.linalg.norm(x[1:] - x[:-1], axis=1), np.full(n - 1, cc), 1e-9)
            mon.close("straight", np.linalg.norm(x[-1] - x[0]), (n - 1) * cc, 1e-9)
        e = [el] if isinstance(el, str) else el
        tag = "%s %d %s %s" % (k, n, num, e)
        mon.eq("elements", s, [e[i % len(e)] + ("" if num is None else str(num + i)) for i in range(n)], tag)
    elif k == "ethanol":
        oh = rng.uniform(0.8, 2.5)
        sc = rng.choice([1, u])
        s0, x0 = xyz(M.ethanol(scale=sc))
        s, x = xyz(M.ethanol(oh_bond=oh, scale=sc))
        tag = "ethanol scale=%s" % (sc == 1)
        mon.eq("formula", sorted(s), ["C"] * 2 + ["H"] * 6 + ["O"], tag)
        mv = [i for i in range(len(s)) if abs(x[i] - x0[i]).max() > 1e-9]
        o = s.index("O")
        mon.eq("only the hydroxyl hydrogen moves", [s[i] for i in mv], ["H"], tag)
        if mv:
            mon.close("bond length", np.linalg.norm(x[mv[0]] - x[o]), oh, 1e-8, tag)
    elif k == "ketene":
        s0, x0 = xyz(M.ketene())
        s, x = xyz(M.ketene(cc_bond=cc))
        tag = "ketene"
        c = [i for i, a in enumerate(s) if a == "C"]
        o = s.index("O")
        mon.close("bond length", np.linalg.norm(x[c[0]] - x[c[1]]), cc, 1e-8, tag)
        mon.close("the oxygen moves along", x[o] - x[c[1]], x0[o] - x0[c[1]], 1e-8, tag)
    else:
        num = rng.choice([None, True])
        dm, dc, dh, al = rng.uniform(1.5, 1.8), rng.uniform(1.3, 1.5), rng.uniform(1.0, 1.1), rng.uniform(-2, 4)
        s, x = xyz(M.ferrocene(dFeCp=dm, dCC=dc, dCH=dh, aCpH=al, numbering=num))
        tag = "ferrocene %s" % num
        c = [i for i, a in enumerate(s) if a[0] == "C"]
        h = [i for i, a in enumerate(s) if a[0] == "H"]
        mon.eq("formula", (len(c), len(h), len(s)), (10, 10, 21), tag)
        mon.true("rings", all(len(b) == 2 for i, b in enumerate(bonds(x, c, dc)) if i in c) and all(len(b) == 1 for i, b in enumerate(bonds(x, h, dh)) if i in c), tag)
        mon.close("distance of the rings", sorted(abs(x[c, 2])), [dm] * 10, 1e-9, tag)
        if num:
            mon.eq("numbering", len(set(s)), 21, tag)
    mon.event("molecule")
    mon.seen("molecule", tag)


def neigh(a, x, i, sel, m=2):
    """Sorted distances from atom i to the atoms in sel and their images."""
    d = []
    for s in itertools.product(range(-m, m + 1), repeat=3):
        for j in sel:
            r = np.linalg.norm(x[j] + np.dot(s, a) - x[i])
            if r > 1e-9:
                d.append(r)
    return np.sort(d)


def run_solid(case, mon, rng, rs):
    from vayesta.misc import solids as M

    k = ["bcc", "diamond", "graphene", "graphite", "rocksalt", "perovskite", "tetragonal"][case["j"] % 7]
    a0 = rng.uniform(2.5, 6.0)
    vol = None
    if k == "bcc":
        a, at = M.bcc(["Li", "Cs"], a0)
        vol, spec = a0 ** 3, [(0, [1], 8, a0 * 3 ** 0.5 / 2), (1, [0], 8, a0 * 3 ** 0.5 / 2), (0, [0], 6, a0)]
    elif k == "diamond":
        a, at = M.diamond(atoms=["B", "N"], a=a0)
        vol, spec = a0 ** 3 / 4, [(0, [1], 4, a0 * 3 ** 0.5 / 4), (1, [0], 4, a0 * 3 ** 0.5 / 4), (0, [0], 12, a0 / 2 ** 0.5)]
    elif k == "graphene":
        c = rng.uniform(12, 30)
        a, at = M.graphene(atoms=["B", "N"], a=a0, c=c)
        vol, spec = a0 ** 2 * 3 ** 0.5 / 2 * c, [(0, [1], 3, a0 / 3 ** 0.5), (1, [0], 3, a0 / 3 ** 0.5), (0, [0], 6, a0)]
    elif k == "graphite":
        c = a0 * rng.uniform(2.2, 3)
        a, at = M.graphite(a=a0, c=c)
        vol, spec = a0 ** 2 * 3 ** 0.5 / 2 * c, [(i, [0, 1, 2, 3], 3, a0 / 3 ** 0.5) for i in range(4)] + [(0, [2, 3], 2, c / 2)]
    elif k == "rocksalt":
        cell = rng.choice(["primitive", "primitive-af1", "primitive-af2", "cubic"])
        k += " " + cell
        a, at = M.rocksalt(atoms=["Na", "Cl"], a=a0, unitcell=cell)
        el = [x[0] for x in at]
        na, cl = [i for i, e in enumerate(el) if e == "Na"], [i for i, e in enumerate(el) if e == "Cl"]
        mon.eq("stoichiometry", len(na), len(cl), k)
        vol, spec = a0 ** 3 / 4 * len(na), [(i, cl, 6, a0 / 2) for i in na] + [(i, na, 6, a0 / 2) for i in cl] + [(na[0], na, 12, a0 / 2 ** 0.5)]
    elif k == "perovskite":
        a, at = M.perovskite(a=a0)
        vol, spec = a0 ** 3, [(1, [2, 3, 4], 6, a0 / 2), (0, [2, 3, 4], 12, a0 / 2 ** 0.5), (0, [1], 8, a0 * 3 ** 0.5 / 2)]
    else:
        # undistorted parameters: the cubic crystal
        mode = rng.choice(["both", "a", "c"])
        kw = dict(both=dict(a=a0, c=a0 * 2 ** 0.5), a=dict(a=a0, c=None), c=dict(a=None, c=a0 * 2 ** 0.5))[mode]
        k += " " + mode
        a, at = M.perovskite_tetragonal(u=0.25, **kw)
        el = [x[0] for x in at]
        sr, ti, o = [[i for i, e in enumerate(el) if e == z] for z in ("Sr", "Ti", "O")]
        mon.eq("stoichiometry", (len(sr), len(ti), len(o)), (4, 4, 12), k)
        b = a0 / 2 ** 0.5
        vol, spec = 4 * b ** 3, [(i, o, 6, b / 2) for i in ti] + [(i, ti, 8, b * 3 ** 0.5 / 2) for i in sr] + [(i, o, 12, b / 2 ** 0.5) for i in sr]
    _, x = xyz(at)
    mon.close("cell volume", abs(np.linalg.det(a)), vol, 1e-8 * vol, k)
    for i, sel, n, d in spec:
        r = neigh(np.asarray(a), x, i, sel)
        mon.close("nearest neighbours", r[:n], np.full(n, d), 1e-7, k)
        mon.true("coordination number", r[n] > d + 1e-3, k)
    if k == "bcc":
        mon.eq("vacancies", [z[0] for z in M.bcc([None, "Cs"], a0)[1]], ["Cs"], k)
    mon.event("solid")
    mon.seen("solid", k)


# --- correlation functions of given density matrices


def run_corr(case, mon, rng, rs):
    from props.c22 import EB, sym_eri
    from vayesta.misc import corrfunc as M

    n = rng.choice([2, 3, 3, 4])
    uhf = rng.random() < 0.45
    mf = rng.random() < 0.35
    na = rng.randint(1, n)
    nb = rng.randint(1, n) if uhf else na
    eb = EB((n, n), (na, nb), 0, 0)
    h = []
    for s in (0, 1):
        x = rs.normal(size=(n, n))
        h.append(x + x.T)
    if not uhf:
        h[1] = h[0] + np.diag(np.arange(n) * 1.5)
        h[0] = h[1]
    if uhf and not mf and rng.random() < 0.5:
        c = rs.normal(size=eb.de)
        c /= np.linalg.norm(c)
    else:
        l = sym_eri(rs, n)
        eri = 0 if mf else 0.1 * np.einsum("Lpq,Lrs->pqrs", l, l)
        z = np.zeros((n,) * 4)
        e, v = np.linalg.eigh(eb.ham(h, [z + eri] * 3, np.zeros(0), [np.zeros((0, n, n))] * 2))
        if len(e) > 1 and e[1] - e[0] < 1e-3:
            return
        c = v[:, 0]
    dm1, dm2, _ = eb.dms(c)
    if not uhf and abs(dm1[0] - dm1[1]).max() > 1e-9:
        return
    if not uhf:
        # singlet states only
        sp = sum(np.einsum("ppqq->", dm2[i]) * f for i, f in ((0, 1), (1, -2), (2, 1))) + na + nb
        aa = (sum(dm2) + dm2[1].transpose(2, 3, 0, 1))
        aa = (aa - aa.transpose(0, 3, 2, 1)) / 6
        if abs(sp) > 1e-9 or abs(aa - dm2[0]).max() > 1e-9:
            return
    w = rng.choice(["none", "one", "two"])
    pr = []
    for _ in range(2):
        p = []
        for s in (0, 1):
            q = np.linalg.qr(rs.normal(size=(n, n)))[0][:, :rng.randint(1, n)]
            p.append(q @ q.T)
        if not uhf or rng.random() < 0.5:
            p[1] = p[0]
        pr.append(p)
    if w == "one":
        pr[1] = pr[0]
    if w == "none":
        pr = [[np.eye(n)] * 2] * 2
    arg = lambda p: p[0] if p[0] is p[1] and (not uhf or rng.random() < 0.5) else tuple(p)
    kw = {}
    if w != "none":
        kw["proj1"] = arg(pr[0])
    if w == "two":
        kw["proj2"] = arg(pr[1])
    num = [[np.einsum("pq,pqij->ij", p[s], eb.E[s]) for s in (0, 1)] for p in pr]
    ex = lambda a, b: (a.T @ c) @ (b @ c)
    sz = [(x[0] - x[1]) / 2 for x in num]
    nn = [x[0] + x[1] for x in num]
    tag = "uhf=%s mf=%s %s" % (uhf, mf, w)
    wss = ex(sz[0], sz[1])
    if uhf:
        mon.close("spin-spin", M.spinspin_z_unrestricted(tuple(dm1), None if mf else tuple(dm2), **kw), wss, 1e-9, tag)
        if mf:
            mon.close("spin-spin of a mean field", M.spinspin_z_mf_unrestricted(tuple(dm1), **kw), wss, 1e-9, tag)
        mon.close("spin", M.spin_z_unrestricted(tuple(dm1), **({"proj": kw["proj1"]} if "proj1" in kw else {})), c @ sz[0] @ c, 1e-9, tag)
        mon.event("ucorr")
    else:
        d1 = dm1[0] + dm1[1]
        d2 = dm2[0] + dm2[1] + dm2[1].transpose(2, 3, 0, 1) + dm2[2]
        mon.close("spin-spin", M.spinspin_z(d1, None if mf else d2, **kw), wss, 1e-9, tag)
        mon.close("spin", M.spin_z(d1), c @ sz[0] @ c, 1e-9, tag)
        for sub in (True, False):
            want = ex(nn[0], nn[1]) - (c @ nn[0] @ c) * (c @ nn[1] @ c) * sub
            mon.close("charge-charge", M.chargecharge(d1, None if mf else d2, subtract_indep=sub, **kw), want, 1e-8, tag)
    mon.event("corr")
    mon.seen("corr", tag)


# --- equation of state, block SVD


def run_eos(case, mon, rng, rs):
    from vayesta.tools import eos as M

    gpa = 4.3597447222e-18 / 1e-30 / 1e9
    v0, b, e0 = rng.uniform(8, 60), rng.uniform(50, 450), rng.uniform(-80, -1)
    par = rng.random() < 0.4
    bp = rng.uniform(2.5, 5.5)
    v = v0 * np.linspace(0.85, 1.15, rng.randint(6, 13)) * rng.uniform(0.98, 1.02)
    if par:
        e = e0 + 0.5 * (b / gpa) / v0 * (v - v0) ** 2
    else:
        x = (v0 / v) ** (2 / 3)
        e = e0 + 9 * v0 * (b / gpa) / 16 * ((x - 1) ** 3 * bp + (x - 1) ** 2 * (6 - 4 * x))
    if rng.random() < 0.4:
        o = rs.permutation(len(v))
        v, e = v[o], e[o]
    r = M.fit_eos(v, e, fitfunc=M.parabola if par else M.birch_murnaghan, plot=False)
    tag = "parabola" if par else "birch"
    mon.close("equilibrium energy", r.e0, e0, 1e-6, tag)
    mon.close("equilibrium volume", r.v0, v0, 1e-3 * v0, tag)
    mon.close("bulk modulus", r.b0, b, 5e-3 * b, tag)
    if not par:
        mon.close("derivative of the bulk modulus", float(np.asarray(r.bp)), bp, 2e-2 * bp, tag)
    mon.event("eos")
    mon.seen("eos", tag)


def run_bsvd(case, mon, rng, rs):
    from vayesta.core.linalg import recursive_block_svd

    m = rng.randint(4, 14)
    n = rng.randint(1, m - 2)
    a = rs.normal(size=(m, m))
    a = a + a.T
    kind = rng.choice(["dense", "chain", "blocks", "lowrank"])
    if kind == "chain":
        k = rng.randint(1, 2)
        a = np.where(abs(np.subtract.outer(np.arange(m), np.arange(m))) <= k, a, 0)
    if kind == "blocks":
        q = rng.randint(n, m - 1)
        a[:q, q:] = 0
        a[q:, :q] = 0
    if kind == "lowrank":
        v = rs.normal(size=(m, 2))
        a = v @ v.T + np.diag(rs.normal(size=m)) * (0 if rng.random() < 0.3 else 1)
    if kind in ("chain", "blocks"):
        # hide the structure of the environment
        u = np.eye(m)
        u[n:, n:] = np.linalg.qr(rs.normal(size=(m - n, m - n)))[0]
        a = u.T @ a @ u
    a0 = a.copy()
    mb = rng.choice([100, 100, 1, 2])
    tol = rng.choice([None, None, None, rng.uniform(0.1, 1.5)])
    c, sv, od = recursive_block_svd(a, n, maxblock=mb, **({} if tol is None else dict(tol=tol)))
    tag = "%s m=%d n=%d max=%d tol=%s" % (kind, m, n, mb, tol)
    if tol is not None:
        mon.true("singular values not below the tolerance", all(sv[np.isfinite(od)] >= tol - 1e-9), tag)
    mon.zero("argument unchanged", a - a0, 1e-15, tag)
    mon.zero("orthogonal", c.T @ c - np.eye(m - n), 1e-10, tag)
    u = np.eye(m)
    u[n:, n:] = c
    t = u.T @ a @ u
    o = np.concatenate([np.zeros(n), od])
    mon.true("orders ascend without gaps", all(np.diff(od[np.isfinite(od)]) >= 0) and set(od[np.isfinite(od)]) == set(range(1, 1 + len(set(od[np.isfinite(od)])))), "%s %s" % (tag, od))
    top = int(max(o[np.isfinite(o)]))
    for k in range(0, top + 1):
        cur, nxt = np.where(o == k)[0], np.where(o == k + 1)[0]
        far = np.where(o > k + 1)[0]
        if k < top or mb == 100:
            x = t[np.ix_(cur, far)]
            if tol is None:
                mon.zero("no coupling beyond the next order", x, 1e-8, tag)
            elif x.size:
                mon.true("no coupling above the tolerance beyond the next order", np.linalg.norm(x, 2) < tol + 1e-9, tag)
        if len(nxt):
            s = np.linalg.svd(t[np.ix_(cur, nxt)], compute_uv=False)
            mon.close("singular values", sv[nxt - n], np.sort(s)[::-1][:len(nxt)], 1e-8, tag)
            mon.close("couplings of orthogonal strength", t[np.ix_(cur, nxt)].T @ t[np.ix_(cur, nxt)], np.diag(sv[nxt - n] ** 2), 1e-8, tag)
    mon.event("bsvd")
    mon.seen("bsvd", tag)


# --- arrays


def parity(p):
    p = list(p)
    return -1 if sum(1 for i in range(len(p)) for j in range(i) if p[j] > p[i]) % 2 else 1


def run_arrays(case, mon, rng, rs):
    from vayesta.core import helper as H, util as U

    # decorated and ordered contractions
    n = [rng.randint(2, 4) for _ in range(4)]
    a, b, c = rs.normal(size=(n[0], n[1])), rs.normal(size=(n[1], n[2])), rs.normal(size=(n[2], n[3]))
    d = rs.normal(size=(n[0], n[3]))
    for s, ref, ops in (("aB,Bc,cD->aD", "ij,jk,kl->il", (a, b, c)), ("i!j,jk,kl->i!l", "ij,jk,kl->il", (a, b, c)),
                        ("(ij,jk),kl->il", "ij,jk,kl->il", (a, b, c)), ("ij,[jk,kl]->il", "ij,jk,kl->il", (a, b, c)), ("{(i$j,jk->i$k),kl->i$l},i$l->", "ij,jk,kl,il->", (a, b, c, d)),
                        ("i1i2,i2i3,i3i4->i4i1", "ij,jk,kl->li", (a, b, c)), ("(ij,jk),(kl,il)->", "ij,jk,kl,il->", (a, b, c, d))):
        mon.close("contraction", U.einsum(s, *ops), np.einsum(ref, *ops), 1e-10, s)
    mon.true("scalars", np.ndim(U.einsum("ij,ij->", a, a)) == 0 and not isinstance(U.einsum("ij,ij->", a, a), np.ndarray))
    mon.close("product", U.dot(a, None, b, c, None, ignore_none=True), a @ b @ c, 1e-10)
    mon.close("stacking", U.hstack(a, None, d), np.hstack([a, d]), 1e-15)
    mon.close("stacking", U.hstack(a, 0 * d, None, d, d[:, :0]), np.hstack([a, 0 * d, d]), 1e-15)
    mon.event("einsum")
    # permutation symmetry
    k = rng.randint(1, 3)
    m = rng.randint(k, 5)
    inc = rng.random() < 0.4
    got = list(zip(*[x.tolist() for x in U.tril_indices_ndim(m, k, include_diagonal=inc)]))
    want = [i for i in itertools.product(range(m), repeat=k) if all((x >= y) if inc else (x > y) for x, y in zip(i[:-1], i[1:]))]
    mon.eq("lower-triangular indices", got, want, "n=%d dims=%d %s" % (m, k, inc))
    ps = U.permutations_with_signs(list(range(k + 1)))
    mon.eq("permutations", sorted(tuple(p) for p, _ in ps), sorted(itertools.permutations(range(k + 1))))
    mon.true("signs of permutations", all(s == parity(p) for p, s in ps))
    for sub, sy in (("iiaa", "----"), ("iiiaaa", None), ("iaia", None), ("ijab", None), ("iiab", "++--"), ("iia", None), ("aiia", None), ("iiaa", "++++")):
        sz = {ch: rng.randint(3, 4) for ch in set(sub)}
        symm = sy or "-" * len(sub)
        full = rs.normal(size=[sz[ch] for ch in sub])
        out = np.zeros_like(full)
        grp = {ch: [i for i, x in enumerate(sub) if x == ch] for ch in sub}
        # symmetrise over the axes with the same letter; the sign string follows the letters in the order of their appearance
        order = list(dict.fromkeys(sub))
        pos, sg = 0, {}
        for ch in order:
            sg[ch] = symm[pos]
            pos += len(grp[ch])
        for ps in itertools.product(*[itertools.permutations(range(len(grp[ch]))) for ch in order]):
            ax = list(range(len(sub)))
            f = 1
            for ch, p in zip(order, ps):
                for i, q in zip(grp[ch], p):
                    ax[i] = grp[ch][q]
                f *= parity(p) if sg[ch] == "-" else 1
            out = out + f * full.transpose(ax)
        diag = all(sg[ch] == "+" for ch in order)
        if any(sg[ch] == "+" for ch in order if len(grp[ch]) > 1) and not diag:
            # a mixture of signs: repeated indices are not stored, and stay zero
            for ch in order:
                for i, j in itertools.combinations(grp[ch], 2):
                    ix = [slice(None)] * len(sub)
                    w = np.arange(sz[ch])
                    mask = np.ones((sz[ch],) * 2)
                    mask[w, w] = 0
                    sh = [1] * len(sub)
                    sh[i] = sh[j] = sz[ch]
                    out = out * mask.reshape(sh)
        use = diag
        # flat: letters in order of appearance, lower triangle per letter
        ind = [[i for i in itertools.product(range(sz[ch]), repeat=len(grp[ch])) if all((x >= y) if use else (x > y) for x, y in zip(i[:-1], i[1:]))] for ch in order]
        flat = np.empty([len(x) for x in ind])
        for ii in itertools.product(*[range(len(x)) for x in ind]):
            full_i = [0] * len(sub)
            for ch, q, x in zip(order, ii, ind):
                for ax, v in zip(grp[ch], x[q]):
                    full_i[ax] = v
            flat[ii] = out[tuple(full_i)]
        res = U.decompress_axes(sub, flat, out.shape, include_diagonal=use, symmetry=sy)
        mon.close("decompressed amplitudes", res, out, 1e-12, "%s %s" % (sub, sy))
    mon.event("decompress")
    # blocks
    lo, hi, st = rng.randint(0, 5), rng.randint(0, 30), rng.randint(1, 40)
    mn, mx = rng.randint(1, 3), rng.choice([None, rng.randint(3, 9)])
    bl = list(U.brange(lo, hi, st, minstep=mn, maxstep=mx))
    mon.eq("blocks cover the range in order", [i for x in bl for i in range(x.start, x.stop)], list(range(lo, hi)), "%s" % ((lo, hi, st, mn, mx),))
    if bl:
        size = max(x.stop - x.start for x in bl)
        mon.true("size of blocks", size <= max(st, mn) and (mx is None or size <= mx) and all(x.stop - x.start == size for x in bl[:-1]), "%s" % ((lo, hi, st, mn, mx),))
    x = rs.normal(size=[rng.randint(1, 9) for _ in range(3)])
    ax = rng.randint(-3, 2)
    kw = dict(blocksize=rng.randint(1, 10)) if rng.random() < 0.5 else dict(max_memory=rng.randint(8, 4000))
    parts = list(U.split_into_blocks(x, axis=ax, **kw))
    mon.close("blocks of an array", np.concatenate([p for _, p in parts], axis=ax), x, 0.0 + 1e-15, "%s" % kw)
    for s, p in parts:
        ix = [slice(None)] * 3
        ix[ax] = s
        mon.true("slices of an array", np.array_equal(x[tuple(ix)], p), "%s" % kw)
    mon.event("blocks")
    # orbital signs
    z = rs.normal(size=(rng.randint(1, 6), rng.randint(1, 6)))
    for f in (U.fix_orbital_sign, H.orbital_sign_convention):
        z0 = z.copy()
        inp = rng.random() < 0.4
        y, s = f(z0, inplace=inp)
        mon.close("orbital signs", y, z * s, 0.0 + 1e-15)
        mon.true("largest coefficient is positive", all(y[abs(y).argmax(0), range(y.shape[1])] > 0))
        mon.true("in place", (y is z0) if inp else np.array_equal(z0, z))
    (ya, yb), (sa, sb) = U.fix_orbital_sign((z, -z), inplace=False)
    mon.close("orbital signs of both spins", [ya, yb], [z * sa, -z * sb], 0.0 + 1e-15)
    # packing
    arr = []
    for _ in range(rng.randint(1, 6)):
        t = rng.choice(["none", "f", "i", "c", "e", "0"])
        sh = tuple(rng.randint(1, 4) for _ in range(rng.randint(1, 4)))
        arr.append(dict(none=None, f=rs.normal(size=sh), i=rs.integers(-9, 9, size=sh), c=rs.normal(size=sh) + 1j * rs.normal(size=sh), e=np.zeros((0, 3)), **{"0": np.asarray(3.5)})[t])
        if t == "c":
            arr.pop()
        elif arr[-1] is not None and rng.random() < 0.5:
            arr[-1] = rng.choice([np.asfortranarray, np.transpose])(arr[-1])
    out = H.unpack_arrays(H.pack_arrays(*arr)) if arr else []
    mon.eq("number of packed arrays", len(out), len(arr))
    for p, q in zip(out, arr):
        mon.true("packed arrays", (p is None) == (q is None) and (q is None or (p.dtype == q.dtype and p.shape == q.shape and np.array_equal(p, q))), "%s" % (None if q is None else (q.dtype, q.shape),))
    mon.event("packed")
    mon.seen("arrays", case["rs"])


def run_orbitals(case, mon, rng, rs):
    from vayesta.core.types.orbitals import Orbitals, SpatialOrbitals, SpinOrbitals

    uhf = rng.random() < 0.5
    n, no = rng.randint(2, 6), [0, 0]
    nm = [rng.randint(1, n) for _ in (0, 1)]
    no = [rng.randint(0, m) for m in nm]
    co = [rs.normal(size=(n, m)) for m in nm]
    en = [rs.normal(size=m) for m in nm]
    oc = [np.array([1.0] * k + [0.0] * (m - k)) for k, m in zip(no, nm)]
    ints = rng.random() < 0.4
    if uhf:
        o = Orbitals(tuple(co), energy=tuple(en), occ=tuple(no) if ints else tuple(oc))
        mon.eq("class", type(o).__name__, "SpinOrbitals")
        mon.eq("numbers of orbitals", (o.norb, o.nocc, o.nvir, o.nelec), (tuple(nm), tuple(no), (nm[0] - no[0], nm[1] - no[1]), tuple(no)))
        parts = [(o.alpha, 0), (o.beta, 1)]
    else:
        o = Orbitals(co[0], energy=en[0], occ=no[0] if ints else 2 * oc[0])
        mon.eq("class", type(o).__name__, "SpatialOrbitals")
        mon.eq("numbers of orbitals", (o.norb, o.nocc, o.nvir, o.nelec), (nm[0], no[0], nm[0] - no[0], 2 * no[0]))
        parts = [(o, 0)]
        s = o.to_spin_orbitals()
        for x in (s.alpha, s.beta):
            mon.close("spin orbitals of spatial orbitals", x.coeff, co[0], 1e-15)
            mon.eq("electrons per spin", (x.nocc, x.nelec), (no[0], no[0]))
    for x, i in parts:
        mon.close("occupied orbitals", x.coeff_occ, co[i][:, :no[i]], 1e-15)
        mon.close("virtual orbitals", x.coeff_vir, co[i][:, no[i]:], 1e-15)
    u = type(o).unpack(o.pack())
    c = o.copy()
    for y in (u, c):
        ps = [(y.alpha, 0), (y.beta, 1)] if uhf else [(y, 0)]
        for x, i in ps:
            mon.close("copied or communicated orbitals", x.coeff, co[i], 1e-15)
            mon.close("copied or communicated energies", x.energy, en[i], 1e-15)
            mon.close("copied or communicated occupations", x.occ, oc[i] * (1 if uhf else 2), 1e-15)
    t = rs.normal(size=(3, n))
    inp = rng.random() < 0.5
    b = o.basis_transform(lambda x: t @ x, inplace=inp)
    for x, i in ([(b.alpha, 0), (b.beta, 1)] if uhf else [(b, 0)]):
        mon.close("transformed orbitals", x.coeff, t @ co[i], 1e-12)
    for x, i in parts:
        mon.close("in place", x.coeff, t @ co[i] if inp else co[i], 1e-12)
    for x, i in ([(c.alpha, 0), (c.beta, 1)] if uhf else [(c, 0)]):
        mon.close("copies are independent", x.coeff, co[i], 1e-15)
    mon.event("orbitals")
    mon.seen("orbitals", (uhf, n, tuple(nm), tuple(no)))
