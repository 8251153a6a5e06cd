"""C04: fragments generated by symmetry give the same results as the same fragments added one by one."""
import math
import random

import numpy as np

from lib import ref, systems as S
from lib.mon import Skip

RULE = ("one system with a declared spatial symmetry, solved once with symmetry-derived fragments and once with all fragments explicit, "
        "compared; distinct = (symmetry type(s), system, basis, spin, solver, bath)")
BUDGET = {"quick": 150, "thorough": 1500}
NEED = {"pair:rotation": 6, "pair:inversion": 4, "pair:mirror": 4, "pair:nested": 4, "pair:translation": 3, "pair:kpts": 2, "pair:ksym": 2, "uhf": 6,
        "rejected": 6, "child": 60}
ASSUMPTIONS = ["the geometries are symmetric to 1e-9 Angstrom and the mean-field is converged tightly"]


def rot(axis, th):
    a = np.asarray(axis, float)
    a = a / np.linalg.norm(a)
    k = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + math.sin(th) * k + (1 - math.cos(th)) * (k @ k)


def sym_system(rng, kind):
    """(symbols, coordinates, symmetry contexts, parents). Coordinates in Angstrom; contexts from outer to inner."""
    q = rot([rng.gauss(0, 1) for _ in range(3)], rng.uniform(0, 3))
    t = np.array([rng.uniform(-1, 1) for _ in range(3)])
    if kind == "rotation":
        n = rng.choice([2, 3, 4, 6, 3])
        r = 1.0 / (2 * math.sin(math.pi / n)) * rng.uniform(0.95, 1.1)
        ring = [[r * math.cos(2 * math.pi * k / n), r * math.sin(2 * math.pi * k / n), 0] for k in range(n)]
        sy, xyz = ["H"] * n, ring
        par = [0]
        if n == 3:
            if rng.random() < 0.5:
                sy, xyz = ["N"] + sy, [[0, 0, 0.4]] + [[1.6 * x for x in c[:2]] + [0.0] for c in ring]
                par = [[0], 1]
            else:  # two H3 rings, twisted: chiral
                sy = ["H"] * 6
                th = 0.5
                xyz = ring + [[r * math.cos(2 * math.pi * k / n + th), r * math.sin(2 * math.pi * k / n + th), 1.3] for k in range(n)]
                par = [0, 3]
        if n == 2:
            sy = ["H", "F", "H", "F"] if rng.random() < 0.4 else ["H", "H", "H", "H"]
            xyz = [[0.9, 0.3, 0.2], [1.7, -0.5, -0.3], [-0.9, -0.3, 0.2], [-1.7, 0.5, -0.3]]
            par = [0, 1]
        ctx = [["rotation", n, [0, 0, 1], [0, 0, 0]]]
    elif kind == "inversion":
        c = rng.choice(["n2", "h4", "lih2"])
        if c == "n2":
            sy, xyz, par = ["N", "N"], [[0, 0, 0.55], [0, 0, -0.55]], [0]
        elif c == "h4":
            sy, par = ["H"] * 4, [0, 1]
            xyz = [[0.8, 0.1, 0.3], [0.2, 0.9, -0.4], [-0.8, -0.1, -0.3], [-0.2, -0.9, 0.4]]
        else:
            sy, par = ["Li", "H", "Li", "H"], [0, 1]
            xyz = [[1.1, 0.3, 0], [0.5, -1.2, 0.4], [-1.1, -0.3, 0], [-0.5, 1.2, -0.4]]
        ctx = [["inversion", [0, 0, 0]]]
    elif kind == "mirror":
        c = rng.choice(["h2o", "h4", "nh3"])
        if c == "h2o":
            sy, xyz = S.GEOM["h2o"]
            par = [[0], 1]
            ctx = [["mirror", [0, 1, 0], [0, 0, 0]]]
        elif c == "nh3":
            sy, xyz = S.GEOM["nh3"]
            par = [[0], [1], 2]
            ctx = [["mirror", [1, 0, 0], [0, 0, 0]]]
        else:
            sy = ["H"] * 4
            xyz = [[0.5, 0.1, 0], [0.7, 1.1, 0.3], [-0.5, 0.1, 0], [-0.7, 1.1, 0.3]]
            par = [0, 1]
            ctx = [["mirror", [1, 0, 0], [0, 0, 0]]]
    else:  # nested
        c = rng.choice(["rect", "prism", "octant"])
        if c == "rect":
            sy, xyz = ["H"] * 4, [[a * 0.5, b * 0.7, 0] for a in (1, -1) for b in (1, -1)]
            par, ctx = [0], [["mirror", [1, 0, 0], [0, 0, 0]], ["mirror", [0, 1, 0], [0, 0, 0]]]
        elif c == "prism":
            r = 0.75
            sy = ["H"] * 6
            xyz = [[r * math.cos(2 * math.pi * k / 3), r * math.sin(2 * math.pi * k / 3), z] for z in (0.6, -0.6) for k in range(3)]
            par, ctx = [0], [["mirror", [0, 0, 1], [0, 0, 0]], ["rotation", 3, [0, 0, 1], [0, 0, 0]]]
            if rng.random() < 0.5:
                ctx = ctx[::-1]
        else:
            sy = ["H"] * 8
            xyz = [[a * 0.55, b * 0.7, cc * 0.85] for a in (1, -1) for b in (1, -1) for cc in (1, -1)]
            par = [0]
            ctx = [["mirror", [1, 0, 0], [0, 0, 0]], ["rotation", 2, [1, 0, 0], [0, 0, 0]], ["inversion", [0, 0, 0]]]
            ctx = [["mirror", [1, 0, 0], [0, 0, 0]], ["mirror", [0, 1, 0], [0, 0, 0]], ["mirror", [0, 0, 1], [0, 0, 0]]]
    mv = lambda v, point=True: (q @ np.asarray(v, float) + (t if point else 0)).tolist()
    out = []
    for c in ctx:
        c = list(c)
        if c[0] == "rotation":
            c[2], c[3] = mv(c[2], False), mv(c[3])
        elif c[0] == "mirror":
            c[1], c[2] = mv(c[1], False), mv(c[2])
        else:
            c[1] = mv(c[1])
        out.append(c)
    return sy, [mv(x) for x in xyz], out, par


def cases(rng, tier):
    out = []
    n = 56 if tier == "quick" else 500
    for i in range(n):
        kind = ["rotation", "inversion", "mirror", "nested"][i % 4]
        sy, xyz, ctx, par = sym_system(rng, kind)
        el = set(sy)
        natm = len(sy)
        basis = "sto-3g" if natm > 4 or not el <= {"H"} else rng.choice(["6-31g", "cc-pvdz" if natm <= 4 else "6-31g", "6-31g**" if natm <= 3 else "6-31g"])
        if el & {"N", "O"} and natm <= 3:
            basis = rng.choice(["6-31g", "6-31g*"])
        nel = sum({"H": 1, "He": 2, "Li": 3, "N": 7, "O": 8, "F": 9}[x] for x in sy)
        uhf = nel % 2 == 1 or rng.random() < 0.35
        charge = 1 if nel % 2 == 1 and rng.random() < 0.0 else 0
        spin = nel % 2
        if uhf and not spin and rng.random() < 0.3:
            spin = 2
        sp = dict(type="mol", name=kind, atom=[[a, c] for a, c in zip(sy, xyz)], basis=basis, df=True if rng.random() < 0.3 else None,
                  uhf=uhf, charge=charge, spin=spin)
        out.append(dict(kind=kind, sys=sp, ctx=ctx, par=par, solver=rng.choice(["MP2", "CCSD", "CCSD", "FCI" if basis == "sto-3g" and natm <= 4 and nel < 8 else "CCSD"]),
                        frag=rng.choice(["iao", "sao"]), bath=rng.choice(["mp2", "dmet", "mp2"]), unit=rng.choice(["Ang", "Bohr"]),
                        rs=rng.randrange(10 ** 6), w=3))
    for i in range(6 if tier == "quick" else 40):
        # higher angular momenta: a helium orbit under one operation
        q = rot([rng.gauss(0, 1) for _ in range(3)], rng.uniform(0, 3))
        kind = ["rotation", "mirror", "inversion"][i % 3]
        n = rng.choice([2, 3, 5]) if kind == "rotation" else 2
        ax, ce = q @ np.array([0, 0, 1.0]), np.array([0.3, -0.2, 0.1])
        p0 = ce + q @ np.array([1.1, 0.3, 0.7])
        nv = ax / np.linalg.norm(ax)
        if kind == "rotation":
            xyz = [(rot(ax, 2 * math.pi * k / n) @ (p0 - ce) + ce).tolist() for k in range(n)]
            ctx = [["rotation", n, ax.tolist(), ce.tolist()]]
        elif kind == "mirror":
            xyz = [p0.tolist(), (p0 - 2 * nv * np.dot(nv, p0 - ce)).tolist()]
            ctx = [["mirror", ax.tolist(), ce.tolist()]]
        else:
            xyz = [p0.tolist(), (2 * ce - p0).tolist()]
            ctx = [["inversion", ce.tolist()]]
        sp = dict(type="mol", name=kind, atom=[["He", c] for c in xyz], basis="ano@3s2p1d" if i % 6 in (1, 2) or (i >= 6 and rng.random() < 0.4) else "cc-pvqz" if n == 2 and i % 2 else "cc-pvtz", df=None, uhf=bool(i % 2), charge=0, spin=0)
        out.append(dict(kind=kind, sys=sp, ctx=ctx, par=[0], solver="MP2", frag="sao", bath=rng.choice(["dmet", "mp2"]), unit=rng.choice(["Ang", "Bohr"]),
                        rs=rng.randrange(10 ** 6), w=5, ang=1))
    for i in range(6 if tier == "quick" else 40):
        two = i % 3 == 2
        out.append(dict(kind="translation", n=rng.choice([6, 8, 10]), two=two, u=round(rng.uniform(1, 6), 3), frag_n=rng.choice([1, 2]) if not two else 1,
                        solver=rng.choice(["MP2", "CCSD", "FCI"]), boundary=rng.choice(["PBC", "APBC"]), uhf=bool(i % 2), rs=rng.randrange(10 ** 6)))
    for i in range(4 if tier == "quick" else 20):
        sp = S.cell(rng, rng.choice(["h2", "he", "h2"]), rng.choice([(2, 1, 1), (1, 1, 3), (1, 2, 1)]), basis="6-31g", uhf=bool(i % 2), skew=bool((i // 2) % 2))
        out.append(dict(kind="kpts", sys=sp, solver=rng.choice(["MP2", "CCSD"]), rs=rng.randrange(10 ** 6), frag=rng.choice(["iao", "sao"]), w=8))
    for i in range(6 if tier == "quick" else 48):
        sp, op = sym_cell(rng, i)
        out.append(dict(kind="ksym", sys=sp, op=op, solver=rng.choice(["MP2", "CCSD"]), rs=rng.randrange(10 ** 6), frag=rng.choice(["iao", "sao"]), w=8))
    return out


def sym_cell(rng, i):
    """Primitive cell with a pair of atoms related by a point operation; k-point mesh; operation in some unit."""
    op = ["inversion", "mirror", "rotation"][i % 3]
    a = rng.uniform(2.7, 3.2)
    sy = rng.choice(["H", "H", "He"])
    d = 0.4 if sy == "H" else 0.75
    c = np.array([rng.uniform(0.9, 1.3) for _ in range(3)])
    if op == "inversion":
        if i % 2:
            h = a * 0.8
            lat = [[0, h, h], [h, 0, h], [h, h, 0]]
        else:
            lat = [[a, 0, 0], [0.3 * a, 1.05 * a, 0], [0.1 * a, 0.2 * a, 1.1 * a]]
        v = np.array([0.5, 0.2, 0.8]) * d
        at = [c + v, c - v]
    else:
        lat = [[a, 0, 0], [0.3 * a, 1.05 * a, 0], [0, 0, 1.1 * a]] if rng.random() < 0.6 else [[0.2 * a, a, 0], [1.05 * a, 0, 0], [0, 0, 1.1 * a]]
        v = np.array([0, 0, d]) if op == "mirror" else np.array([d * 0.8, d * 0.6, 0])
        at = [c + v, c - v]
    lat = np.asarray(lat)
    mesh = rng.choice([(2, 1, 1), (1, 2, 1), (1, 1, 2), (1, 1, 3), (3, 1, 1)])
    unit = rng.choice(["Ang", "Bohr", "latvec"])
    axis = np.array([0, 0, 1.0])
    if op != "inversion":  # arbitrary orientation
        q = rot([rng.gauss(0, 1) for _ in range(3)], rng.uniform(0.3, 3))
        lat, axis, c, at = lat @ q.T, q @ axis, q @ c, [q @ x for x in at]
        if op == "mirror" and i == 1:
            unit = "latvec"
    fac = {"Ang": np.eye(3), "Bohr": np.eye(3) / 0.529177210903, "latvec": np.linalg.inv(lat)}[unit]
    sp = dict(type="cell", name="sym" + op, atom=[[sy, x.tolist()] for x in at], a=lat.tolist(), kmesh=list(mesh), basis=rng.choice(["6-31g", "6-31g**"] if sy == "He" else ["6-31g"]),
              uhf=bool(rng.random() < 0.4), dim=3, df="gdf", exxdiv="ewald", spin=0)
    return sp, [op, (axis @ fac).tolist(), (c @ fac).tolist(), unit]


def apply_ctx(f, ctx, unit):
    fac = 1 if unit == "Ang" else 1 / 0.529177210903
    sc = lambda v: (np.asarray(v) * fac).tolist()
    if ctx[0] == "rotation":
        return f.rotational_symmetry(ctx[1], ctx[2], center=sc(ctx[3]), unit=unit)
    if ctx[0] == "inversion":
        return f.inversion_symmetry(center=sc(ctx[1]), unit=unit)
    return f.mirror_symmetry(ctx[1], center=sc(ctx[2]), unit=unit)


def orbit(xyz, ctx, a):
    """Images of an atom under the declared symmetries, in order of generation."""
    x = np.asarray(xyz)

    def at(p):
        d = np.linalg.norm(x - p, axis=1)
        assert d.min() < 1e-6
        return int(np.argmin(d))

    frs = [a]
    for c in ctx[::-1]:
        new = []
        for f in frs:
            if c[0] == "rotation":
                for k in range(1, c[1]):
                    new.append(at(rot(c[2], 2 * math.pi * k / c[1]) @ (x[f] - np.asarray(c[3])) + np.asarray(c[3])))
            elif c[0] == "inversion":
                new.append(at(2 * np.asarray(c[1]) - x[f]))
            else:
                nv = np.asarray(c[1]) / np.linalg.norm(c[1])
                new.append(at(x[f] - 2 * nv * np.dot(nv, x[f] - np.asarray(c[2]))))
        frs = frs + new
    return frs


def options(case):
    so = dict(conv_tol=1e-13 if case["solver"] == "FCI" else 1e-10)
    if case["solver"] == "CCSD":
        so["conv_tol_normt"] = 1e-8
    return so


def compare(mon, e1, e2, case, label, d):
    """e1: with symmetry, e2: explicit."""
    solver = case["solver"]
    tol = 1e-5 if solver == "FCI" else 1e-6
    mon.close("%s: energy equals explicit fragments" % label, e1.e_tot, e2.e_tot, tol, d)
    mon.eq("%s: same number of fragments" % label, len(e1.fragments), len(e2.fragments), d)
    uhf = not e1.is_rhf
    s = np.asarray(e1.get_ovlp())
    # children span the same space as explicit fragments
    ex = [np.hstack([np.asarray(c) for c in ([f.c_frag] if not uhf else f.c_frag)]) if False else f.c_frag for f in e2.fragments]
    for f in e1.fragments:
        c = f.c_frag if uhf else (f.c_frag,)
        best = min(max(ref.span_err(np.asarray(c[k]), np.asarray((x if uhf else (x,))[k]), s) if np.asarray(c[k]).shape == np.asarray((x if uhf else (x,))[k]).shape else 9.0
                       for k in range(len(c))) for x in ex)
        mon.close("%s: each fragment spans an explicit fragment" % label, best, 0.0, 1e-4, "%s %s" % (f, d))
        if f.sym_parent is not None:
            mon.event("child")
    mon.event("pair:" + label)
    mon.event("uhf" if uhf else "rhf")
    if solver in ("MP2", "CCSD"):
        amp = (lambda e: (e.get_global_t1(), e.get_global_t2())) if solver == "CCSD" else (lambda e: (e.get_global_t2(),))
        for a, b in zip(amp(e1), amp(e2)):
            mon.close("%s: global amplitudes equal explicit fragments" % label, a, b, 5e-5, d)
        a, b = e1.make_rdm1(ao_basis=True), e2.make_rdm1(ao_basis=True)
        mon.close("%s: 1-DM equals explicit fragments" % label, a, b, 5e-5, d)
        mon.close("%s: energy from the density matrix equals explicit fragments" % label, e1.get_e_corr("dm") if solver == "CCSD" else 0.0,
                  e2.get_e_corr("dm") if solver == "CCSD" else 0.0, 5e-6, d)
    if solver in ("MP2", "CCSD") and case.get("bath") == "mp2" and e1.is_rhf:
        mon.close("%s: finite-bath correction equals explicit fragments" % label, e1.get_fbc_energy(), e2.get_fbc_energy(), 1e-6, d)
    if solver in ("MP2", "CCSD") and len(e1.fragments) <= 8:
        for kind in ("Sz,Sz",) if uhf else ("Sz,Sz", "dN,dN", "N,N"):
            a, b = (np.asarray(e.get_corrfunc(kind)) for e in (e1, e2))
            mon.close("%s: %s correlation function equals explicit fragments" % (label, kind), a, b, 1e-4, d)
    if solver in ("CCSD", "FCI"):
        mon.close("%s: partitioned energy equals explicit fragments" % label, e1.get_dmet_energy(), e2.get_dmet_energy(), 5e-5 if solver == "FCI" else 5e-6, d)
        a, b = e1.make_rdm1_demo(ao_basis=True), e2.make_rdm1_demo(ao_basis=True)
        mon.close("%s: partitioned 1-DM equals explicit fragments" % label, a, b, 2e-4, d)


def run(case, mon):
    return {"translation": run_trans, "kpts": run_kpts, "ksym": run_kpts}.get(case["kind"], run_mol)(case, mon)


def run_mol(case, mon):
    import vayesta.ewf
    from pyscf import scf

    sp = case["sys"]
    mf = S.get_mf(sp)
    if S.gap(mf) < 0.12:
        raise Skip("gap")
    rng = random.Random(case["rs"])
    xyz = [a[1] for a in sp["atom"]]
    # does the mean-field obey the symmetry?  (site charges and spins of the images, independent of the package)
    s = mf.get_ovlp()
    dm = np.asarray(mf.make_rdm1())
    dm = dm if dm.ndim == 3 else dm[None]
    x = np.linalg.inv(ref.lowdin(s))
    pops = []
    for q in dm:
        p = np.diag(x @ q @ x)
        pops.append([p[a:b].sum() for a, b in mf.mol.aoslice_by_atom()[:, 2:]])
    pops = np.asarray(pops)
    groups = [orbit(xyz, case["ctx"], p) for p in case["par"] if not isinstance(p, list)]
    sym = all(abs(pops[:, g] - pops[:, g[:1]]).max() < 1e-6 for g in groups)
    if not sym and all(abs(pops[:, g] - pops[:, g[:1]]).max() < 1e-3 for g in groups):
        raise Skip("unclear symmetry of the mean-field")
    mo_sym = sym and mf_symmetric(mf, case["ctx"])
    if sym and not mo_sym:
        raise Skip("density not symmetric although populations are")
    bath = dict(bathtype="dmet") if case["bath"] == "dmet" else dict(bathtype="mp2", threshold=10 ** rng.uniform(-5, -3.3))

    def embed(use):
        emb = vayesta.ewf.EWF(mf, solver=case["solver"], bath_options=bath, solver_options=options(case))
        with (emb.iao_fragmentation() if case["frag"] == "iao" else emb.sao_fragmentation()) as f:
            for p in case["par"]:
                if isinstance(p, list):
                    f.add_atomic_fragment(p)
                elif not use:
                    for a in orbit(xyz, case["ctx"], p):
                        f.add_atomic_fragment(a)
            if use:
                import contextlib

                with contextlib.ExitStack() as st:
                    for c in case["ctx"]:
                        st.enter_context(apply_ctx(f, c, case["unit"]))
                    for p in case["par"]:
                        if not isinstance(p, list):
                            f.add_atomic_fragment(p)
        return emb

    d = "%s %s %s %s %s %s" % (case["ctx"], [a[0] for a in sp["atom"]], sp["basis"], case["solver"], case["frag"], bath)
    if not sym:
        mon.raises("a mean-field without the declared symmetry is rejected", lambda: embed(True), RuntimeError, d)
        mon.event("rejected")
        return
    # threshold close to an eigenvalue would make the comparison ambiguous: the explicit run is repeated for every image, so sizes must agree
    e2 = embed(False)
    e2.kernel()
    sizes = {}
    fr = iter(e2.fragments)
    byatom = {f.name: f for f in e2.fragments}
    e1 = embed(True)
    e1.kernel()
    if not (e1.converged and e2.converged):
        raise Skip("not converged")
    par_sizes = [f.cluster.norb_active for f in e1.fragments if f.sym_parent is None for _ in range(f.symmetry_factor)]
    ex_sizes = [f.cluster.norb_active for f in e2.fragments]
    if sorted(map(str, par_sizes)) != sorted(map(str, ex_sizes)) and case["bath"] == "mp2":
        # thresholds within rounding of an occupation
        raise Skip("ambiguous bath threshold")
    compare(mon, e1, e2, case, case["kind"], d)
    mon.seen(case["kind"], case["ctx"][0][0], len(case["ctx"]), "".join(a[0] for a in sp["atom"]), sp["basis"], case["solver"], case["bath"])
    # geometry without the symmetry
    at = [[a, list(c)] for a, c in sp["atom"]]
    first = [p for p in case["par"] if not isinstance(p, list)][0]
    at[first][1][0] += 0.02
    mf_b = S.get_mf(dict(sp, atom=at), cache=False)

    def bad():
        emb = vayesta.ewf.EWF(mf_b, solver="MP2", bath_options=dict(bathtype="dmet"))
        with emb.sao_fragmentation() as f:
            with apply_ctx(f, case["ctx"][0], case["unit"]):
                f.add_atomic_fragment(first)

    mon.raises("a geometry without the declared symmetry is rejected", bad, RuntimeError, d)
    mon.event("rejected")


def mf_symmetric(mf, ctxs):
    """Evaluate the (spin) density at random points and their images: independent test that the mean-field is symmetric."""
    from pyscf.dft import numint

    rs = np.random.RandomState(1)
    pts = rs.normal(size=(40, 3)) * 1.5 + mf.mol.atom_coords().mean(axis=0)
    dm = np.asarray(mf.make_rdm1())
    dm = dm if dm.ndim == 3 else dm[None]

    def rho(p):
        ao = numint.eval_ao(mf.mol, p)
        return np.asarray([np.einsum("pi,ij,pj->p", ao, q, ao) for q in dm])

    r0 = rho(pts)
    b = 1 / 0.529177210903
    for c in ctxs:
        if c[0] == "rotation":
            ce = np.asarray(c[3]) * b
            im = (pts - ce) @ rot(c[2], 2 * math.pi / c[1]).T + ce
        elif c[0] == "inversion":
            im = 2 * np.asarray(c[1]) * b - pts
        else:
            nv = np.asarray(c[1]) / np.linalg.norm(c[1])
            ce = np.asarray(c[2]) * b
            im = pts - 2 * np.outer((pts - ce) @ nv, nv)
        if abs(rho(im) - r0).max() > 1e-6:
            return False
    return True


def run_trans(case, mon):
    import vayesta.ewf
    import vayesta.lattmod as lm

    rng = random.Random(case["rs"])
    if case["two"]:
        n = 4
        mol = lm.Hubbard2D((n, n), nelectron=n * n - 6, hubbard_u=case["u"], boundary=(case["boundary"],) * 2)
        trans = (n, n, 1)
        frag = [[0]]
        explicit = [[i] for i in range(n * n)]
        # closed shell needed
    else:
        n = case["n"]
        bd = "PBC" if n % 4 == 2 else "APBC"
        mol = lm.Hubbard1D(n, nelectron=n, hubbard_u=case["u"], boundary=bd)
        k = case["frag_n"]
        trans = (n // k, 1, 1)
        frag = [list(range(k))]
        explicit = [list(range(i, i + k)) for i in range(0, n, k)]
    e = np.linalg.eigvalsh(mol.h1e)
    no = mol.nelectron // 2
    if e[no] - e[no - 1] < 0.1:
        # shift the filling to a closed shell
        gaps = [(i, e[i] - e[i - 1]) for i in range(2, len(e) - 1)]
        no = max(gaps, key=lambda g: g[1])[0]
        mol.nelectron = 2 * no
        if case["two"]:
            mol = lm.Hubbard2D((n, n), nelectron=2 * no, hubbard_u=case["u"], boundary=(case["boundary"],) * 2)
        else:
            raise Skip("open shell filling")
    mf = lm.LatticeRHF(mol)
    mf.conv_tol = 1e-11
    mf.kernel()
    occ = np.diag(mf.make_rdm1())
    if abs(occ - occ[0]).max() > 1e-7 or not mf.converged:
        raise Skip("mean-field not lattice symmetric")
    if case["uhf"]:
        mf = mf.to_uhf() if hasattr(lm, "none") else to_uhf(lm, mol, mf)
    solver = case["solver"]
    if solver == "CCSD" and case["u"] > 4:
        solver = "FCI" if case["frag_n"] <= 2 else "MP2"
    case = dict(case, solver=solver)
    embs = []
    for use in (True, False):
        emb = vayesta.ewf.EWF(mf, solver=solver, bath_options=dict(bathtype="dmet"), solver_options=options(case))
        with emb.site_fragmentation() as f:
            for g in (frag if use else explicit):
                f.add_atomic_fragment(g)
        if use:
            emb.fragments[0].add_tsymmetric_fragments(tvecs=trans)
        emb.kernel()
        if not emb.converged:
            raise Skip("not converged")
        embs.append(emb)
    compare(mon, embs[0], embs[1], case, "translation", "Hubbard%s n=%d U=%s %s frag %s %s" % ("2D" if case["two"] else "1D", n, case["u"], mol.boundary, frag, solver))
    mon.seen("translation", case["two"], n, case["frag_n"], solver, case["uhf"], str(mol.boundary))


def to_uhf(lm, mol, mf):
    u = lm.LatticeUHF(mol)
    u.conv_tol = 1e-11
    dm = mf.make_rdm1() / 2
    u.kernel(dm0=np.array([dm, dm]))
    if abs(np.asarray(u.make_rdm1())[0] - dm).max() > 1e-5:
        raise Skip("UHF left the restricted solution")
    return u


def run_kpts(case, mon):
    import vayesta.ewf
    from vayesta.core.foldscf import fold_scf

    sp = case["sys"]
    mf = S.get_mf(sp)
    rng = random.Random(case["rs"])
    nk = int(np.prod(sp["kmesh"]))
    bath = dict(bathtype="mp2", threshold=10 ** rng.uniform(-5, -3.5))
    embs = []
    for use in (True, False):
        emb = vayesta.ewf.EWF(mf, solver=case["solver"], bath_options=bath, solver_options=options(case))
        with (emb.iao_fragmentation(add_symmetric=use) if case["frag"] == "iao" else emb.sao_fragmentation(add_symmetric=use)) as f:
            if use and case["kind"] == "ksym":
                op, axis, center, unit = case["op"]
                with (f.inversion_symmetry(center=center, unit=unit) if op == "inversion" else f.mirror_symmetry(axis, center=center, unit=unit)
                      if op == "mirror" else f.rotational_symmetry(2, axis, center=center, unit=unit)):
                    f.add_atomic_fragment(0)
            elif use:
                f.add_all_atomic_fragments()
            else:
                for a in range(emb.mol.natm):
                    f.add_atomic_fragment(a)
        emb.kernel()
        if not emb.converged:
            raise Skip("not converged")
        embs.append(emb)
    e1, e2 = embs
    mon.eq("all atoms of the supercell are covered", len(e1.fragments), len(sp["atom"]) * nk)
    sz = [sorted(str(f.cluster.norb_active) for f in e.fragments) for e in embs]
    if sz[0] != sz[1]:
        raise Skip("ambiguous bath threshold")
    compare(mon, e1, e2, case, case["kind"], "%s kmesh %s %s %s" % (sp["name"], sp["kmesh"], case["solver"], case["frag"]))
    mon.seen(case["kind"], sp["name"], sp["kmesh"], sp["uhf"], case["solver"])
