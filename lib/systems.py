"""Workload generators: small molecules, solids and model mean-fields, built from a JSON-able spec and cached per worker."""
import json
import math
import random

from lib.mon import Skip

_CACHE = {}


# ---------------------------------------------------------------- specs (parent side, no heavy imports)

def jitter(rng, coords, amp):
    return [[x + rng.uniform(-amp, amp) for x in c] for c in coords]


def ring(n, r):
    rad = r / (2 * math.sin(math.pi / n))
    return [[rad * math.cos(2 * math.pi * i / n), rad * math.sin(2 * math.pi * i / n), 0.0] for i in range(n)]


GEOM = {
    "h2": (["H"] * 2, [[0, 0, 0], [0, 0, 0.8]]),
    "h4": (["H"] * 4, [[0, 0, 0], [0, 0, 1.0], [0, 1.2, 0], [0, 1.2, 1.0]]),
    "h4chain": (["H"] * 4, [[0, 0, i * 1.0] for i in range(4)]),
    "h6": (["H"] * 6, ring(6, 1.0)),
    "h6chain": (["H"] * 6, [[0, 0, i * 1.0] for i in range(6)]),
    "lih": (["Li", "H"], [[0, 0, 0], [0, 0, 1.6]]),
    "hf": (["H", "F"], [[0, 0, 0], [0, 0, 0.92]]),
    "beh2": (["Be", "H", "H"], [[0, 0, 0], [0, 0, 1.33], [0, 0.4, -1.33]]),
    "h2o": (["O", "H", "H"], [[0, 0, 0.1173], [0, 0.7572, -0.4692], [0, -0.7572, -0.4692]]),
    "nh3": (["N", "H", "H", "H"], [[0, 0, 0.11], [0, 0.94, -0.27], [0.814, -0.47, -0.27], [-0.814, -0.47, -0.27]]),
    "n2": (["N", "N"], [[0, 0, 0], [0, 0, 1.1]]),
    "bh": (["B", "H"], [[0, 0, 0], [0, 0, 1.24]]),
    "heh2": (["He", "H", "H"], [[0, 0, 0], [0, 1.2, 0.4], [0, -0.2, 1.9]]),
    # open shells
    "oh": (["O", "H"], [[0, 0, 0], [0, 0, 0.97]]),
    "ch2": (["C", "H", "H"], [[0, 0, 0], [0, 0.99, 0.42], [0, -0.99, 0.42]]),
    "h3": (["H"] * 3, [[0, 0, 0], [0, 0, 1.0], [0, 1.0, 0.3]]),
    "h5": (["H"] * 5, [[0, 0, 0], [0, 0, 1.0], [0, 1.1, 0.1], [0, 1.0, 1.2], [0.9, 0.5, 0.5]]),
    "nh": (["N", "H"], [[0, 0, 0], [0, 0, 1.04]]),
    "beh": (["Be", "H"], [[0, 0, 0], [0, 0, 1.35]]),
}
SPIN = {"oh": 1, "ch2": 2, "h3": 1, "h5": 1, "nh": 2, "beh": 1}


def mol(rng, name, basis="sto-3g", df=None, uhf=None, amp=0.04, scale=None, charge=0, spin=None, rot=True, x2c=False):
    """A jittered, randomly oriented molecule spec."""
    sy, xyz = GEOM[name]
    s = scale if scale is not None else rng.uniform(0.95, 1.15)
    xyz = jitter(rng, [[s * x for x in c] for c in xyz], amp) if amp else [[s * x for x in c] for c in xyz]
    spin = SPIN.get(name, 0) if spin is None else spin
    return dict(type="mol", name=name, atom=[[a, [round(v, 6) for v in c]] for a, c in zip(sy, xyz)], basis=basis, df=df,
                uhf=bool(spin) if uhf is None else uhf, charge=charge, spin=spin)


def cell(rng, kind="h2", kmesh=(1, 1, 1), basis="sto-3g", uhf=False, dim=3, df="gdf", skew=False, exxdiv="ewald", amp=0.03):
    """Small periodic systems."""
    a = rng.uniform(2.6, 3.2)
    if kind == "h2":
        at = [["H", [0.1, 0.2, 0.3]], ["H", [0.1, 0.2, 1.1]]]
    elif kind == "he":
        at = [["He", [0.0, 0.0, 0.0]]]
    elif kind == "heh2":
        at = [["He", [0, 0, 0]], ["H", [1.2, 1.3, 0.9]], ["H", [1.2, 1.3, 1.7]]]
    elif kind == "h3":
        at = [["H", [0.0, 0.1, 0.0]], ["H", [0.1, 0.0, 0.9]], ["H", [1.3, 1.3, 1.1]]]
    elif kind == "lih":
        at = [["Li", [0, 0, 0]], ["H", [a / 2, a / 2, a / 2]]]
    at = [[s, [round(v + (rng.uniform(-amp, amp) if amp else 0), 6) for v in c]] for s, c in at]
    lat = [[a, 0, 0], [0, a * rng.uniform(1.0, 1.1), 0], [0, 0, a * rng.uniform(1.0, 1.1)]]
    if skew:
        lat[1][0] = 0.3 * a
        lat[2][1] = 0.2 * a
    lat = [[round(v, 6) for v in r] for r in lat]
    return dict(type="cell", name=kind, atom=at, a=lat, kmesh=list(kmesh), basis=basis, uhf=uhf, dim=dim, df=df,
                exxdiv=exxdiv, spin=1 if kind == "h3" else 0)


# ---------------------------------------------------------------- worker side

def build_mol(sp):
    if sp["type"] == "mol":
        from pyscf import gto

        m = gto.Mole()
        m.atom = [(s, tuple(c)) for s, c in sp["atom"]]
        m.basis = sp["basis"]
        m.charge, m.spin, m.verbose, m.symmetry = sp.get("charge", 0), sp.get("spin", 0), 0, False
        m.unit = sp.get("unit", "Ang")
        m.max_memory = 4000
        m.build()
        return m
    from pyscf.pbc import gto

    m = gto.Cell()
    m.atom = [(s, tuple(c)) for s, c in sp["atom"]]
    m.a = sp["a"]
    m.basis = sp["basis"]
    m.dimension = sp.get("dim", 3)
    m.verbose = 0
    m.precision = sp.get("precision", 1e-9)
    m.max_memory = 4000
    nk = 1
    for k in sp["kmesh"]:
        nk *= k
    m.spin = sp.get("spin", 0) * nk if sp.get("spin", 0) else 0
    m.build()
    return m


def get_mf(sp, cache=True, conv_tol=1e-12):
    key = json.dumps(sp, sort_keys=True)
    if cache and key in _CACHE:
        return _CACHE[key]
    m = build_mol(sp)
    if sp["type"] == "mol":
        from pyscf import scf

        mf = scf.UHF(m) if sp["uhf"] else scf.RHF(m)
        if sp.get("df"):
            from pyscf import df

            aux = sp["df"]
            if aux is True:
                odd = any(m.atom_pure_symbol(i) in ("He", "Li", "Be") for i in range(m.natm))
                aux = df.aug_etb(m) if odd else "weigend"
            mf = mf.density_fit(auxbasis=aux)
    else:
        import numpy as np
        from pyscf.pbc import scf

        if sp["kmesh"] == [1, 1, 1] and not sp.get("forcek"):
            mf = scf.UHF(m) if sp["uhf"] else scf.RHF(m)
        else:
            k = m.make_kpts(sp["kmesh"])
            mf = scf.KUHF(m, k) if sp["uhf"] else scf.KRHF(m, k)
        mf.exxdiv = sp.get("exxdiv", "ewald")
        from pyscf import df

        aux = df.aug_etb(m, 2.6) if any(m.atom_pure_symbol(i) in ("He", "Li", "Be") for i in range(m.natm)) else None
        mf = mf.density_fit(auxbasis=aux) if sp.get("df") == "gdf" else mf.rs_density_fit(auxbasis=aux)
    mf.conv_tol = conv_tol if sp["type"] == "mol" else 1e-11
    mf.conv_tol_grad = 1e-8
    mf.max_cycle = 150
    mf.kernel(**scf_guess(mf, sp))
    if not mf.converged:
        mf.kernel(mf.make_rdm1())
    if not mf.converged:
        raise Skip("mean-field did not converge")
    if sp["type"] == "mol" and sp.get("stab"):
        for _ in range(4):
            mo, _, ok, _ = mf.stability(return_status=True)
            if ok:
                break
            mf.kernel(mf.make_rdm1(mo, mf.mo_occ))
    if cache:
        if len(_CACHE) > 60:
            _CACHE.clear()
        _CACHE[key] = mf
    return mf


def scf_guess(mf, sp):
    if sp["type"] == "mol" and sp["uhf"] and sp.get("broken"):
        import numpy as np

        dm = mf.get_init_guess()
        dm = np.array(dm)
        s = mf.get_ovlp()
        n = mf.mol.nao
        w = np.zeros(n)
        for i, (p0, p1) in enumerate(mf.mol.aoslice_by_atom()[:, 2:]):
            w[p0:p1] = 1 if i % 2 else -1
        b = np.diag(w) * 0.3
        return dict(dm0=np.array([dm[0] + b @ dm[0] @ b + b @ dm[0] * 0.5, dm[1] - b @ dm[1] * 0.5]))
    return {}


def gap(mf):
    import numpy as np

    def g(e, o):
        e, o = np.ravel(np.concatenate([np.ravel(x) for x in e]) if isinstance(e, (list, tuple)) else e), \
            np.ravel(np.concatenate([np.ravel(x) for x in o]) if isinstance(o, (list, tuple)) else o)
        return e[o < 0.5].min() - e[o > 0.5].max() if (o > 0.5).any() and (o < 0.5).any() else 1.0

    e, o = mf.mo_energy, mf.mo_occ
    if np.ndim(o[0]) == 0:
        return g(e, o)
    return min(g(e[s], o[s]) for s in range(2))


def fragment(emb, spec, rng=None):
    """Add fragments to emb following a JSON spec: {"type": iao|sao|iaopao|site|cas, "groups": [[0,1],[2]], ...}"""
    t = spec["type"]
    kw = spec.get("kw", {})
    f = {"iao": emb.iao_fragmentation, "sao": emb.sao_fragmentation, "iaopao": emb.iaopao_fragmentation,
         "site": emb.site_fragmentation, "cas": emb.cas_fragmentation}[t](**kw)
    frags = []
    with f as ctx:
        if spec.get("all"):
            frags += list(ctx.add_all_atomic_fragments(**spec.get("fkw", {})))
        for g in spec.get("groups", []):
            frags.append(ctx.add_atomic_fragment(g, **spec.get("fkw", {})))
        for g in spec.get("orb", []):
            frags.append(ctx.add_orbital_fragment(g, **spec.get("fkw", {})))
    return frags


def partition(rng, n, k=None):
    """Random partition of range(n) into groups."""
    idx = list(range(n))
    rng.shuffle(idx)
    k = k or rng.randint(1, n)
    groups = [[] for _ in range(k)]
    for j, i in enumerate(idx):
        groups[j if j < k else rng.randrange(k)].append(i)
    return [sorted(g) for g in groups if g]
