"""C02: clusters — occupied/virtual, orthonormal, containing the fragment, and the bath that was asked for."""
import math
import random

import numpy as np

from lib import ref, systems as S
from lib.mon import Skip

RULE = ("a cluster built for one fragment under one bath setting (type, threshold/truncation/order/radius, occupied and virtual "
        "specific) whose active and frozen spaces were compared with an independent construction")
BUDGET = {"quick": 150, "thorough": 1500}
NEED = {"cluster": 150, "ref:mp2": 60, "ref:dmet": 60, "ref:ewdmet": 8, "ref:r2": 8, "ref:rpa": 3, "uhf": 20, "threshold": 1000}
ASSUMPTIONS = ["thresholds are placed in gaps of the reference occupation spectrum so that the requested size is well defined"]

CLOSED = ["h4", "h6", "lih", "hf", "beh2", "h2o", "nh3", "n2", "heh2", "bh"]
OPEN = ["oh", "ch2", "h3", "h5", "nh", "beh"]
MODES = ["full", "half", "linear", "cosine", "cosine-half", "entropy", "sqrt-entropy", "squared-entropy"]
TRUNC = ["occupation", "number", "truncation", "electron-percent", "excited-percent"]


def cases(rng, tier):
    n = 180 if tier == "quick" else 2000
    out = []
    for i in range(n):
        opn = rng.random() < 0.3
        name = rng.choice(OPEN if opn else CLOSED)
        small = len(S.GEOM[name][0]) <= 3
        basis = rng.choice(["6-31g", "6-31g", "sto-3g", "cc-pvdz"] if small else ["6-31g", "sto-3g"])
        df = True if rng.random() < 0.35 else None
        sp = S.mol(rng, name, basis, df=df, uhf=opn or rng.random() < 0.2)
        if sp["uhf"] and not opn and rng.random() < 0.5:
            sp["broken"] = True
            sp["atom"] = S.mol(rng, name, basis, scale=1.5)["atom"]
        out.append(dict(kind="mol", sys=sp, rs=rng.randrange(10 ** 6)))
    for i in range(8 if tier == "quick" else 80):
        out.append(dict(kind="threshold", rs=rng.randrange(10 ** 6)))
    for i in range(3 if tier == "quick" else 12):
        sp = S.cell(rng, "h2", [(1, 1, 1), (2, 1, 1), (1, 2, 1)][i % 3], basis="6-31g", uhf=bool(i % 2))
        out.append(dict(kind="pbc", sys=sp, rs=rng.randrange(10 ** 6), w=5))
    return out


class Ctx:
    """Per-spin reference data of one embedding."""

    def __init__(self, emb, fx):
        mf = emb.mf
        self.uhf = not emb.is_rhf
        self.s = np.asarray(emb.get_ovlp())
        sp = range(2)
        get = lambda x, i: np.asarray(x[i] if self.uhf else x)
        self.co = [get(mf.mo_coeff, i)[:, get(mf.mo_occ, i) > 0] for i in sp]
        self.cv = [get(mf.mo_coeff, i)[:, get(mf.mo_occ, i) == 0] for i in sp]
        self.eo = [get(mf.mo_energy, i)[get(mf.mo_occ, i) > 0] for i in sp]
        self.ev = [get(mf.mo_energy, i)[get(mf.mo_occ, i) == 0] for i in sp]
        self.cf = [get(fx.c_frag, i) for i in sp]
        # DMET: overlap of occupied and virtual space with the fragment (in MO coordinates)
        self.dmet_occ, self.dmet_vir, self.env_occ, self.env_vir, self.bath, self.nbath = [], [], [], [], [], []
        self.unclear = False
        for i in sp:
            ro = self.co[i].T @ self.s @ self.cf[i]
            rv = self.cv[i].T @ self.s @ self.cf[i]
            for r, act, env in ((ro, self.dmet_occ, self.env_occ), (rv, self.dmet_vir, self.env_vir)):
                u, sv, _ = np.linalg.svd(r, full_matrices=True) if r.shape[0] else (np.zeros((0, 0)), np.zeros(0), None)
                k = np.count_nonzero(sv ** 2 > 1e-8)
                if np.any((sv ** 2 > 1e-10) & (sv ** 2 < 1e-6)):
                    self.unclear = True
                act.append(u[:, :k])
                env.append(u[:, k:])
            # bath orbitals = complement of the fragment in the DMET cluster, with their environment occupations
            cl = np.hstack([self.co[i] @ self.dmet_occ[i], self.cv[i] @ self.dmet_vir[i]])
            nocc = self.dmet_occ[i].shape[1]
            rf = cl.T @ self.s @ self.cf[i]
            w, v = np.linalg.eigh(np.eye(cl.shape[1]) - rf @ rf.T)
            b = v[:, w > 0.5]
            dm = b[:nocc].T @ b[:nocc]
            n, u = np.linalg.eigh(dm)
            self.bath.append(cl @ b @ u)
            self.nbath.append(np.clip(n, 0, 1))

    def dims(self, what):
        return [x.shape[1] for x in what]


def weights(mode, x):
    return {"full": lambda: 0 * x, "half": lambda: 0 * x + 0.5, "linear": lambda: 2 * np.minimum(x, 1 - x),
            "cosine": lambda: np.sin(np.pi * x) ** 2, "cosine-half": lambda: np.sin(np.pi * x) ** 2 / 2,
            "entropy": lambda: 4 * x * (1 - x), "sqrt-entropy": lambda: 2 * np.sqrt(x * (1 - x)),
            "squared-entropy": lambda: (4 * x * (1 - x)) ** 2}[mode]()


def mp2_bno_ref(cx, eri, occtype, order, mode, buffer=False):
    """Reference MP2 bath natural orbitals, in spin orbitals: -> per spin (occupations desc., coefficients in the environment)."""
    sp = range(2)
    canon = lambda c, e, u: (lambda w, v: (c @ u @ v, w, u @ v))(*np.linalg.eigh(u.T @ np.diag(e) @ u))
    occ, vir = [], []
    for i in sp:
        if occtype == "occupied" or buffer:
            occ.append((cx.co[i], cx.eo[i], np.eye(len(cx.eo[i]))))
        else:
            occ.append(canon(cx.co[i], cx.eo[i], cx.dmet_occ[i]))
        if occtype == "virtual":
            vir.append((cx.cv[i], cx.ev[i], np.eye(len(cx.ev[i]))))
        else:
            vir.append(canon(cx.cv[i], cx.ev[i], cx.dmet_vir[i]))
    t = {}
    for a, b in ((0, 0), (0, 1), (1, 1)):
        g = ref.mo_eri(eri, occ[a][0], vir[a][0], occ[b][0], vir[b][0]).transpose(0, 2, 1, 3)
        d = (occ[a][1][:, None, None, None] + occ[b][1][None, :, None, None]
             - vir[a][1][None, None, :, None] - vir[b][1][None, None, None, :])
        x = g / d
        if a == b:
            x = x - x.transpose(0, 1, 3, 2)
        t[a, b] = x
    if order:
        p = []
        for i in sp:
            c = vir[i][0] if occtype == "occupied" else occ[i][0]
            rf = c.T @ cx.s @ cx.cf[i]
            rb = c.T @ cx.s @ cx.bath[i]
            p.append(rf @ rf.T + (rb * weights(mode, cx.nbath[i])) @ rb.T)
        for (a, b), x in list(t.items()):
            if occtype == "occupied":
                one = lambda q, k, y: np.moveaxis(np.tensordot(q, y, axes=(1, 2 + k)), 0, 2 + k)
            else:
                one = lambda q, k, y: np.moveaxis(np.tensordot(q, y, axes=(1, k)), 0, k)
            t[a, b] = (one(p[a], 0, x) + one(p[b], 1, x)) / 2 if order == 1 else one(p[a], 0, one(p[b], 1, x))
    out = []
    for i in sp:
        ab = t[0, 1]
        if occtype == "occupied":
            m = np.einsum("ikab,jkab->ij", t[i, i], t[i, i]) / 2
            m = m + (np.einsum("ikab,jkab->ij", ab, ab) if i == 0 else np.einsum("kiab,kjab->ij", ab, ab))
            env, c = cx.env_occ[i], cx.co[i]
        else:
            m = np.einsum("ijac,ijbc->ab", t[i, i], t[i, i]) / 2
            m = m + (np.einsum("ijac,ijbc->ab", ab, ab) if i == 0 else np.einsum("ijca,ijcb->ab", ab, ab))
            env, c = cx.env_vir[i], cx.cv[i]
        w, v = np.linalg.eigh(env.T @ m @ env)
        out.append((w[::-1], (c @ env @ v)[:, ::-1]))
    return out


def rpa_bno_ref(cx, mf, occtype):
    """Reference dRPA bath natural orbitals (restricted) from the dense zeroth moment."""
    l = ref.cderi_ao(mf)
    co, cv = cx.co[0], cx.cv[0]
    lov = np.einsum("Lab,ai,bj->Lij", l, co, cv).reshape(len(l), -1)
    d = (cx.ev[0][None] - cx.eo[0][:, None]).ravel()
    k = lov.T @ lov
    sd = np.sqrt(d)
    w, v = np.linalg.eigh(sd[:, None] * (np.diag(d) + 4 * k) * sd[None])
    m0 = sd[:, None] * ((v / np.sqrt(w)) @ v.T) * sd[None]
    m = -((m0 - np.eye(len(d))) / 2).reshape(co.shape[1], cv.shape[1], co.shape[1], cv.shape[1])
    if occtype == "occupied":
        u = cx.dmet_vir[0]
        rf = u.T @ cv.T @ cx.s @ cx.cf[0]
        p = u @ rf @ rf.T @ u.T
        dm, env, c = np.einsum("iajb,ab->ij", m, p), cx.env_occ[0], co
    else:
        u = cx.dmet_occ[0]
        rf = u.T @ co.T @ cx.s @ cx.cf[0]
        p = u @ rf @ rf.T @ u.T
        dm, env, c = np.einsum("iajb,ij->ab", m, p), cx.env_vir[0], cv
    dm = (dm + dm.T) / 2
    w, v = np.linalg.eigh(env.T @ dm @ env)
    return [(w[::-1], (c @ env @ v)[:, ::-1])]


def count(trunc, thr, n, ne):
    n = np.asarray(n)
    if len(n) == 0:
        return 0
    if trunc == "number":
        return thr
    if trunc == "occupation":
        return int(np.sum(n >= thr))
    pos = np.clip(n, 0, None)
    tot = pos.sum()
    for k in range(len(n) + 1):
        left = pos[k:].sum()
        if trunc == "truncation" and left <= thr:
            return k
        if trunc == "excited-percent" and left <= thr * tot:
            return k
        if trunc == "electron-percent" and left <= thr * ne:
            return k
    return len(n)


def pick(rng, trunc, specs, ne):
    """A threshold for which the number of orbitals is unambiguous in every spectrum; -> (threshold, [counts])."""
    for _ in range(30):
        n = rng.choice(specs)
        if len(n) == 0:
            k = 0
            n = np.array([1e-3])
        else:
            k = rng.randint(0, len(n))
        tot = np.clip(n, 0, None).sum()
        if trunc == "number":
            thr = k
        elif trunc == "occupation":
            hi = n[k - 1] if k else n[0] * 10
            lo = n[k] if k < len(n) else n[-1] * 0.01
            thr = math.sqrt(max(hi, 1e-16) * max(lo, 1e-16))
        else:
            left_k = np.clip(n[k:], 0, None).sum()
            left_m = np.clip(n[k - 1:], 0, None).sum() if k else 2 * left_k + 1e-9
            thr = (left_k + left_m) / 2
            if trunc == "excited-percent":
                thr /= tot
            elif trunc == "electron-percent":
                thr /= ne
        ks, ok = [], trunc in ("number", "occupation") or all(len(m) == 0 or max(m) > 1e-7 for m in specs)
        if trunc != "number" and thr < 1e-10:  # numerically meaningless: occupations are only known to rounding
            continue
        for m in specs:
            c0 = count(trunc, thr, m, ne)
            if trunc != "number":
                ok &= count(trunc, thr * 0.97, m, ne) == c0 == count(trunc, thr * 1.03, m, ne)
            if 0 < c0 < len(m):
                ok &= m[c0 - 1] > 1.05 * m[c0] and m[c0 - 1] > 1e-9
            if c0 > len(m):
                ok = False
            ks.append(c0)
        if ok:
            return float(thr) if trunc != "number" else int(thr), ks
    return None, None


def structure(mon, emb, fx, cx, canonical=(True, True), label=""):
    cl = fx.cluster
    s = cx.s
    mon.event("cluster")
    mon.event("uhf" if cx.uhf else "rhf")
    fock = emb.mf.get_fock() if not hasattr(emb, "kdf") or emb.kdf is None else emb.get_fock()
    fock = np.asarray(fock)
    for i in range(2 if cx.uhf else 1):
        g = lambda x: np.asarray(x[i] if cx.uhf else x)
        ao, av, fo, fv = g(cl.c_active_occ), g(cl.c_active_vir), g(cl.c_frozen_occ), g(cl.c_frozen_vir)
        allo = np.hstack([ao, av, fo, fv])
        mon.eq("cluster-counts", allo.shape[1], cx.co[i].shape[1] + cx.cv[i].shape[1], label)
        mon.zero("cluster+frozen-orthonormal", ref.orth_err(allo, s), 1e-7, label)
        mon.eq("occupied-count", ao.shape[1] + fo.shape[1], cx.co[i].shape[1], label)
        mon.zero("occupied-in-occupied-space", ref.inside_err(np.hstack([ao, fo]), cx.co[i], s), 1e-6, label)
        mon.zero("virtual-in-virtual-space", ref.inside_err(np.hstack([av, fv]), cx.cv[i], s), 1e-6, label)
        mon.zero("fragment-inside-cluster", ref.inside_err(cx.cf[i], np.hstack([ao, av]), s), 1e-6, label)
        f = fock[i] if cx.uhf else fock
        for c, on, nm in ((ao, canonical[0], "occ"), (av, canonical[1], "vir")):
            if on and c.shape[1]:
                x = c.T @ f @ c
                mon.zero("canonical-%s" % nm, x - np.diag(np.diag(x)), 1e-6, label)
                mon.true("canonical-sorted-%s" % nm, np.all(np.diff(np.diag(x)) > -1e-7), label)
        n = g(cl.norb_active) if cx.uhf else cl.norb_active
        mon.eq("norb", int(n), ao.shape[1] + av.shape[1])


def compare(mon, fx, cx, what, occ_ref=None, vir_ref=None, tol=1e-5, label=""):
    """Active spaces vs DMET part + reference bath (lists per spin of AO coefficient matrices)."""
    cl = fx.cluster
    for i in range(2 if cx.uhf else 1):
        g = lambda x: np.asarray(x[i] if cx.uhf else x)
        for nm, act, c, base, extra in (("occ", g(cl.c_active_occ), cx.co[i], cx.dmet_occ[i], occ_ref),
                                        ("vir", g(cl.c_active_vir), cx.cv[i], cx.dmet_vir[i], vir_ref)):
            if extra is None:
                continue
            want = np.hstack([c @ base, extra[i]])
            if mon.eq("%s-bath-size-%s" % (what, nm), act.shape[1], want.shape[1], label):
                mon.zero("%s-bath-space-%s" % (what, nm), ref.span_err(act, want, cx.s), tol, label)
    mon.event("ref:" + what)


def run_threshold(case, mon):
    """Truncation rules on synthetic occupation spectra (natural occupations of a bath may be slightly negative)."""
    from vayesta.core.bath.bno import BNO_Threshold

    rng = random.Random(case["rs"])
    for rep in range(120):
        m = rng.choice([0, 1, 2, 3, 5, 8, 20])
        n = np.array(sorted((10 ** rng.uniform(-9, -0.5) for _ in range(m)), reverse=True))
        neg = rng.random() < 0.5
        if m and neg:
            n = np.array(sorted(np.concatenate([n, [-10 ** rng.uniform(-9, -2) for _ in range(rng.randint(1, 4))]]), reverse=True))
        ne = float(rng.randint(1, 20))
        pos = np.clip(n, 0, None)
        for t in TRUNC:
            if t == "number":
                thr = rng.randint(0, len(n))
            elif len(n) == 0:
                thr = 1e-3
            elif t == "occupation":
                k = rng.randint(0, m)
                thr = math.sqrt(max(n[k - 1] if k else 1.0, 1e-12) * (max(n[k], 1e-12) if k < len(n) else 1e-12))
            else:
                k = rng.randint(0, m)
                hi = pos[k - 1:].sum() if k else 2 * pos.sum() + 1e-3
                thr = (pos[k:].sum() + hi) / 2 / {"truncation": 1.0, "excited-percent": max(pos.sum(), 1e-12), "electron-percent": ne}[t]
            want = count(t, thr, n, ne)
            if t != "number" and not (want == count(t, thr * 0.999999, n, ne) == count(t, thr * 1.000001, n, ne)):
                continue
            got = BNO_Threshold(t, thr).get_number(n, electron_total=ne)
            mon.eq("number-of-bath-orbitals-for-spectrum", int(got), int(want), "%s %g of %s, %g electrons" % (t, thr, n.tolist(), ne))
            mon.event("threshold")
            mon.seen("threshold", t, len(n), neg)


def run(case, mon):
    import vayesta.ewf

    if case["kind"] == "threshold":
        return run_threshold(case, mon)
    rng = random.Random(case["rs"])
    mf = S.get_mf(case["sys"])
    if S.gap(mf) < 0.03:
        raise Skip("small gap")
    uhf = case["sys"]["uhf"]
    pbc = case["kind"] == "pbc"
    nat = len(case["sys"]["atom"])
    ftype = rng.choice(["iao", "iao", "sao"])
    groups = S.partition(rng, nat, min(nat, rng.randint(2, max(2, nat))))
    groups.sort(key=lambda g: rng.random())
    g = groups[0]
    eri = None if pbc else ref.ao_eri(mf)
    has_df = bool(case["sys"].get("df"))

    def build(opts, fopts=None, single=False):
        emb = vayesta.ewf.EWF(mf, bath_options=opts)
        with (emb.iao_fragmentation() if ftype == "iao" else emb.sao_fragmentation()) as f:
            fx = f.add_atomic_fragment(g[0] if single else g, **(fopts or {}))
        fx.make_bath()
        fx.make_cluster()
        return emb, fx

    # --- DMET
    emb, fx = build(dict(bathtype="dmet"))
    cx = Ctx(emb, fx)
    structure(mon, emb, fx, cx, label="dmet")
    if cx.unclear:
        mon.event("unclear-dmet")
        return
    zero = [np.zeros((cx.s.shape[0], 0))] * 2
    compare(mon, fx, cx, "dmet", zero, zero, 1e-5, "dmet")
    nb = max(fx.cluster.norb_active) if uhf else fx.cluster.norb_active
    mon.true("dmet-bath-not-larger-than-fragment", nb <= 2 * max(c.shape[1] for c in cx.cf))
    mon.seen("dmet", case["sys"]["name"], case["sys"]["basis"], uhf, g, ftype)
    # --- full
    emb, fx = build(dict(bathtype="full"))
    structure(mon, emb, fx, cx, label="full")
    nf = sum(fx.cluster.norb_frozen) if uhf else fx.cluster.norb_frozen
    mon.eq("full-bath-nothing-frozen", int(nf), 0)
    # --- mixed / non-canonical
    can = (rng.random() < 0.5, rng.random() < 0.5)
    bt = rng.sample(["dmet", "full"], 2)
    emb, fx = build(dict(bathtype_occ=bt[0], bathtype_vir=bt[1], canonicalize_occ=can[0], canonicalize_vir=can[1], bathtype="dmet",
                         canonicalize=True))
    structure(mon, emb, fx, cx, canonical=can, label="mixed %s %s" % (bt, can))
    eo = [cx.co[i] @ cx.env_occ[i] for i in range(2)]
    ev = [cx.cv[i] @ cx.env_vir[i] for i in range(2)]
    compare(mon, fx, cx, "mixed", zero if bt[0] == "dmet" else eo, zero if bt[1] == "dmet" else ev)
    # --- MP2 BNOs
    ne = 2 * cx.dmet_occ[0].shape[1] if not uhf else cx.dmet_occ[0].shape[1] + cx.dmet_occ[1].shape[1]
    prev = None
    for rep in range(3 if not pbc else 1):
        order = [rng.choice([0, 1, 2]) for _ in range(2)]
        mode = [rng.choice(MODES) for _ in range(2)]
        if rep == 0:
            order, mode = [2, 2], ["squared-entropy"] * 2
        buf = rng.random() < 0.25 and not uhf
        trunc = [rng.choice(TRUNC) for _ in range(2)] if rep else ["occupation"] * 2
        if pbc:
            opts = dict(bathtype="mp2", threshold=10 ** rng.uniform(-7, -3))
            emb, fx = build(opts)
            structure(mon, emb, fx, cx, label=str(opts))
            continue
        ro = mp2_bno_ref(cx, eri, "occupied", order[0], mode[0])
        rv = mp2_bno_ref(cx, eri, "virtual", order[1], mode[1], buffer=buf)
        ns = 2 if uhf else 1
        to, ko = pick(rng, trunc[0], [ro[i][0] for i in range(ns)], ne)
        tv, kv = pick(rng, trunc[1], [rv[i][0] for i in range(ns)], ne)
        if to is None or tv is None:
            mon.event("no-clear-threshold")
            continue
        opts = dict(bathtype="mp2", project_dmet_order_occ=order[0], project_dmet_order_vir=order[1], project_dmet_mode_occ=mode[0],
                    project_dmet_mode_vir=mode[1], truncation_occ=trunc[0], truncation_vir=trunc[1], threshold_occ=to, threshold_vir=tv,
                    addbuffer=buf)
        if order[0] == order[1] and mode[0] == mode[1]:
            opts.update(project_dmet_order=order[0], project_dmet_mode=mode[0], project_dmet_order_occ=None, project_dmet_order_vir=None,
                        project_dmet_mode_occ=None, project_dmet_mode_vir=None)
        if trunc[0] == trunc[1] and rng.random() < 0.7:
            opts.update(truncation=trunc[0], truncation_occ=None, truncation_vir=None)
        ovr = rng.random() < 0.4  # set them on the fragment instead of the embedding
        emb, fx = build(dict(bathtype="dmet"), dict(bath_options=opts)) if ovr else build(opts)
        lab = "mp2 %s" % {k: v for k, v in opts.items() if v is not None}
        structure(mon, emb, fx, cx, label=lab)
        compare(mon, fx, cx, "mp2", [ro[i][1][:, : ko[min(i, ns - 1)]] for i in range(2)],
                [rv[i][1][:, : kv[min(i, ns - 1)]] for i in range(2)], 2e-4, lab)
        mon.seen("mp2", trunc, order, mode, buf, ovr, uhf, has_df)
    # --- nesting of thresholds (all kinds of systems)
    ths = sorted([10 ** rng.uniform(-9, -2) for _ in range(2)], reverse=True)
    acts = []
    for th in ths + [0.0 if not pbc else 1e-12]:
        emb, fx = build(dict(bathtype="mp2", threshold=th))
        cl = fx.cluster
        acts.append([np.hstack([np.asarray(cl.c_active_occ[i] if uhf else cl.c_active_occ),
                                np.asarray(cl.c_active_vir[i] if uhf else cl.c_active_vir)]) for i in range(2 if uhf else 1)])
    structure(mon, emb, fx, cx, label="mp2 threshold")
    for a, b in zip(acts[:-1], acts[1:]):
        for i in range(len(a)):
            mon.zero("tighter-threshold-larger-cluster", ref.inside_err(a[i], b[i], cx.s), 1e-6)
    if uhf or pbc:
        return
    # --- EwDMET (restricted)
    f = np.asarray(mf.get_fock())
    for rep in range(2):
        order = [rng.choice([1, 1, 2, 3]) for _ in range(2)]
        refs, ok = [], True
        for env, k in ((eo[0], order[0]), (ev[0], order[1])):
            b, bad = krylov(f, cx.cf[0], env, k)
            ok &= not bad
            refs.append([b, b])
        emb, fx = build(dict(bathtype="ewdmet", order_occ=order[0], order_vir=order[1], threshold=1e-6))
        structure(mon, emb, fx, cx, label="ewdmet %s" % order)
        if ok:
            compare(mon, fx, cx, "ewdmet", refs[0], refs[1], 1e-4, "order %s" % order)
            mon.seen("ewdmet", order, case["sys"]["name"])
    # --- R2 (restricted, single atom)
    g0, g = g, [g[0]]
    embr, fr = build(dict(bathtype="dmet"))
    cr = Ctx(embr, fr)
    if not cr.unclear:
        with mf.mol.with_common_origin(mf.mol.atom_coord(g[0])):
            r2 = mf.mol.intor_symmetric("int1e_r2")
        unit = rng.choice(["Ang", "Bohr", "Ang"])
        fac = 0.529177210903 if unit == "Ang" else 1.0
        spec = []
        for c, env in ((cr.co[0], cr.env_occ[0]), (cr.cv[0], cr.env_vir[0])):
            x = c @ env
            w, v = np.linalg.eigh(x.T @ r2 @ x)
            spec.append((np.sqrt(w), x @ v))
        allr = np.concatenate([x[0] for x in spec])
        if len(allr):
            k = rng.randrange(len(allr) + 1)
            srt = np.sort(allr)
            rc = srt[k - 1] * 1.03 if k else srt[0] * 0.9
            if np.all(abs(allr - rc) > 1e-3 * rc):
                emb, fx = build(dict(bathtype="r2", rcut=float(rc * fac), unit=unit), single=True)
                structure(mon, emb, fx, cr, label="r2")
                rf = [[x[1][:, x[0] <= rc]] * 2 for x in spec]
                compare(mon, fx, cr, "r2", rf[0], rf[1], 1e-5, "rcut %s %s" % (rc * fac, unit))
                mon.seen("r2", unit, k)
    g = g0
    # --- RPA BNOs (density fitted)
    if has_df:
        ro, rv = rpa_bno_ref(cx, mf, "occupied"), rpa_bno_ref(cx, mf, "virtual")
        to, ko = pick(rng, "occupation", [ro[0][0]], ne)
        tv, kv = pick(rng, "occupation", [rv[0][0]], ne)
        if to is not None and tv is not None and min(to, tv) > 1e-6:
            emb, fx = build(dict(bathtype="rpa", threshold_occ=to, threshold_vir=tv))
            structure(mon, emb, fx, cx, label="rpa")
            compare(mon, fx, cx, "rpa", [ro[0][1][:, :ko[0]]] * 2, [rv[0][1][:, :kv[0]]] * 2, 5e-3, "rpa %g %g" % (to, tv))
            mon.seen("rpa", case["sys"]["name"], ko, kv)


def krylov(f, cf, env, k):
    """Order-k energy-weighted bath: the environment space reached by up to k applications of the Fock operator from the fragment."""
    fe = env.T @ f @ env
    cur = env.T @ f @ cf
    basis = np.zeros((env.shape[1], 0))
    bad = False
    for _ in range(k):
        cur = cur - basis @ (basis.T @ cur)
        if min(cur.shape) == 0:
            break
        u, s, _ = np.linalg.svd(cur, full_matrices=False)
        if np.any((s > 1e-8) & (s < 1e-4)):
            bad = True
        u = u[:, s > 1e-6]
        if u.shape[1] == 0:
            break
        basis = np.hstack([basis, u])
        cur = fe @ u
    return env @ basis, bad
