"""C13: tailored and externally corrected coupled cluster reach the fixed point they define."""
import random

import numpy as np

from lib.mon import Skip
from props.c10 import Dense, cat, lattice_mf, spins, sym
from props.c12 import Model

RULE = ("one cluster whose coupled-cluster equations are corrected by other solved clusters (tailoring, delta-tailoring, external correction with either choice of integrals, "
        "0/1/2 projectors, several corrections, mixed types, active-space tailoring); the returned amplitudes are inserted into the corrected equations evaluated in a determinant "
        "space; distinct = (corrections, projectors, integrals, spin, baths)")
NEED = {"tailor": 8, "delta-tailor": 4, "external": 10, "low": 4, "high": 4, "p0": 4, "p1": 6, "p2": 3, "uhf": 6, "exact": 3, "TCCSD": 6, "mixed": 1}
BUDGET = {"quick": 120, "thorough": 1200}
CASE_TIMEOUT = 300
ASSUMPTIONS = ["clusters of at most 800 determinants; correcting clusters have one dominant determinant; unconverged equations are skipped"]


def cases(rng, tier):
    from lib import systems as S

    full = tier == "thorough"
    out = []
    names = ["h4", "h4chain", "h6chain", "lih", "heh2", "h5", "bh", "h4", "h2o", "oh", "h6"]
    for i in range(200 if full else 40):
        nm = names[i % len(names)]
        sp = S.mol(rng, nm, "6-31g" if nm in ("h4", "heh2") and rng.random() < 0.3 else "sto-3g", df=rng.choice([None, None, True]), uhf=None if rng.random() < 0.6 else True)
        out.append(dict(kind="mol", w=3, rs=rng.randrange(1 << 30), sys=sp))
    for i in range(40 if full else 10):
        out.append(dict(kind="latt", w=2, rs=rng.randrange(1 << 30), n=6, u=rng.uniform(0.5, 4), v=0.0, uhf=i % 2 == 1))
    for i in range(80 if full else 14):
        nm = names[i % len(names)]
        sp = S.mol(rng, nm, "sto-3g", df=rng.choice([None, True]), uhf=False) if nm not in ("h5", "oh") else S.mol(rng, "h4", "6-31g", uhf=False)
        out.append(dict(kind="tcc", w=2, rs=rng.randrange(1 << 30), sys=sp))
    return out


def coeffs(sp, vec):
    """Singles and doubles components of a vector."""
    v = np.array(vec)
    v[sp.i0] = 1
    return sp.amplitudes(v)


def residual(m, t1, t2):
    t = m.sp.texc(t1, t2)
    return coeffs(m.sp, m.sp.expm(t, -1) @ (m.H @ m.sp.exp_ref(t)))


def as_u(wf, uhf):
    if uhf:
        return tuple(wf.t1), tuple(wf.t2)
    a = wf.t2 - wf.t2.transpose(0, 1, 3, 2)
    return (wf.t1, wf.t1), (a, wf.t2, a)


def project(t1, t2, p, k):
    if not k:
        return t1, t2
    f = lambda x, q: np.einsum("xi,i...->x...", q, x)
    t1 = tuple(f(a, q) for a, q in zip(t1, p))
    second = lambda x, q: np.einsum("xj,ijab->ixab", q, x)
    qs = ((p[0], p[0]), (p[0], p[1]), (p[1], p[1]))
    if k == 1:
        t2 = tuple(0.5 * (f(x, a) + second(x, b)) for x, (a, b) in zip(t2, qs))
    else:
        t2 = tuple(second(f(x, a), b) for x, (a, b) in zip(t2, qs))
    return t1, t2


def rotate(t1, t2, ro, rv):
    t1 = tuple(o @ t @ v.T for o, t, v in zip(ro, t1, rv))
    ss = ((0, 0), (0, 1), (1, 1))
    t2 = tuple(np.einsum("Ii,Jj,Aa,Bb,ijab->IJAB", ro[a], ro[b], rv[a], rv[b], t, optimize=True) for (a, b), t in zip(ss, t2))
    return t1, t2


def t3_array(m, vec):
    """Spin-orbital triples amplitudes [ijk abc] of a CI vector (spin orbitals: alpha then beta)."""
    sp = m.sp
    vec = vec / vec[sp.i0]
    t1, t2 = sp.cc_from_ci(*sp.amplitudes(vec))
    v3 = np.where(sp.ranks == 3, vec - sp.exp_ref(sp.texc(t1, t2)), 0)
    no, nv = sp.nelec, [n - o for n, o in zip(sp.norb, sp.nelec)]
    occ = [(s, i) for s in range(2) for i in range(no[s])]
    vir = [(s, a) for s in range(2) for a in range(nv[s])]
    out = np.zeros((len(occ),) * 3 + (len(vir),) * 3)
    import itertools

    ref = sp.ref.reshape(sp.d)

    def exc(x, i, a):
        (s, i), (q, a) = occ[i], vir[a]
        e = sp.e[s][no[s] + a, i]
        return e @ x if s == 0 else x @ e.T

    perms = []
    for p in itertools.permutations(range(3)):
        sgn = np.linalg.det(np.eye(3)[list(p)])
        perms.append((p, sgn))
    v3 = v3.reshape(sp.d)
    for o in itertools.combinations(range(len(occ)), 3):
        for v in itertools.combinations(range(len(vir)), 3):
            # pair spins
            so, sv = [occ[x][0] for x in o], [vir[x][0] for x in v]
            if sum(so) != sum(sv):
                continue
            x = exc(exc(exc(ref, o[2], v[2]), o[1], v[1]), o[0], v[0]) if so == sv else None
            assert x is not None  # both are sorted by spin
            val = np.sum(x * v3)
            if val == 0:
                continue
            for p, s1 in perms:
                for q, s2 in perms:
                    out[tuple(o[k] for k in p) + tuple(v[k] for k in q)] = s1 * s2 * val
    return out


def so_eri(dn, c1, c2, c3, c4):
    """<pq||rs> over spin orbitals given as (alpha, beta) coefficients."""
    dims = [[x.shape[1] for x in c] for c in (c1, c2, c3, c4)]
    out = np.zeros([sum(d) for d in dims])
    sl = [[slice(0, d[0]), slice(d[0], d[0] + d[1])] for d in dims]
    for s in range(2):
        for t in range(2):
            if any(c[k].shape[1] == 0 for c, k in ((c1, s), (c2, t))):
                continue
            if c3[s].shape[1] and c4[t].shape[1]:
                out[sl[0][s], sl[1][t], sl[2][s], sl[3][t]] += dn.tr(c1[s], c3[s], c2[t], c4[t]).transpose(0, 2, 1, 3)
            if c3[t].shape[1] and c4[s].shape[1]:
                out[sl[0][s], sl[1][t], sl[2][t], sl[3][s]] -= dn.tr(c1[s], c4[s], c2[t], c3[t]).transpose(0, 2, 3, 1)
    return out


def blocks(x, oi, oj, va, vb):
    """Spin blocks (aa, ab, bb) of a spin-orbital doubles tensor."""
    f = lambda o, s: slice(0, o[0]) if s == 0 else slice(o[0], o[0] + o[1])
    return tuple(x[f(oi, a), f(oj, b), f(va, a), f(vb, b)] for a, b in ((0, 0), (0, 1), (1, 1)))


def bd(x):
    from scipy.linalg import block_diag

    return block_diag(*x)


def v_t3(dn, t3, cox, cvx, oy, vy, ro, rv):
    """Doubles residual V*T3 with integrals of cluster x (one open index in x), in the basis of x."""
    po, pv = [c @ r for c, r in zip(cox, ro)], [c @ r for c, r in zip(cvx, rv)]
    R, V = bd(ro), bd(rv)
    g = so_eri(dn, cvx, po, pv, pv)
    y = 0.5 * np.einsum("bmef,ijmaef->ijab", g, t3, optimize=True)
    y = np.einsum("Ii,Jj,Aa,ijab->IJAb", R, R, V, y, optimize=True)
    out = y - y.transpose(0, 1, 3, 2)
    g = so_eri(dn, po, po, cox, pv)
    y = -0.5 * np.einsum("mnje,imnabe->ijab", g, t3, optimize=True)
    y = np.einsum("Ii,Aa,Bb,ijab->IjAB", R, V, V, y, optimize=True)
    out = out + y - y.transpose(1, 0, 2, 3)
    no, nv = [c.shape[1] for c in cox], [c.shape[1] for c in cvx]
    return blocks(out, no, no, nv, nv)


def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def denom(m):
    es = [np.diag(f) for f in m.fx]
    eia = [e[:k, None] - e[None, k:] for e, k in zip(es, m.no)]
    d2 = tuple(eia[a][:, None, :, None] + eia[b][None, :, None, :] for a, b in ((0, 0), (0, 1), (1, 1)))
    return tuple(eia), d2


def div(t1, t2, d):
    return tuple(x / y for x, y in zip(t1, d[0])), tuple(x / y for x, y in zip(t2, d[1]))


def small(cl, uhf):
    from scipy.special import comb

    n = [x.shape[1] for x in spins(cl.c_active, uhf)]
    no = [x.shape[1] for x in spins(cl.c_active_occ, uhf)]
    if min(no) == 0 or min(a - b for a, b in zip(n, no)) == 0:
        raise Skip("empty space")
    if max(n) > 9 or comb(n[0], no[0]) * comb(n[1], no[1]) > 800:
        raise Skip("too large")


def dmmf(mf, uhf):
    dm = spins(mf.make_rdm1(), uhf)
    return dm if uhf else tuple(x / 2 for x in dm)


def run(case, mon):
    from lib import systems as S

    rng = random.Random(case["rs"])
    rs = np.random.default_rng(case["rs"])
    sp = case.get("sys")
    mf = S.get_mf(sp) if sp else lattice_mf(case)
    if S.gap(mf) < 0.05 or not mf.converged:
        raise Skip("gap")
    (run_tcc if case["kind"] == "tcc" else run_ext)(case, mon, mf, rng, rs)


def run_ext(case, mon, mf, rng, rs):
    import vayesta.ewf

    sp = case.get("sys")
    uhf = np.ndim(mf.mo_occ[0]) > 0
    sopts = dict(conv_tol=1e-11, conv_tol_normt=1e-8, solve_lambda=False, max_cycle=200)
    xbath = rng.choice([dict(bathtype="full"), dict(bathtype="full"), dict(bathtype="dmet"), dict(bathtype="mp2", threshold=10 ** rng.uniform(-5, -2))])
    if not sp and xbath["bathtype"] == "mp2":
        xbath = dict(bathtype="full")
    ybath = rng.choice(["dmet", "dmet", "full"])
    whole = rng.random() < 0.25
    if whole:
        xbath, ybath = dict(bathtype="full"), "full"
    emb = vayesta.ewf.EWF(mf, bath_options=xbath, solver="CCSD", solver_options=sopts)
    mf = emb.mf
    nat = emb.mol.natm
    ats = list(range(nat))
    rng.shuffle(ats)
    cuts = sorted(rng.sample(range(1, nat), min(nat - 1, rng.choice([1, 1, 2]))))
    groups = [sorted(ats[a:b]) for a, b in zip([0] + cuts, cuts + [nat])]
    ft = rng.choice(["iao", "sao"]) if sp else "site"
    types = ["tailor", "external", "external", "delta-tailor"]
    ctype = rng.choice(types)
    proj = rng.choice([0, 1, 1, 2])
    ny = 1 if proj == 0 and rng.random() < 0.8 else rng.choice([len(groups), len(groups), 1])
    if whole:
        ctype = "external"
        proj = rng.choice([0, 1])
        ny = len(groups) if proj else 1
    yg = rng.sample(groups, ny)
    low = [ctype == "external" and rng.random() < 0.5 for _ in yg]
    ctypes = [ctype] * ny
    projs = [proj] * ny
    if ctype != "tailor" and not whole and ny > 1 and rng.random() < 0.4:
        ctypes[rng.randrange(ny)] = "external" if ctype == "delta-tailor" else "delta-tailor"
        low = [a and b == "external" for a, b in zip(low, ctypes)]
        projs = [rng.choice([1, 2]) for _ in yg]
    with dict(iao=emb.iao_fragmentation, sao=emb.sao_fragmentation, site=emb.site_fragmentation)[ft]() as f:
        fcis = [f.add_atomic_fragment(g, solver="FCI", bath_options=dict(bathtype=ybath), auxiliary=True, **(dict(store_wf_type="CCSDTQ") if c == "external" and rng.random() < 0.5 else {}))
                for g, c in zip(yg, ctypes)]
        ccs = [f.add_atomic_fragment(g, solver="CCSD", bath_options=dict(bathtype=ybath), auxiliary=True) if c == "delta-tailor" else None for g, c in zip(yg, ctypes)]
        fx = f.add_atomic_fragment(rng.choice(groups), solver=rng.choice(["CCSD", "extCCSD"]))
    for fy, c, l, p in zip(fcis, ctypes, low, projs):
        fx.add_external_corrections([fy], correction_type=c, projectors=p, **(dict(low_level_coul=l) if c == "external" else {}))
    for x in fcis + [c for c in ccs if c] + [fx]:
        x.make_bath()
        x.make_cluster()
        small(x.cluster, uhf)
        if uhf and len({c.shape[1] for c in x.cluster.c_active}) > 1:
            raise Skip("spin-dependent cluster size")
    np.random.seed(case["rs"] & 0xffff)
    for x in fcis + [c for c in ccs if c]:
        x.kernel()
        if not x.results.converged:
            raise Skip("correcting cluster not converged")
    fx.kernel()
    if not fx.results.converged:
        mon.event("not converged")
        raise Skip("corrected equations not converged")
    dn = Dense(mf, sp)
    dm = dmmf(mf, uhf)
    s = mf.get_ovlp()
    mx = Model(fx.cluster, dn, dm, uhf, None)
    t1, t2 = as_u(fx.results.wf, uhf)
    d = denom(mx)
    if min(abs(x).min() for x in d[0]) < 1e-3:
        raise Skip("small denominators")
    r1, r2 = div(*residual(mx, t1, t2), d)
    u1, u2 = add(t1, r1), add(t2, r2)
    cox, cvx = spins(fx.cluster.c_active_occ, uhf), spins(fx.cluster.c_active_vir, uhf)
    dt1, dt2 = tuple(0 * x for x in t1), tuple(0 * x for x in t2)
    exact = True
    tag = "%s uhf=%s x=%s y=%s frag=%s groups=%s %s proj=%s low=%s" % (sp["name"] if sp else "hubbard", uhf, xbath, ybath, ft, yg, ctypes, projs, low)
    tol = 2e-6
    for fy, cc, c, p, l in zip(fcis, ccs, ctypes, projs, low):
        coy, cvy = spins(fy.cluster.c_active_occ, uhf), spins(fy.cluster.c_active_vir, uhf)
        ro = [a.T @ s @ b for a, b in zip(cox, coy)]
        rv = [a.T @ s @ b for a, b in zip(cvx, cvy)]
        cf = spins(fy.c_frag, uhf)
        q = [a.T @ s @ b for a, b in zip(coy, cf)]
        pr = [x @ x.T for x in q]
        y1, y2 = as_u(fy.results.wf.as_ccsd(), uhf)
        my = Model(fy.cluster, dn, dm, uhf, None)
        if c == "tailor":
            z1, z2 = rotate(u1, u2, [x.T for x in ro], [x.T for x in rv])
            e1, e2 = add(y1, [-x for x in z1]), add(y2, [-x for x in z2])
        elif c == "delta-tailor":
            mon.close("same cluster", cat(spins(cc.cluster.c_active, uhf)), cat(spins(fy.cluster.c_active, uhf)), 1e-9, tag)
            z1, z2 = as_u(cc.results.wf, uhf)
            rr = residual(my, z1, z2)
            mon.zero("uncorrected coupled-cluster equations", max(abs(x).max(initial=0) for y in rr for x in y), 1e-6, tag)
            e1, e2 = add(y1, [-x for x in z1]), add(y2, [-x for x in z2])
        else:
            ev, vec = np.linalg.eigh(my.H)
            vec = vec[:, 0]
            if abs(vec[my.sp.i0]) < 0.6 or ev[1] - ev[0] < 1e-2:
                raise Skip("no dominant determinant")
            y1, y2 = my.sp.cc_from_ci(*my.sp.amplitudes(vec))
            tol = 1e-4
            e1, e2 = residual(my, y1, y2)
            e1, e2 = tuple(-x for x in e1), tuple(-x for x in e2)
            if l:
                t3 = t3_array(my, vec)
                one = [np.eye(x.shape[1]) for x in coy]
                onv = [np.eye(x.shape[1]) for x in cvy]
                inner = v_t3(dn, t3, coy, cvy, coy, cvy, one, onv)
                e2 = add(e2, [-x for x in inner])
        e1, e2 = project(e1, e2, pr, p)
        e1, e2 = rotate(e1, e2, ro, rv)
        if c == "external":
            if l:
                px = [a.T @ s @ b for a, b in zip(cox, cf)]
                px = [x @ x.T for x in px]
                z = v_t3(dn, t3, cox, cvx, coy, cvy, ro, rv)
                e2 = add(e2, project(t1, z, px, p)[1])
            e1, e2 = div(e1, e2, d)
        dt1, dt2 = add(dt1, e1), add(dt2, e2)
        mon.event(c)
        mon.event("p%d" % p)
        if c == "external":
            mon.event("low" if l else "high")
    if len(set(ctypes)) > 1:
        mon.event("mixed")
    if uhf:
        mon.event("uhf")
    mon.seen(sorted(ctypes), tuple(projs), tuple(low), uhf, xbath["bathtype"], ybath, ny)
    mon.event("correction nonzero", int(max(abs(x).max(initial=0) for x in dt1 + dt2) > 1e-4))
    mon.zero("corrected singles equations", max(abs(a + b).max(initial=0) for a, b in zip(r1, dt1)), tol, tag)
    mon.zero("corrected doubles equations", max(abs(a + b).max(initial=0) for a, b in zip(r2, dt2)), tol, tag)
    # consequences: exact corrections of the whole cluster make it exact
    full = ybath == "full" and xbath["bathtype"] == "full"
    if full and (projs == [0] or (set(projs) == {1} and ny == len(groups))) and set(ctypes) == {"external"}:
        ev, vec = np.linalg.eigh(mx.H)
        if abs(vec[mx.sp.i0, 0]) > 0.8 and ev[1] - ev[0] > 0.02:
            mon.event("exact")
            x1, x2 = mx.sp.cc_from_ci(*mx.sp.amplitudes(vec[:, 0]))
            mon.close("exact amplitudes from exact corrections", cat(t1), cat(x1), 5e-4, tag)
            mon.close("exact amplitudes from exact corrections", cat(t2), cat(x2), 5e-4, tag)
    # the correction can be taken back
    if rng.random() < 0.3:
        fx.clear_external_corrections()
        fx.kernel()
        if fx.results.converged:
            mon.event("cleared")
            rr = residual(mx, *as_u(fx.results.wf, uhf))
            mon.zero("equations after clearing the corrections", max(abs(x).max(initial=0) for y in rr for x in y), 1e-6, tag)


def run_tcc(case, mon, mf, rng, rs):
    import vayesta.ewf
    from vayesta.solver import get_solver_class

    sp = case["sys"]
    bath = rng.choice([dict(bathtype="full"), dict(bathtype="dmet"), dict(bathtype="mp2", threshold=10 ** rng.uniform(-5, -2))])
    emb = vayesta.ewf.EWF(mf, bath_options=bath, solver="TCCSD", solver_options=dict(conv_tol=1e-11, conv_tol_normt=1e-8, max_cycle=200, solve_lambda=False))
    mf = emb.mf
    nat = emb.mol.natm
    with rng.choice([emb.iao_fragmentation, emb.sao_fragmentation])() as f:
        fx = f.add_atomic_fragment(sorted(rng.sample(range(nat), rng.randint(1, nat - 1))))
    fx.make_bath()
    fx.make_cluster()
    cl = fx.cluster
    small(cl, False)
    how = rng.choice(["direct", "direct", "direct", "fragment", "set_cas"])
    no, nv = cl.c_active_occ.shape[1], cl.c_active_vir.shape[1]
    dn = Dense(mf, sp)
    dm = dmmf(mf, False)
    v = None
    s = mf.get_ovlp()
    qo = np.linalg.qr(rs.standard_normal((no, no)))[0][:, :rng.randint(1, min(no, 3))]
    qv = np.linalg.qr(rs.standard_normal((nv, nv)))[0][:, :rng.randint(1, min(nv, 3))]
    co, cv = cl.c_active_occ @ qo, cl.c_active_vir @ qv
    if how == "direct":
        ham = fx.get_frag_hamil()
        if rng.random() < 0.5:
            v = 0.3 * sym(rs, no + nv)
            ham.v_ext = v
        solver = get_solver_class(ham, "TCCSD")(ham, c_cas_occ=co, c_cas_vir=cv, conv_tol=1e-11, conv_tol_normt=1e-8, max_cycle=200, solve_lambda=False)
        np.random.seed(case["rs"] & 0xffff)
        solver.kernel()
        wf, conv = solver.wf, solver.converged
    else:
        if how == "set_cas":
            fx.set_cas(c_occ=co, c_vir=cv)
        else:
            co, cv = fx._dmet_bath.c_cluster_occ, fx._dmet_bath.c_cluster_vir
            qo, qv = cl.c_active_occ.T @ s @ co, cl.c_active_vir.T @ s @ cv
            if min(qo.shape[1], qv.shape[1]) == 0:
                raise Skip("empty active space")
        np.random.seed(case["rs"] & 0xffff)
        fx.kernel()
        wf, conv = fx.results.wf, fx.results.converged
    if not conv:
        raise Skip("tailored equations not converged")
    m = Model(cl, dn, dm, False, v)
    d = denom(m)
    if min(abs(x).min() for x in d[0]) < 1e-3:
        raise Skip("small denominators")
    from vayesta.core.types import Cluster, Orbitals

    vc = None
    if v is not None:
        b = np.zeros((no + nv, qo.shape[1] + qv.shape[1]))
        b[:no, :qo.shape[1]], b[no:, qo.shape[1]:] = qo, qv
        vc = b.T @ v @ b
    mc = Model(Cluster(Orbitals(np.hstack((co, cv)), occ=co.shape[1]), None), dn, dm, False, vc)
    ev, vec = np.linalg.eigh(mc.H)
    if abs(vec[mc.sp.i0, 0]) < 0.6 or (len(ev) > 1 and ev[1] - ev[0] < 1e-2):
        raise Skip("no dominant determinant")
    c1, c2 = mc.sp.cc_from_ci(*mc.sp.amplitudes(vec[:, 0]))
    c1, c2 = c1[0], c2[1]
    tag = "%s %s cas=%s of %s v_ext=%s %s" % (sp["name"], bath, (qo.shape[1], qv.shape[1]), (no, nv), v is not None, how)
    mon.event("TCCSD")
    mon.event("TCCSD:" + how)
    mon.seen("TCCSD", how, v is not None, bath["bathtype"], qo.shape[1], qv.shape[1])
    mon.close("active-space singles", qo.T @ wf.t1 @ qv, c1, 2e-4, tag)
    mon.close("active-space doubles", np.einsum("Ii,Jj,Aa,Bb,IJAB->ijab", qo, qo, qv, qv, wf.t2, optimize=True), c2, 2e-4, tag)
    (r1, _), (_, r2, _) = div(*residual(m, *as_u(wf, False)), d)
    po, pv = qo @ qo.T, qv @ qv.T
    mon.zero("singles equations outside the active space", abs(r1 - po @ r1 @ pv).max(), 2e-6, tag)
    mon.zero("doubles equations outside the active space", abs(r2 - np.einsum("Ii,Jj,Aa,Bb,ijab->IJAB", po, po, pv, pv, r2, optimize=True)).max(), 2e-6, tag)
