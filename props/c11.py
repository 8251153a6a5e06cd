"""C11: global density matrices and energies do not depend on the route by which they are evaluated."""
import contextlib
import random

import numpy as np

from lib import ref, systems as S
from lib.mon import Skip
from props import c04

RULE = ("one embedding calculation with truncated clusters whose global density matrices were evaluated by every route and option, compared "
        "with each other, with a dense reconstruction from the cluster wave functions, and with the energies contracted from them")
BUDGET = {"quick": 150, "thorough": 1500}
NEED = {"route": 150, "demo-ref": 20, "uhf": 15, "sym": 6, "partial-trace": 10, "repeat": 30, "as-lambda": 8, "projected-energy": 8}
ASSUMPTIONS = ["cluster wave functions delivered by the solvers are the input of the reconstruction"]
CLOSED = ["h4", "h6", "lih", "beh2", "h2o", "heh2", "bh", "h6chain"]
OPEN = ["ch2", "h3", "h5", "nh", "beh"]


def cases(rng, tier):
    out = []
    for i in range(130 if tier == "quick" else 900):
        solver = ["CCSD", "MP2", "CCSD", "FCI", "CISD"][i % 5]
        opn = rng.random() < 0.35
        name = rng.choice(OPEN if opn else CLOSED)
        basis = "6-31g" if name in ("h4", "h3", "h5", "h6", "lih", "heh2", "h6chain") and rng.random() < 0.7 else "sto-3g"
        if solver in ("FCI", "CISD") and name in ("h6", "h6chain"):
            basis = "sto-3g"
        sp = S.mol(rng, name, basis, df=True if rng.random() < 0.3 else None, uhf=opn or rng.random() < 0.25)
        natm = len(sp["atom"])
        out.append(dict(kind="mol", sys=sp, solver=solver, groups=S.partition(rng, natm, rng.randint(min(2, natm), natm)),
                        frag=rng.choice(["iao", "sao", "sao"]), bath=rng.choice([["dmet", 0], ["mp2", 10 ** rng.uniform(-5, -2.5)], ["mp2", 1e-3]]),
                        rs=rng.randrange(10 ** 6), w=3))
    n = 0
    while n < (16 if tier == "quick" else 120):
        kind = rng.choice(["rotation", "mirror", "inversion", "nested"])
        sy, xyz, ctx, par = c04.sym_system(rng, kind)
        if set(sy) != {"H"} or len(sy) > 6:
            continue
        uhf = len(sy) % 2 == 1 or rng.random() < 0.4
        sp = dict(type="mol", name=kind, atom=[[a, c] for a, c in zip(sy, xyz)], basis="6-31g" if len(sy) <= 4 else "sto-3g", df=None, uhf=uhf, charge=0,
                  spin=len(sy) % 2)
        out.append(dict(kind="sym", sys=sp, ctx=ctx, par=par, solver=["CCSD", "MP2"][n % 2], frag="sao", bath=["mp2", 10 ** rng.uniform(-4, -2.5)],
                        rs=rng.randrange(10 ** 6), w=3))
        n += 1
    for i in range(4 if tier == "quick" else 20):
        sp = S.cell(rng, "h2", [(2, 1, 1), (1, 3, 1)][i % 2], basis="6-31g" if i % 2 == 0 else "sto-3g", uhf=bool((i // 2) % 2))
        out.append(dict(kind="kpts", sys=sp, solver=["CCSD", "MP2"][i % 2], groups=[[0], [1]], frag="sao", bath=["mp2", 1e-4], rs=rng.randrange(10 ** 6), w=8))
    return out


def tup(x):
    return tuple(x) if isinstance(x, (tuple, list)) else (x,)


def run(case, mon):
    import vayesta.ewf

    sp, solver = case["sys"], case["solver"]
    mf = S.get_mf(sp)
    if S.gap(mf) < 0.08:
        raise Skip("small gap")
    uhf = sp["uhf"]
    rng = random.Random(case["rs"])
    so = dict(conv_tol=1e-10)
    if solver == "CCSD":
        so.update(conv_tol_normt=1e-8, solve_lambda=True)
    bt, thr = case["bath"]
    bath = dict(bathtype=bt)
    if bt == "mp2":
        bath["threshold"] = thr
    emb = vayesta.ewf.EWF(mf, solver=solver, bath_options=bath, solver_options=so, energy_functional="wf", calc_e_dm_corr=solver in ("CCSD", "MP2") and rng.random() < 0.4)
    if case["kind"] == "sym":
        c04_ok(mf, case)
        with emb.sao_fragmentation() as f, contextlib.ExitStack() as st:
            for p in case["par"]:
                if isinstance(p, list):
                    f.add_atomic_fragment(p)
            for c in case["ctx"]:
                st.enter_context(c04.apply_ctx(f, c, "Ang"))
            for p in case["par"]:
                if not isinstance(p, list):
                    f.add_atomic_fragment(p)
    else:
        S.fragment(emb, dict(type=case["frag"], groups=case["groups"]))
    emb.kernel()
    if not emb.converged:
        raise Skip("not converged")
    kids = any(f.sym_parent is not None for f in emb.fragments)
    mon.event("sym" if kids else "nosym")
    mon.event("uhf" if uhf else "rhf")
    mon.seen(sp["name"], sp["basis"], solver, uhf, case["frag"], bt, kids, len(emb.fragments))
    d = "%s %s %s %s %s" % (sp["name"], sp["basis"], solver, "uhf" if uhf else "rhf", bath)
    mo = [np.asarray(c) for c in (emb.mo_coeff if uhf else (emb.mo_coeff,))]
    nocc = [int(n) for n in (emb.nocc if uhf else (emb.nocc,))]
    nelec = float(sum(nocc) if uhf else 2 * nocc[0])
    one = 1.0 if uhf else 2.0
    ao1 = lambda xs: [c @ np.asarray(x) @ c.T for c, x in zip(mo, xs)]
    spins = ((0, 0), (0, 1), (1, 1)) if uhf else ((0, 0),)
    ao2 = lambda xs: [np.einsum("ijkl,pi,qj,rk,sl->pqrs", np.asarray(x), mo[a], mo[a], mo[b], mo[b], optimize=True) for x, (a, b) in zip(xs, spins)]
    small = max(c.shape[1] for c in mo) <= 12

    def mf_removed(xs):
        out = [np.array(x) for x in xs]
        for x, n in zip(out, nocc):
            x[np.diag_indices(n)] -= one
        return out

    if solver == "CCSD" and case["kind"] == "mol" and rng.random() < 0.4:
        # the option and the argument mean the same
        so2 = dict(so, solve_lambda=rng.random() < 0.5)
        emb2 = vayesta.ewf.EWF(mf, solver=solver, bath_options=bath, solver_options=so2, calc_e_dm_corr=rng.random() < 0.6, t_as_lambda=True)
        S.fragment(emb2, dict(type=case["frag"], groups=case["groups"]))
        emb2.kernel()
        if emb2.converged:
            k = "%s solve_lambda=%s calc_e_dm_corr=%s" % (d, so2["solve_lambda"], emb2.opts.calc_e_dm_corr)
            mon.close("option t_as_lambda: cumulant energy", emb2.get_dm_corr_energy_e2(), emb.get_dm_corr_energy_e2(t_as_lambda=True), 1e-7, k)
            mon.close("option t_as_lambda: density-matrix energy", emb2.get_dm_corr_energy(), emb.get_dm_corr_energy(t_as_lambda=True), 1e-7, k)
            mon.close("option t_as_lambda: 1-DM", tup(emb2._make_rdm1_ccsd_global_wf()), tup(emb._make_rdm1_ccsd_global_wf(t_as_lambda=True)), 1e-6, k)
            mon.event("option")
    # --- 1-DM of the global wave function: every route
    if solver in ("CCSD", "MP2"):
        base = dict(t_as_lambda=True, with_t1=False) if solver == "MP2" else rng.choice([{}, {}, dict(t_as_lambda=True), dict(with_t1=False)])
        fn = emb._make_rdm1_ccsd_global_wf
        want = tup(fn(slow=True, **base))
        opts = [dict(svd_tol=s, late_t2_sym=l, use_sym=u) for s in (None, 1e-13) for l in (True, False) for u in (True, False)] + [dict(svd_tol=1e-13, ovlp_tol=0.0)]
        for k in opts:
            mon.close("1-DM of the global wave function is independent of the algorithm", tup(fn(**base, **k)), want, 1e-6 if kids else 1e-9, "%s %s %s" % (d, base, k))
            mon.event("route")
        mon.close("default thresholds change the 1-DM by no more than their size", tup(fn(**base)), want, 2e-2, d)
        public = tup(emb.make_rdm1())
        if base == dict(t_as_lambda=True, with_t1=False) or not base:
            mon.close("make_rdm1 is the 1-DM of the global wave function", public, want, 2e-2, d)
        mon.close("1-DM has the number of electrons", sum(np.trace(x) for x in want), nelec, 1e-8, d)
        mon.close("1-DM is symmetric", want, [np.asarray(x).T for x in want], 1e-8, d)
        if uhf:
            mon.close("1-DM has the number of electrons of each spin", [np.trace(x) for x in want], [float(n) for n in nocc], 1e-8, d)
    if solver == "CCSD" and not kids:
        for nm in ("_make_rdm1_ccsd",) + (("_make_rdm1_ccsd_proj_lambda",) if not uhf else ()):
            options(mon, nm, getattr(emb, nm), mo, nocc, one, d)
    if solver in ("CCSD", "MP2"):
        options(mon, "make_rdm1", emb.make_rdm1, mo, nocc, one, d)
    # --- repeated calls, after the caller has overwritten what was returned
    for nm, call in ([("make_rdm1", emb.make_rdm1)] if solver in ("CCSD", "MP2") else []) + [("make_rdm1_demo", emb.make_rdm1_demo)]:
        if solver == "MP2" and uhf and nm == "make_rdm1_demo":
            continue
        if solver == "CISD" and nm == "make_rdm1_demo":
            continue
        a = tup(call())
        keep = [np.array(x) for x in a]
        for x in a:
            x[...] = 7.0
        mon.close("a result does not change when the previously returned array is overwritten", tup(call()), keep, 1e-12, "%s %s" % (nm, d))
        mon.event("repeat")
    # --- democratically partitioned density matrices against a dense reconstruction
    has_dm = not (solver == "CISD" or solver == "MP2" and uhf)
    if has_dm:
        s = np.asarray(emb.get_ovlp())
        dm1r = [np.zeros((c.shape[1],) * 2) for c in mo]
        dm2r = None
        with2 = small and solver in ("CCSD", "FCI")
        if with2:
            dm2r = [np.zeros((mo[a].shape[1],) * 2 + (mo[b].shape[1],) * 2) for a, b in spins]
        for x in emb.fragments:
            src = x
            if x.sym_parent is not None and x._results is None:
                src = None
            w = (x.results if src is not None else None)
            if w is None:
                dm1r = None
                break
            cact = [np.hstack([np.asarray(o), np.asarray(v)]) for o, v in (zip(x.cluster.c_active_occ, x.cluster.c_active_vir) if uhf else [(x.cluster.c_active_occ, x.cluster.c_active_vir)])]
            cfo = [np.asarray(c) for c in (x.cluster.c_frozen_occ if uhf else (x.cluster.c_frozen_occ,))]
            cf = [np.asarray(c) for c in (x.c_frag if uhf else (x.c_frag,))]
            for k in range(len(mo)):
                # Orbitals with occupations within the DMET threshold of 0 or 1 are only frozen up to that threshold
                n = nocc[k] if isinstance(nocc, (tuple, list)) else nocc
                co = np.asarray(mo[k])[:, :n]
                if np.abs((cact[k].T @ s @ co) @ (co.T @ s @ cfo[k])).max(initial=0.0) > 1e-8:
                    raise Skip("fragment orbital at the edge of the DMET bath threshold")
            full1, proj = [], []
            for k in range(len(mo)):
                r = mo[k].T @ s @ cact[k]
                fz = mo[k].T @ s @ cfo[k]
                full1.append(r @ np.asarray(tup(w.wf.make_rdm1())[k]) @ r.T + one * fz @ fz.T)
                p = mo[k].T @ s @ cf[k]
                proj.append(p @ p.T)
                dm1r[k] += proj[k] @ full1[k]
            if with2:
                c2 = tup(w.wf.make_rdm2())
                for j, (a, b) in enumerate(spins):
                    ra, rb = mo[a].T @ s @ cact[a], mo[b].T @ s @ cact[b]
                    fa, fb = (mo[k].T @ s @ cfo[k] for k in (a, b))
                    fa, fb = fa @ fa.T, fb @ fb.T
                    ga, gb = (r_ @ np.asarray(tup(w.wf.make_rdm1())[k]) @ r_.T for r_, k in ((ra, a), (rb, b)))
                    g = np.einsum("ijkl,pi,qj,rk,sl->pqrs", np.asarray(c2[j]), ra, ra, rb, rb, optimize=True)
                    if uhf:
                        g = g + np.einsum("pq,rs->pqrs", fa, gb) + np.einsum("pq,rs->pqrs", ga, fb) + np.einsum("pq,rs->pqrs", fa, fb)
                        if a == b:
                            g = g - np.einsum("pq,rs->psrq", fa, gb) - np.einsum("pq,rs->psrq", ga, fb) - np.einsum("pq,rs->psrq", fa, fb)
                    else:
                        fa, fb = 2 * fa, 2 * fb
                        for u, v in ((fa, gb), (ga, fb), (fa, fb)):
                            g = g + np.einsum("pq,rs->pqrs", u, v) - np.einsum("pq,rs->psrq", u, v) / 2
                    if uhf and a != b:
                        dm2r[j] += (np.einsum("xi,ijkl->xjkl", proj[a], g) + np.einsum("xk,ijkl->ijxl", proj[b], g)) / 2
                    else:
                        dm2r[j] += np.einsum("xi,ijkl->xjkl", proj[a], g)
        if dm1r is not None and case["frag"] == "sao":
            tol = 1e-7
            mon.close("partitioned 1-DM equals its reconstruction from the cluster states", tup(emb.make_rdm1_demo()), [(x + x.T) / 2 for x in dm1r], tol, d)
            mon.close("partitioned 1-DM without symmetrisation", tup(emb.make_rdm1_demo(symmetrize=False)), dm1r, tol, d)
            mon.event("demo-ref")
            if with2:
                mon.close("fully partitioned 2-DM equals its reconstruction from the cluster states",
                          [_sym(x, j != 1) for j, x in enumerate(tup(emb.make_rdm2_demo(part_cumulant=False)))], [_sym(x, j != 1) for j, x in enumerate(dm2r)], tol, d)
                mon.event("demo2-ref")
        options(mon, "make_rdm1_demo", emb.make_rdm1_demo, mo, nocc, one, d)
    # --- energies contracted from the density matrices
    pbc = sp["type"] == "cell"
    if pbc or not small:
        eri = None
    else:
        eri = ref.ao_eri(mf)
    if eri is None:
        return
    h, f = np.asarray(mf.get_hcore()), np.asarray(mf.get_fock())
    f = f if f.ndim == 3 else f[None]

    def e2(xs):
        xs = [np.asarray(x) for x in xs]
        return (np.sum(eri * xs[0]) + np.sum(eri * xs[2])) / 2 + np.sum(eri * xs[1]) if uhf else np.sum(eri * xs[0]) / 2

    if has_dm and solver in ("CCSD", "FCI") and case["frag"] == "sao":
        for pc, ac in ((True, True), (True, False), (False, True)):
            d1, d2 = tup(emb.make_rdm1_demo(ao_basis=True)), tup(emb.make_rdm2_demo(ao_basis=True, part_cumulant=pc, approx_cumulant=ac))
            e = mf.energy_nuc() + sum(np.sum(h * x) for x in d1) + e2(d2)
            k = "%s part_cumulant=%s approx_cumulant=%s" % (d, pc, ac)
            mon.close("partitioned energy is the one contracted from the partitioned density matrices", emb.get_dmet_energy(part_cumulant=pc, approx_cumulant=ac), e, 1e-6, k)
            mon.event("demo-energy")
        k = "%s part_cumulant approx" % d
        dd1 = tup(emb.make_rdm1_demo(ao_basis=True, with_mf=False))
        dd2 = tup(emb.make_rdm2_demo(ao_basis=True, with_dm1=False, part_cumulant=True, approx_cumulant=True))
        mon.close("partitioned energy from the cumulant form", emb.get_dmet_energy(), mf.e_tot + sum(np.sum(a * b) for a, b in zip(f, dd1)) + e2(dd2), 1e-6, k)
        d1 = tup(emb.make_rdm1_demo(ao_basis=True))
        dd2 = tup(emb.make_rdm2_demo(ao_basis=True, with_dm1=False, part_cumulant=True, approx_cumulant=False))
        fc = np.asarray(mf.get_fock(dm=np.asarray(d1) if uhf else d1[0]))
        fc = fc if fc.ndim == 3 else fc[None]
        mon.close("partitioned energy from the true cumulant form", emb.get_dmet_energy(approx_cumulant=False),
                  mf.energy_nuc() + sum(np.sum((h + a) * b) for a, b in zip(fc, d1)) / 2 + e2(dd2), 1e-5 if sp.get("df") else 1e-6, k)
        mon.close("get_e_corr('dmet')", emb.get_e_corr("dmet"), emb.get_dmet_energy() - emb.e_mf, 1e-9, d)
    if solver == "CCSD":
        for tl in (None, True):
            k = "%s t_as_lambda=%s" % (d, tl)
            d1 = tup(emb._make_rdm1_ccsd_global_wf(with_mf=False, ao_basis=True, t_as_lambda=tl))
            c1 = sum(np.sum(a * b) for a, b in zip(f, d1))
            dd2 = tup(emb._make_rdm2_ccsd_proj_lambda(with_dm1=False, t_as_lambda=tl))
            e = c1 + e2(ao2(dd2))
            mon.close("density-matrix energy is the one contracted from the projected density matrices", emb.get_dm_corr_energy(t_as_lambda=tl), e, 1e-7, k)
            mon.close("energy functional by name", emb.get_e_corr("dm-t2only" if tl else "dm"), e, 1e-7, k)
            dd2 = tup(emb._make_rdm2_ccsd_global_wf(with_dm1=False, t_as_lambda=tl, **({} if uhf else dict(ao_basis=False))))
            if not uhf:
                mon.close("density-matrix energy is the one contracted from the global density matrices",
                          emb.get_dm_corr_energy(dm2="global-wf", t_as_lambda=tl), c1 + e2(ao2(dd2)), 1e-7, k)
            # partial trace of the full 2-DM (exact for any amplitudes)
            g1 = [np.asarray(x) for x in tup(emb._make_rdm1_ccsd_global_wf(slow=True, t_as_lambda=tl))]
            g2 = [np.asarray(x) for x in tup(emb._make_rdm2_ccsd_global_wf(with_dm1=True, t_as_lambda=tl))]
            if uhf:
                na, nb = nocc
                mon.close("partial trace of the alpha-alpha 2-DM", np.einsum("ijkk->ij", g2[0]), (na - 1) * g1[0], 1e-7, k)
                mon.close("partial trace of the beta-beta 2-DM", np.einsum("ijkk->ij", g2[2]), (nb - 1) * g1[1], 1e-7, k)
                mon.close("partial traces of the alpha-beta 2-DM", [np.einsum("ijkk->ij", g2[1]), np.einsum("kkij->ij", g2[1])], [nb * g1[0], na * g1[1]], 1e-7, k)
            else:
                mon.close("partial trace of the 2-DM", np.einsum("ijkk->ij", g2[0]), (nelec - 1) * g1[0], 1e-7, k)
            mon.event("partial-trace")
        mon.close("kernel energy is the projected energy", emb.e_corr, emb.get_e_corr("wf"), 1e-9, d)
        if not uhf:
            projected_energy(emb, mf, mo[0], nocc[0], f[0], eri, mon, d)
        if not kids:
            as_lambda(emb, rng, uhf, mon, d)


def projected_energy(emb, mf, mo, nocc, f, eri, mon, d):
    """Energy of the projected global amplitudes, from the amplitudes of the clusters."""
    s = np.asarray(emb.get_ovlp())
    o, v = mo[:, :nocc], mo[:, nocc:]
    g = np.einsum("pqrs,pi,qa,rj,sb->iajb", eri, o, v, o, v, optimize=True)
    t1, t2 = np.asarray(emb.get_global_t1()), np.asarray(emb.get_global_t2())
    es = 2 * np.sum((o.T @ f @ v) * t1)
    ed = lambda c: 2 * np.einsum("ijab,iajb->", c, g) - np.einsum("ijab,ibja->", c, g)
    mon.close("projected energy of the global amplitudes", emb.get_ccsd_corr_energy(full_wf=True), es + ed(t2 + np.einsum("ia,jb->ijab", t1, t1)), 1e-8, d)
    tot = es
    for x in emb.fragments:
        src = x
        if x._results is None:
            return
        wf = x.results.wf
        ro, rv = o.T @ s @ x.cluster.c_active_occ, v.T @ s @ x.cluster.c_active_vir
        # rotated back exactly only inside the cluster
        po = ro.T @ o.T @ s @ x.c_frag
        po = po @ po.T
        c2 = np.einsum("xi,ijab->xjab", po, wf.t2) + np.einsum("xi,ia,jb->xjab", po, wf.t1, ro.T @ t1 @ rv)
        c2 = np.einsum("xjab,ix,kj,ca,db->ikcd", c2, ro, ro, rv, rv, optimize=True)
        tot += ed(c2)
    mon.close("projected energy of global singles and cluster doubles", emb.get_ccsd_corr_energy(), tot, 1e-8, d)
    mon.event("projected-energy")


def as_lambda(emb, rng, uhf, mon, d):
    """Using T in place of Lambda is the same as clusters whose Lambda amplitudes are their T amplitudes."""
    frags = [x for x in emb.fragments if x._results is not None]
    part = rng.sample(frags, rng.randint(1, len(frags))) if rng.random() < 0.5 else frags
    fns = dict(l1=lambda **k: emb.get_global_l1(**k), l2=lambda **k: emb.get_global_l2(**k))
    if len(part) == len(frags):
        fns.update(e2=lambda **k: emb.get_dm_corr_energy_e2(**k), rdm1=lambda **k: emb._make_rdm1_ccsd(**k), rdm1g=lambda **k: emb._make_rdm1_ccsd_global_wf(**k),
                   rdm2=lambda **k: emb._make_rdm2_ccsd_proj_lambda(**k), rdm2g=lambda **k: emb._make_rdm2_ccsd_global_wf(**k))
        if not uhf:
            fns["rdm1p"] = lambda **k: emb._make_rdm1_ccsd_proj_lambda(**k)
    got = {}
    for x in part:
        x.opts.t_as_lambda = len(part) < len(frags) or None
    for nm, fn in fns.items():
        got[nm] = tup(fn(t_as_lambda=True) if len(part) == len(frags) else fn())
    if len(part) == len(frags):
        # requesting it for every fragment by option instead
        for x in part:
            x.opts.t_as_lambda = True
        for nm in ("l1", "l2"):
            mon.close("T in place of Lambda requested by option: %s" % nm, tup(fns[nm]()), got[nm], 1e-10, d)
    for x in part:
        x.opts.t_as_lambda = None
        for w in (x.results.wf, x.results.pwf):
            w.l1, w.l2 = w.t1, w.t2
    for nm, fn in fns.items():
        mon.close("T in place of Lambda: %s" % nm, tup(fn(t_as_lambda=False) if nm not in ("l1", "l2") else fn()), got[nm], 1e-9, d)
    mon.event("as-lambda")


def _sym(x, pair=True):
    x = np.asarray(x)
    x = (x + x.transpose(1, 0, 3, 2)) / 2
    return (x + x.transpose(2, 3, 0, 1)) / 2 if pair else x


def options(mon, nm, fn, mo, nocc, one, d):
    full = [np.asarray(x) for x in tup(fn())]
    corr = [np.array(x) for x in full]
    for x, n in zip(corr, nocc):
        x[np.diag_indices(n)] -= one
    mon.close("with_mf=False removes the mean-field density matrix", tup(fn(with_mf=False)), corr, 1e-9, "%s %s" % (nm, d))
    mon.close("ao_basis is the orbital transformation", tup(fn(ao_basis=True)), [c @ x @ c.T for c, x in zip(mo, full)], 1e-8, "%s %s" % (nm, d))
    mon.close("ao_basis without mean field", tup(fn(ao_basis=True, with_mf=False)), [c @ x @ c.T for c, x in zip(mo, corr)], 1e-8, "%s %s" % (nm, d))
    mon.event("options")


def c04_ok(mf, case):
    if not c04.mf_symmetric(mf, case["ctx"]):
        raise Skip("mean field breaks the symmetry")
