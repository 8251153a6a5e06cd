"""C12: every cluster solver returns its method's solution of the cluster Hamiltonian."""
import random

import numpy as np

from lib.mon import Skip
from props.c10 import Dense, build, cat, lattice_mf, spins, sym

RULE = ("one solver run on one cluster Hamiltonian (built from a truncated cluster of a molecule, cell or lattice, with or without an external potential); "
        "the returned wave function inserted into the defining equations of the method in a determinant space built independently; "
        "distinct = (solver and options, system, spin, potential)")
NEED = {"solver:MP2": 8, "solver:CISD": 8, "solver:CCSD": 12, "solver:FCI": 12, "solver:EBCC": 4, "lambda": 10, "uhf": 15, "unequal": 2, "ground": 40, "v_ext": 15}
BUDGET = {"quick": 130, "thorough": 1500}
CASE_TIMEOUT = 300
ASSUMPTIONS = ["clusters of at most 1300 determinants; (near-)degenerate ground states are skipped; unconverged solvers are skipped"]

OPTS = {"CCSD": dict(conv_tol=1e-11, conv_tol_normt=1e-9, max_cycle=200), "FCI": dict(conv_tol=1e-13), "CISD": dict(conv_tol=1e-12), "MP2": {},
        "EBCC": dict(conv_tol=1e-11, conv_tol_normt=1e-9, max_cycle=200)}


def cases(rng, tier):
    from lib import systems as S

    full = tier == "thorough"
    out = []
    names = ["h4", "lih", "h4chain", "h5", "heh2", "nh", "oh", "bh", "h4", "ch2", "h2o"]
    for i in range(260 if full else 60):
        nm = names[i % len(names)]
        sp = S.mol(rng, nm, rng.choice(["sto-3g", "6-31g"]) if nm in ("h4", "lih", "h5", "heh2") else "sto-3g", df=rng.choice([None, None, True]),
                   uhf=None if rng.random() < 0.7 else True)
        out.append(dict(kind="mol", w=3, rs=rng.randrange(1 << 30), sys=sp))
    for i in range(30 if full else 6):
        dim = 2 if i % 3 == 2 else 3
        sp = S.cell(rng, rng.choice(["h2", "heh2"]), rng.choice([(1, 1, 1), (2, 1, 1)]), "6-31g" if i % 2 else "sto-3g", uhf=i % 2 == 1, dim=dim, skew=dim == 3,
                    amp=0.05, exxdiv=rng.choice(["ewald", "ewald", None]))
        out.append(dict(kind="pbc", w=6, rs=rng.randrange(1 << 30), sys=sp))
    for i in range(24 if full else 6):
        out.append(dict(kind="latt", w=1, rs=rng.randrange(1 << 30), n=6, u=rng.uniform(1, 6), v=0.0, uhf=i % 2 == 1))
    return out


class Model:
    """Dense model of one cluster."""

    def __init__(self, cl, dn, dmmf, uhf, v):
        from lib.ci import Space

        self.uhf = uhf
        ca, co = (spins(x, uhf) for x in (cl.c_active, cl.c_active_occ))
        self.no = [x.shape[1] for x in co]
        self.n = [x.shape[1] for x in ca]
        froz = [a - x @ x.T for a, x in zip(dmmf, co)]
        vs = spins(v, uhf) if v is not None else (0, 0)
        self.h = tuple(c.T @ (dn.h + w) @ c + x for c, w, x in zip(ca, dn.veff(froz), vs))
        self.g = (dn.tr(ca[0], ca[0], ca[0], ca[0]), dn.tr(ca[0], ca[0], ca[1], ca[1]), dn.tr(ca[1], ca[1], ca[1], ca[1]))
        self.sp = Space(self.n, self.no)
        self.fx = tuple(c.T @ (dn.h + w) @ c + x for c, w, x in zip(ca, dn.veff(dmmf, exxdiv=True), vs))
        self._h = None

    @property
    def H(self):
        if self._h is None:
            self._h = self.sp.hamiltonian(self.h, self.g)
        return self._h

    def e_rdm(self, d1, d2):
        if not self.uhf:
            return np.sum(self.h[0] * d1) + 0.5 * np.sum(self.g[0] * d2)
        return sum(np.sum(a * b) for a, b in zip(self.h, d1)) + 0.5 * np.sum(self.g[0] * d2[0]) + np.sum(self.g[1] * d2[1]) + 0.5 * np.sum(self.g[2] * d2[2])

    def s2(self):
        e = self.sp.e
        d = self.sp.dim
        n = self.n[0]
        x = np.einsum("pqIJ,qpKL->IKJL", e[0], e[1], optimize=True).reshape(d, d)
        na, nb = self.no
        return np.eye(d) * (((na - nb) / 2) ** 2 + (na + nb) / 2) - x


def t_of(wf, which, uhf):
    return getattr(wf, which)


def check_cc(mon, m, wf, tag, lam, rdm, tol):
    sp = m.sp
    t = sp.texc(wf.t1, wf.t2)
    hb = sp.expm(t, -1) @ m.H @ sp.expm(t)
    r = hb @ sp.ref
    sel = (sp.ranks == 1) | (sp.ranks == 2)
    e = r[sp.i0]
    mon.zero("coupled-cluster amplitude equations", abs(r[sel]).max() if sel.any() else 0.0, tol, tag)
    if lam:
        mon.event("lambda")
        left = sp.ref + sp.texc(wf.l1, wf.l2) @ sp.ref
        x = left @ hb - e * left
        mon.zero("lambda equations", abs(x[sel]).max() if sel.any() else 0.0, 5 * tol, tag)
        if rdm:
            mon.close("coupled-cluster energy from its density matrices", m.e_rdm(wf.make_rdm1(), wf.make_rdm2()), e, 5 * tol, tag)
    return e


def moving(cc):
    new = cc.update_amps()
    d = 0.0
    for k in ("t1", "t2"):
        a, b = new[k], cc.amplitudes[k]
        d = max([d] + [abs(a[x] - b[x]).max() for x in a] if hasattr(a, "keys") else [d, abs(a - b).max()])
    return d > 1e-6


def run(case, mon):
    emb, fx, mf, spec, bt, store, rng = build(case)
    uhf = np.ndim(mf.mo_occ[0]) > 0
    cl = fx.cluster
    rs = np.random.default_rng(case["rs"])
    n = [x.shape[1] for x in spins(cl.c_active, uhf)]
    no = [x.shape[1] for x in spins(cl.c_active_occ, uhf)]
    from scipy.special import comb

    odd = uhf and rng.random() < 0.35
    if odd or max(n) > 9 or comb(n[0], no[0]) * comb(n[1], no[1]) > 1300:
        # cut the cluster down to a random active space
        from vayesta.core.types import Cluster, Orbitals

        co, cv = [], []
        tgt = rng.choice([4, 5, 6])
        ko = [min(x, rng.choice([1, 2, 3])) for x in no]
        kv = [min(x - y, max(1, tgt - z)) for x, y, z in zip(n, no, ko)]
        if not uhf:
            ko, kv = ko[:1] * 2, kv[:1] * 2
        elif odd and kv[0] + ko[0] == kv[1] + ko[1] and kv[1] > 1:
            kv[1] -= 1
        for s in range(2):
            qo = np.linalg.qr(rs.standard_normal((no[s], no[s])))[0][:, :ko[s]]
            qv = np.linalg.qr(rs.standard_normal((n[s] - no[s],) * 2))[0][:, :kv[s]]
            if not uhf and s:
                co.append(co[0]), cv.append(cv[0])
                continue
            co.append(spins(cl.c_active_occ, uhf)[s] @ qo)
            cv.append(spins(cl.c_active_vir, uhf)[s] @ qv)
        c = tuple(np.hstack(x) for x in zip(co, cv))
        cl = Cluster(Orbitals(c if uhf else c[0], occ=tuple(ko) if uhf else ko[0]), None)
        n = [x.shape[1] for x in c]
        no = ko
        ham = fx.hamil.with_new_cluster(cl)
    else:
        ham = fx.get_frag_hamil()
    if min(no) == 0 or min(np.array(n) - no) == 0:
        raise Skip("empty space")
    dn = Dense(mf, spec)
    dm = spins(mf.make_rdm1(), uhf)
    if not uhf:
        dm = tuple(x / 2 for x in dm)
    v = None
    if rng.random() < 0.5:
        mon.event("v_ext")
        v = tuple(0.3 * sym(rs, k) for k in n) if uhf else 0.3 * sym(rs, n[0])
    ham.v_ext = v
    m = Model(cl, dn, dm, uhf, v)
    sp = m.sp
    if uhf:
        mon.event("uhf")
    eq = n[0] == n[1]
    if not eq:
        mon.event("unequal")
    ev, vec = np.linalg.eigh(m.H)
    tag0 = "%s %s uhf=%s n=%s nocc=%s v=%s " % (case["kind"], spec["name"] if spec else "hubbard", uhf, n, no, v is not None)

    from vayesta.solver import get_solver_class
    import vayesta.solver as vs

    def solve(name, **opts):
        o = dict(OPTS[name], **opts)
        solver = get_solver_class(ham, name)(ham, **o)
        np.random.seed(case["rs"] & 0xffff)
        try:
            solver.kernel()
        except AttributeError as err:
            if "numpy.linalg" in str(err):
                raise Skip("singular DIIS equations in PySCF")
            raise
        mon.event("solver:" + name)
        mon.seen(name, sorted(opts), case["kind"], uhf, eq, v is not None)
        return solver

    # MP2
    for opts in ({}, dict(compress_cderi=True)) if emb.has_df else ({},):
        wf = solve("MP2", **opts).wf
        es = [np.diag(f) for f in m.fx]
        eia = [e[:k, None] - e[None, k:] for e, k in zip(es, no)]
        for k, (i, j) in enumerate(((0, 0), (0, 1), (1, 1))):
            if not uhf and k != 1:
                continue
            gg = m.g[k][:no[i], no[i]:, :no[j], no[j]:].transpose(0, 2, 1, 3)
            if i == j:
                gg = gg - gg.transpose(0, 1, 3, 2)
            want = gg / (eia[i][:, None, :, None] + eia[j][None, :, None, :])
            if abs(want).max(initial=0) > 5:
                continue
            mon.close("MP2 amplitudes", wf.t2[k] if uhf else wf.t2, want, 1e-6, tag0 + str(opts))

    # CISD: an eigenvector of the Hamiltonian within the singles and doubles
    sel = np.flatnonzero(sp.ranks <= 2)
    if len(sel) > 1:
        es, vs_ = np.linalg.eigh(m.H[np.ix_(sel, sel)])
        s = solve("CISD")
        wf = s.wf
        x = sp.ref * wf.c0 + sp.texc(wf.c1, wf.c2) @ sp.ref
        mon.zero("CISD vector contains singles and doubles only", abs(np.delete(x, sel)).max(initial=0), 1e-10, tag0)
        mon.close("CISD norm", np.linalg.norm(x), 1.0, 1e-6, tag0)
        e = x @ m.H @ x
        if not s.converged:
            mon.event("unconverged CISD")
        else:
          mon.zero("CISD eigenvalue equation", abs((m.H @ x - e * x)[sel]).max(), 2e-4, tag0)
          mon.true("CISD energy is an eigenvalue", abs(es - e).min() < 1e-6, tag0 + "%s %s" % (e, es[:4]))
          if es[1] - es[0] > 0.03 and abs(vs_[list(sel).index(sp.i0), 0]) > 0.7:
              mon.close("CISD ground state", e, es[0], 1e-6, tag0)
    # CCSD
    for lam in (True, False):
        s = solve("CCSD", solve_lambda=lam, **(dict(init_guess="CISD") if rng.random() < 0.2 and eq and len(sel) > 1 else {}))
        if s.converged:
            check_cc(mon, m, s.wf, tag0 + "CCSD", lam, True, 1e-6)
            if not lam:
                a, b = (cat(s.wf.l1), cat(s.wf.t1)) if uhf else (s.wf.l1, s.wf.t1)
                mon.close("lambda = t when not solved", a, b, 1e-12, tag0)
    # FCI
    variants = [dict()]
    if eq:
        variants += [dict(init_guess="mf"), dict(threads=2, init_guess_noise=0)]
        if not uhf and no[0] == no[1]:
            variants.append(dict(solver_spin=False))
    for o in variants:
        try:
            s = solve("FCI", **o)
        except ValueError as err:
            if o == dict(solver_spin=False) and "not singlet" in str(err):
                mon.event("not a singlet")
                continue
            raise
        if not s.converged:
            mon.event("unconverged")
            continue
        wf = s.wf
        e = m.e_rdm(wf.make_rdm1(), wf.make_rdm2())
        t = tag0 + "FCI %s" % o
        if eq:
            x = np.asarray(wf.ci).ravel()
            mon.close("FCI norm", np.linalg.norm(x), 1.0, 1e-8, t)
            mon.zero("FCI eigenvalue equation", abs(m.H @ x - e * x).max(), 3e-5, t)
        mon.true("FCI energy is an eigenvalue", abs(ev - e).min() < 1e-7, t + " %.9f %s" % (e, ev[:4]))
        if abs(vec[sp.i0, 0]) > 0.5 and ev[1] - ev[0] > 1e-2:
            mon.close("FCI ground state", e, ev[0], 1e-7, t)
            mon.event("ground")
            c1, c2 = sp.amplitudes(vec[:, 0])
            ci = wf.as_cisd(c0=1.0)
            if uhf:
                mon.close("FCI singles", cat(ci.c1), cat(c1), 2e-4, t)
                mon.close("FCI doubles", cat(ci.c2), cat(c2), 2e-4, t)
            else:
                mon.close("FCI singles", ci.c1, c1[0], 2e-4, t)
                mon.close("FCI doubles", ci.c2, c2[1], 2e-4, t)
    # EBCC
    if eq and max(n) <= 6 and vs._has_ebcc and case["rs"] % 2 == 0:
        import ebcc

        for store_ in (True, False):
            o = dict(ansatz="CCSD", solve_lambda=True, store_as_ccsd=store_)
            if not uhf and rng.random() < 0.7:
                # active orbitals rotate the cluster basis inside the solver; amplitudes come back in cluster orbitals
                qo = np.linalg.qr(rs.standard_normal((no[0], no[0])))[0][:, :1]
                qv = np.linalg.qr(rs.standard_normal((n[0] - no[0],) * 2))[0][:, :1]
                o.update(c_cas_occ=cl.c_active_occ @ qo, c_cas_vir=cl.c_active_vir @ qv)
            grabbed = []
            orig = ebcc.EBCC

            def grab(*a, **k):
                grabbed.append(orig(*a, **k))
                return grabbed[-1]

            ebcc.EBCC = grab
            try:
                s = solve("EBCC", **o)
            finally:
                ebcc.EBCC = orig
            if grabbed and moving(grabbed[0]):
                # the ebcc package itself declares convergence (stalled DIIS) away from its fixed point
                mon.event("ebcc stalled")
                continue
            if s.converged:
                check_cc(mon, m, s.wf, tag0 + "EBCC %s" % sorted(o), True, True, 3e-6)
