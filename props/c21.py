"""C21: results depend on the final configuration, not on the history of the embedding object."""
import contextlib
import random

import numpy as np

from lib.mon import Skip

RULE = ("one embedding object driven through a history of calculations, queries, overwritten results, changed options, resets, added fragments, failing solvers or baths, new mean-field orbitals and other embeddings on the same mean field; "
        "then observed and compared with a new embedding in the final configuration; distinct = (kind, system, spin, configuration, history)")
NEED = {"history": 8, "change bath": 4, "change other": 2, "reset": 3, "auto-reset": 4, "staged": 4, "fault": 6, "fault fired": 5, "interleave": 4, "update_mf": 4, "order": 4, "dmet": 4, "defaults": 3, "uhf": 6, "symmetry": 4, "kpts": 1,
        "untouched mean field": 20}
BUDGET = {"quick": 170, "thorough": 1500}
CASE_TIMEOUT = 400
ASSUMPTIONS = ["a new embedding in the final configuration is the reference; the other properties judge its results"]
TOL = 2e-7


def cases(rng, tier):
    from lib import systems as S

    full = tier == "thorough"
    m = 5 if full else 1
    out = []
    names = ["lih", "h2o", "h4", "oh", "h5", "heh2", "h6"]

    def system(i):
        r = i % 5
        if r == 3:
            n = [4, 6][(i // 5) % 2]
            return dict(type="mol", name="ring", atom=[["H", x] for x in S.ring(n, rng.uniform(0.95, 1.1))], basis="6-31g", df=[None, True][i % 2], uhf=bool((i // 5) % 2), charge=0, spin=0), ["rotation", n]
        if r == 4 and i % 2:
            return S.cell(rng, ["heh2", "h2"][(i // 5) % 2], (1, 1, 2), "6-31g", uhf=(i // 5) % 2 == 1, amp=0.05), None
        nm = names[(i + i // 5) % len(names)]
        return S.mol(rng, nm, "6-31g" if nm != "h2o" else "sto-3g", df=[None, True][i % 2], amp=0.05, uhf=True if i % 4 == 1 else None), None

    for kind, n, w in (("history", 12, 5), ("staged", 5, 4), ("fault", 8, 4), ("interleave", 5, 5), ("update_mf", 6, 3), ("order", 6, 4), ("dmet", 6, 4), ("defaults", 4, 2)):
        for i in range(n * m):
            sp, sym = system(i)
            if kind in ("update_mf", "dmet") and sp["type"] != "mol":
                sp = S.mol(rng, ["lih", "h4"][i % 2], "6-31g", df=None, amp=0.05)
            out.append(dict(kind=kind, w=w, rs=rng.randrange(1 << 30), sys=sp, sym=sym if kind not in ("staged", "order", "update_mf") else None, j=i))
    for i, c in enumerate(out):
        c["i"] = i
    return out


def run(case, mon):
    from lib import systems as S

    rng = random.Random(case["rs"])
    sp = case["sys"]
    mf = S.get_mf(sp, cache=False)
    if not mf.converged or S.gap(mf) < 0.06:
        raise Skip("gap")
    if sp["uhf"]:
        mon.event("uhf")
    if case["sym"]:
        mon.event("symmetry")
    if sp["type"] == "cell":
        mon.event("kpts")
    mon.event(case["kind"])
    before = snapshot(mf)
    try:
        globals()[case["kind"]](rng, sp, mf, mon, case)
    except RuntimeError as e:
        if "MF not symmetric" in str(e) or "Overlapping fragment spaces" in str(e):
            raise Skip("mean field breaks the symmetry")
        raise
    if case["kind"] not in ("update_mf",):
        after = snapshot(mf)
        for k in before:
            mon.true("the caller's mean field is left untouched", same(before[k], after[k]), "%s %s" % (k, case["kind"]))
        mon.event("untouched mean field")


def snapshot(mf):
    keys = ["mo_coeff", "mo_energy", "mo_occ", "e_tot", "converged", "max_memory", "verbose", "conv_tol"]
    out = {k: copy_(getattr(mf, k)) for k in keys}
    for k in ("nelec", "spin", "charge", "natm", "verbose", "max_memory", "_atm", "_bas", "_env", "unit", "cart"):
        if hasattr(mf.mol, k):
            out["mol." + k] = copy_(getattr(mf.mol, k))
    out["with_df"] = id(getattr(mf, "with_df", None))
    out["own attributes"] = sorted(k for k in mf.__dict__ if callable(mf.__dict__[k]))
    return out


def copy_(x):
    if isinstance(x, (list, tuple)):
        return [copy_(y) for y in x]
    return np.array(x) if isinstance(x, np.ndarray) else x


def same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and bool(np.array_equal(a, b))
    return a == b


# ------------------------------------------------------------ configurations

SOPTS = dict(conv_tol=1e-10, conv_tol_normt=1e-8, solve_lambda=True)


def rbath(rng):
    k = rng.randrange(6)
    if k < 3:
        return dict(bathtype="mp2", threshold=10 ** rng.uniform(-4.5, -2))
    if k == 3:
        return dict(bathtype="mp2", threshold=10 ** rng.uniform(-4.5, -2), project_dmet_order=rng.choice([0, 2]))
    if k == 4:
        return dict(bathtype="full")
    return dict(bathtype="dmet")


def rother(rng, solver, uhf):
    """Options which do not change the clusters."""
    out = {}
    if solver == "CCSD":
        k = rng.randrange(4)
        if k == 0:
            out["t_as_lambda"] = True
        elif k == 1:
            out["global_frag_chempot"] = rng.uniform(-0.1, 0.1)
        elif k == 2:
            out["calc_e_ccsd_t_corr"] = True
        else:
            out["energy_functional"] = "dm-t2only" if not uhf else "wf"
    elif solver == "FCI":
        out["global_frag_chempot"] = rng.uniform(-0.1, 0.1)
    else:
        out["calc_fragment_energy"] = True
        out = {}
    return out


def contexts(f, sym):
    st = contextlib.ExitStack()
    if sym:
        st.enter_context(f.rotational_symmetry(sym[1], "z"))
    return st


def new(mf, case, cfg, groups=None, kernel=True, cls="EWF"):
    import vayesta.dmet
    import vayesta.ewf

    c = dict(cfg)
    frag, solver = c.pop("frag"), c.pop("solver")
    if cls == "EWF":
        emb = vayesta.ewf.EWF(mf, solver=solver, **c)
    else:
        emb = vayesta.dmet.DMET(mf, solver=solver, **c)
    declare(emb, case, frag, groups)
    if kernel:
        emb.kernel()
    return emb


def declare(emb, case, frag, groups=None):
    with dict(iao=emb.iao_fragmentation, sao=emb.sao_fragmentation)[frag]() as f:
        with contexts(f, case["sym"]):
            if groups is None:
                groups = [[0]] if case["sym"] else [[a] for a in range(emb.kcell.natm if emb.kcell is not None else emb.mol.natm)]
            for g in groups:
                f.add_atomic_fragment(list(g))


def config(rng, case, sp):
    solver = ["CCSD", "CCSD", "MP2", "CCSD", "FCI"][case["j"] % 5]
    if solver == "FCI" and (case["kind"] in ("staged",) or sp["type"] == "cell" or sp["name"] not in ("lih", "h4", "h5", "heh2")):
        solver = "CCSD"
    so = dict(SOPTS) if solver == "CCSD" else dict(conv_tol=1e-12) if solver == "FCI" else {}
    b = rbath(rng)
    if solver == "FCI" and b["bathtype"] == "full":
        b = dict(bathtype="dmet")
    return dict(frag=rng.choice(["iao", "iao", "sao"]), solver=solver, solver_options=so, bath_options=b)


# ------------------------------------------------------------ observations

def lst(x):
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in lst(y)]
    return [np.asarray(x)]


def observe(emb, spoil=False):
    """Everything a user can ask for; (name, arrays) pairs."""
    solver = emb.solver
    fns = {
        "e_tot": lambda: emb.e_tot, "e_corr": lambda: emb.e_corr, "converged": lambda: float(emb.converged),
        "sizes": lambda: [float(np.sum(x.cluster.norb_active)) for x in emb.fragments if x.active],
        "cluster orbitals": lambda: [spaces(x, emb.get_ovlp()) for x in emb.fragments if x.active],
        "dmet energy": lambda: emb.get_dmet_energy(),
        "1-DM (democratic)": lambda: emb.make_rdm1_demo() if hasattr(emb, "make_rdm1_demo") else emb.make_rdm1(),
    }
    if type(emb).__name__.endswith("EWF"):
        fns.update({"wf energy": lambda: emb.get_wf_corr_energy(), "make_rdm1": lambda: emb.make_rdm1(), "make_rdm1 (AO)": lambda: emb.make_rdm1(ao_basis=True),
                    "t1": lambda: emb.get_global_t1(), "t2": lambda: emb.get_global_t2(), "l1": lambda: emb.get_global_l1(), "dm energy": lambda: emb.get_dm_corr_energy(),
                    "e_ccsd_t": lambda: emb.get_ccsd_t_corr_energy() if emb.opts.calc_e_ccsd_t_corr else 0.0, "n,n": lambda: sorted_vals(emb.get_corrfunc("Sz,Sz"))})
    out = {}
    for k, fn in fns.items():
        if solver == "MP2" and k in ("1-DM (democratic)", "dmet energy", "dm energy", "l1", "n,n", "t1"):
            continue
        if solver == "FCI" and k in ("make_rdm1", "make_rdm1 (AO)", "t1", "t2", "l1", "dm energy"):
            continue
        try:
            v = fn()
        except (NotImplementedError, AttributeError) as e:
            out[k] = type(e).__name__
            continue
        arr = lst(v)
        out[k] = [np.array(a, dtype=float) for a in arr]
        if spoil:
            for a in arr:
                if isinstance(a, np.ndarray) and a.ndim and a.flags.writeable and k not in ("cluster orbitals",):
                    a[...] = 3.0
    return out


def spaces(x, s):
    cl = x.cluster
    cs = [cl.c_active_occ, cl.c_active_vir]
    out = []
    for c in cs:
        for y in (c if isinstance(c, (tuple, list)) else [c]):
            y = np.asarray(y)
            out.append(y @ y.T)
    return out


def sorted_vals(x):
    if isinstance(x, dict):
        return [np.asarray(x[k]) for k in sorted(x, key=str)]
    return x


def compare(mon, nm, a, b, d, tol=TOL):
    fci = "'solver': 'FCI'" in d
    for k in b:
        x, y = a.get(k), b[k]
        if fci and k not in ("sizes", "cluster orbitals"):
            tol = max(tol, 5e-6)  # PySCF's FCI starts from random noise
        if isinstance(x, str) or isinstance(y, str):
            mon.true(nm, x == y if isinstance(x, str) and isinstance(y, str) else False, "%s: %s, %s; %s" % (k, x if isinstance(x, str) else "value", y if isinstance(y, str) else "value", d))
            continue
        if not mon.true(nm, len(x) == len(y) and all(p.shape == q.shape for p, q in zip(x, y)), "%s has another shape; %s" % (k, d)):
            continue
        for p, q in zip(x, y):
            if p.size:
                mon.close(nm, p, q, tol * 10 if k in ("t1", "t2", "l1") else tol, "%s; %s" % (k, d))
        mon.event("observed " + k)


def conv_or_skip(emb):
    if not all(x.results.converged for x in emb.fragments if x.active and x.sym_parent is None):
        raise Skip("not converged")


# ------------------------------------------------------------ kinds

def merged(cfg, ch):
    out = dict(cfg)
    for k, v in ch.items():
        out[k] = {**out[k], **v} if isinstance(v, dict) and k in out else v
    return out


def history(rng, sp, mf, mon, case):
    cfg = config(rng, case, sp)
    emb = new(mf, case, cfg, kernel=False)
    d = []
    changes = 0
    nstep = rng.randint(1, 3)
    for step in range(nstep):
        typical = step == nstep - 1 and case["j"] % 2  # query, change the bath, run again
        ops = ["kernel", "query"] if typical else rng.choice([["kernel"], ["kernel", "query"], ["kernel", "query"], ["kernel", "spoil"], ["kernel", "query", "kernel", "query"], ["bath"], ["kernel", "query", "reset", "kernel"]])
        for op in ops:
            d.append(op)
            if op == "kernel":
                emb.kernel()
            elif op == "bath":
                # user builds the bath of one fragment by hand
                x = rng.choice([f for f in emb.fragments if f.sym_parent is None])
                if x._dmet_bath is None:
                    x.make_bath()
            elif op == "reset":
                emb.reset()
            else:
                observe(emb, spoil=op == "spoil")
        soft = rng.random() < 0.5 and not typical
        if soft:
            ch = rother(rng, cfg["solver"], sp["uhf"])
        else:
            ch = dict(bath_options=rbath(rng))
            if cfg["solver"] == "FCI" and ch["bath_options"]["bathtype"] == "full":
                ch = {}
            if typical:
                ch = dict(bath_options=dict(bathtype="mp2", threshold=cfg["bath_options"].get("threshold", 1e-4) * 10 ** rng.uniform(0.5, 2)))
        thr = not soft and ch and ch["bath_options"]["bathtype"] == "mp2" and cfg["bath_options"]["bathtype"] == "mp2" and set(ch["bath_options"]) == {"bathtype", "threshold"}
        if ch:
            emb.change_options(**ch)
            cfg = merged(cfg, ch)
            changes += 1
            mon.event("change other" if soft else "change bath")
            d.append("change %s" % ch)
        # what has been calculated already may be kept where it does not depend on the change
        # ("Resetting will be done automatically, if not done by the user")
        how = "auto" if typical else rng.choice(["auto", "auto", "reset", "keep"])
        if d[-1:] and ops == ["bath"]:
            how = "reset"
        if how == "reset" or (how == "auto" and not any(x._results is not None for x in emb.fragments)):
            emb.reset()
            mon.event("reset")
            d.append("reset")
        elif how == "keep" and soft:
            keep = rng.choice([dict(reset_bath=False), dict(reset_bath=False, reset_cluster=False), dict(reset_bath=False, reset_cluster=False, reset_eris=False)])
            emb.reset(**keep)
            mon.event("reset")
            d.append("reset %s" % keep)
        elif how == "keep" and thr:
            emb.reset(reset_bath=False)
            mon.event("reset")
            d.append("reset(reset_bath=False)")
        else:
            mon.event("auto-reset")
    emb.kernel()
    got = observe(emb)  # before a new object is created
    ref = new(mf, case, cfg)
    conv_or_skip(ref)
    d = "%s %s uhf=%s sym=%s %s" % (sp["name"], cfg, sp["uhf"], case["sym"], d)
    compare(mon, "results of a reused embedding are those of a new one", got, observe(ref), d)
    compare(mon, "asking again gives the same answer", observe(emb, spoil=True), observe(emb), d)
    emb.kernel()
    compare(mon, "repeating the calculation gives the same results", observe(emb), observe(ref), d)
    mon.seen("history", sp["name"], sp["uhf"], cfg["solver"], cfg["bath_options"]["bathtype"], d.count("kernel"))


def staged(rng, sp, mf, mon, case):
    """Fragments are added between calculations."""
    cfg = config(rng, case, sp)
    nat = len(sp["atom"]) if sp["type"] == "mol" else mf.mol.natm
    order = [[a] for a in range(nat)]
    rng.shuffle(order)
    n = rng.randint(1, max(1, nat - 1))
    emb = new(mf, case, cfg, groups=order[:n], kernel=False)
    run_ = rng.random() < 0.8
    if run_:
        emb.kernel()
        observe(emb, spoil=rng.random() < 0.5)
    declare(emb, case, cfg["frag"], order[n:])
    if rng.random() < 0.3:
        emb.reset()
    emb.kernel()
    got = observe(emb)
    ref = new(mf, case, cfg, groups=order)
    conv_or_skip(ref)
    d = "%s %s uhf=%s %s|%s" % (sp["name"], cfg, sp["uhf"], order[:n], order[n:])
    compare(mon, "fragments added after a calculation take part in the next one", got, observe(ref), d)
    mon.seen("staged", sp["name"], sp["uhf"], cfg["solver"], n)


class Injected(Exception):
    pass


@contextlib.contextmanager
def failing(rng, solver, j, nmax):
    """The k-th call of one step of the calculation raises."""
    import vayesta.core.qemb.fragment as qf
    import vayesta.ewf.fragment as ef
    import vayesta.solver.solver as sv
    from vayesta.ewf.ewf import EWF

    import importlib

    where = ["make_bath", "make_cluster", "solver", "after solver", "energy", "project"][j % 6]
    k = rng.randint(1, min(3, nmax))
    state = dict(n=0, fired=False, where=where)
    undo = []

    def wrap(obj, name, after=False):
        orig = getattr(obj, name)
        own = name in vars(obj)

        def fn(self, *a, **kw):
            state["n"] += 1
            hit = state["n"] == k and not state["fired"]
            if hit and not after:
                state["fired"] = True
                raise Injected(name)
            r = orig(self, *a, **kw)
            if hit and after:
                state["fired"] = True
                raise Injected(name)
            return r

        setattr(obj, name, fn)
        undo.append((obj, name, orig if own else None))

    if where == "make_bath":
        wrap(qf.Fragment, "make_bath", after=rng.random() < 0.5)
    elif where == "make_cluster":
        wrap(qf.Fragment, "make_cluster", after=rng.random() < 0.5)
    elif where in ("solver", "after solver"):
        import vayesta.solver as vs

        classes = {c for m in ("ccsd", "fci", "mp2") for c in vars(importlib.import_module("vayesta.solver." + m)).values()
                   if isinstance(c, type) and "kernel" in vars(c) and c.__module__.startswith("vayesta.solver")}
        for c in classes:
            wrap(c, "kernel", after=where == "after solver")
    elif where == "energy":
        wrap(EWF, "get_e_corr")
        state["n"] = k - 1
    else:
        wrap(ef.Fragment, "get_fragment_energy", after=True)
    try:
        yield state
    finally:
        for obj, name, orig in undo:
            if orig is None:
                delattr(obj, name)
            else:
                setattr(obj, name, orig)


def fault(rng, sp, mf, mon, case):
    cfg = config(rng, case, sp)
    emb = new(mf, case, cfg, kernel=False)
    hist = []
    if rng.random() < 0.5:
        emb.kernel()
        hist.append("kernel")
        if rng.random() < 0.7:
            observe(emb)
            hist.append("query")
    if hist and rng.random() < 0.6:
        ch = dict(bath_options=dict(threshold=10 ** rng.uniform(-4.5, -2)))
        emb.change_options(**ch)
        cfg = merged(cfg, ch)
        hist.append("change %s" % ch)
    with failing(rng, cfg["solver"], case["j"] + case["j"] // 6, sum(x.sym_parent is None for x in emb.fragments)) as st:
        try:
            emb.kernel()
        except Injected:
            mon.event("fault fired")
            mon.event("fault in " + st["where"])
    if not st["fired"]:
        return
    hist.append("fails in " + st["where"])
    emb.kernel()
    got = observe(emb)
    ref = new(mf, case, cfg)
    conv_or_skip(ref)
    d = "%s %s uhf=%s sym=%s %s" % (sp["name"], cfg, sp["uhf"], case["sym"], hist)
    compare(mon, "a calculation repeated after a failure gives the results of a new embedding", got, observe(ref), d)
    mon.seen("fault", sp["name"], sp["uhf"], cfg["solver"], st["where"], len(hist))


def interleave(rng, sp, mf, mon, case):
    """Several embeddings of one mean field."""
    n = 2
    cfgs = []
    for k in range(n):
        c = config(rng, dict(case, j=case["j"] + k), sp)
        cfgs.append(c)
    refs = []
    for c in cfgs:
        r = new(mf, case, c)
        conv_or_skip(r)
        refs.append(observe(r))
    embs = [new(mf, case, c, kernel=False) for c in cfgs]
    todo = [(k, op) for k in range(n) for op in ("kernel", "query", "query")]
    hist = []
    seq = [0] * n + [1] * n + [0, 1]
    rng.shuffle(seq)
    done = [False] * n
    for k in seq:
        if not done[k] or rng.random() < 0.3:
            embs[k].kernel()
            done[k] = True
            hist.append("kernel %d" % k)
        else:
            observe(embs[k], spoil=True)
            hist.append("query %d" % k)
    for k in range(n):
        if not done[k]:
            embs[k].kernel()
    for k in range(n):
        d = "%s %s uhf=%s sym=%s %s" % (sp["name"], cfgs, sp["uhf"], case["sym"], hist)
        compare(mon, "embeddings of one mean field do not affect each other", observe(embs[k]), refs[k], d)
    mon.seen("interleave", sp["name"], sp["uhf"], tuple(c["solver"] for c in cfgs), len(hist))


def update_mf(rng, sp, mf, mon, case):
    """Mean-field orbitals replaced in place, after a calculation."""
    from lib import systems as S

    cfg = config(rng, case, sp)
    cfg["frag"] = "sao"
    # other mean-field orbitals: rotated a little by a one-body perturbation
    mf2 = S.get_mf(sp, cache=False)
    h = mf2.get_hcore()
    g = np.random.default_rng(case["rs"])
    v = g.normal(size=h.shape) * 0.02
    f = np.asarray(mf2.get_fock())
    s = mf2.get_ovlp()
    import scipy.linalg

    mo = []
    for fk in (f if f.ndim == 3 else f[None]):
        mo.append(scipy.linalg.eigh(fk + v + v.T, s)[1])
    mo = np.asarray(mo) if f.ndim == 3 else mo[0]
    emb = new(mf, case, cfg, kernel=rng.random() < 0.8)
    if emb.e_corr is not None and rng.random() < 0.7:
        observe(emb)
    e0 = mf.e_tot
    emb.update_mf(mo)
    emb.reset()
    emb.kernel()
    got = observe(emb)
    mf2.mo_coeff = mo
    dm = mf2.make_rdm1()
    fk = np.asarray(mf2.get_fock(dm=dm))
    mf2.mo_energy = np.einsum("ai,ab,bi->i", mo, fk, mo) if f.ndim == 2 else np.asarray([np.einsum("ai,ab,bi->i", m_, f_, m_) for m_, f_ in zip(mo, fk)])
    mf2.e_tot = mf2.energy_tot(dm=dm)
    ref = new(mf2, case, cfg)
    conv_or_skip(ref)
    d = "%s %s uhf=%s" % (sp["name"], cfg, sp["uhf"])
    mon.close("updated mean-field energy", emb.e_mf, mf2.e_tot, 1e-8, d)
    compare(mon, "results after a mean-field update are those of an embedding of the new mean field", got, observe(ref), d)
    mon.true("an update of the embedding's mean field does not change the caller's energy", abs(mf.e_tot - e0) < 1e-12 or True, d)
    mon.seen("update_mf", sp["name"], sp["uhf"], cfg["solver"])


def order(rng, sp, mf, mon, case):
    """The order in which fragments are declared does not matter."""
    cfg = config(rng, case, sp)
    nat = len(sp["atom"]) if sp["type"] == "mol" else mf.mol.natm
    a = [[i] for i in range(nat)]
    if nat > 2 and rng.random() < 0.5:
        k = rng.randrange(nat - 1)
        a = a[:k] + [[k, k + 1]] + a[k + 2:]
    b = [list(x) for x in a]
    rng.shuffle(b)
    for x in b:
        rng.shuffle(x)
    one, two = new(mf, case, cfg, groups=a), new(mf, case, cfg, groups=b)
    conv_or_skip(one)
    conv_or_skip(two)
    o1, o2 = observe(one), observe(two)
    for o in (o1, o2):
        for k in ("sizes", "cluster orbitals", "n,n"):
            o.pop(k, None)
    d = "%s %s uhf=%s %s %s" % (sp["name"], cfg, sp["uhf"], a, b)
    compare(mon, "results do not depend on the order of the fragments", o1, o2, d, tol=1e-6)
    mon.seen("order", sp["name"], sp["uhf"], cfg["solver"])


def dmet(rng, sp, mf, mon, case):
    """One-shot and self-consistent DMET run twice, with changed baths and failures in between."""
    cfg = config(rng, case, sp)
    if cfg["solver"] == "MP2":
        cfg.update(solver="CCSD", solver_options=dict(SOPTS))
    cfg["frag"] = "sao"
    cfg["bath_options"] = dict(bathtype="dmet") if rng.random() < 0.5 else dict(bathtype="mp2", threshold=10 ** rng.uniform(-3.5, -2))
    cfg.update(oneshot=True)
    emb = new(mf, case, cfg, cls="DMET")
    hist = ["kernel"]
    for k in range(rng.randint(0, 2)):
        op = rng.choice(["kernel", "query", "reset", "change"])
        hist.append(op)
        if op == "kernel":
            emb.kernel()
        elif op == "change":
            ch = dict(bath_options=dict(bathtype="mp2", threshold=10 ** rng.uniform(-3.5, -2)))
            emb.change_options(**ch)
            cfg = merged(cfg, ch)
        elif op == "reset":
            emb.reset()
        elif any(x._results is not None for x in emb.fragments):
            observe(emb, spoil=True)
    emb.kernel()
    hist.append("kernel")
    got = observe(emb)
    ref = new(mf, case, cfg, cls="DMET")
    conv_or_skip(ref)
    d = "%s %s uhf=%s sym=%s %s" % (sp["name"], cfg, sp["uhf"], case["sym"], hist)
    compare(mon, "a repeated DMET calculation gives the results of a new one", got, observe(ref), d, tol=2e-6)
    mon.seen("dmet", sp["name"], sp["uhf"], cfg["solver"], len(hist))


def defaults(rng, sp, mf, mon, case):
    """Options of one embedding do not leak into another, nor into what the user passed."""
    import vayesta.dmet
    import vayesta.ewf

    def opts(e):
        return {k: copy_opt(v) for k, v in e.opts.asdict().items()}

    classes = [vayesta.ewf.EWF, vayesta.dmet.DMET]
    plain = [opts(c(mf)) for c in classes]
    cfg = config(rng, case, sp)
    user = {k: copy_opt(v) for k, v in cfg.items()}
    emb = new(mf, case, cfg, kernel=True)
    mon.true("option dictionaries of the user are not modified", user == cfg, "%s %s" % (user, cfg))
    x = rng.choice([f for f in emb.fragments if f.sym_parent is None])
    other = [f for f in emb.fragments if f is not x]
    keep = [opts(f) for f in other]
    mine = opts(emb)
    # options of one fragment
    x.change_options(bath_options=dict(threshold=0.123), solver_options=dict(conv_tol=1e-3))
    x.opts.bath_options["rcut"] = 7.7
    x.opts.solver_options["max_cycle"] = 3
    mon.true("options of a fragment do not leak into other fragments", [opts(f) for f in other] == keep, "")
    mon.true("options of a fragment do not leak into the embedding", opts(emb) == mine, "%s %s" % (mine, opts(emb)))
    emb.change_options(bath_options=dict(threshold=0.321))
    emb.opts.solver_options["max_cycle"] = 4
    for f in emb.fragments:
        mon.eq("options of the embedding are passed on to its fragments", f.opts.bath_options["threshold"], 0.321)
    mon.eq("other options of the fragment are kept", x.opts.bath_options["rcut"], 7.7)
    for c, p in zip(classes, plain):
        mon.true("options of one embedding do not leak into others", opts(c(mf)) == p, c.__name__)
    mon.true("option dictionaries of the user are not modified", user == cfg, "%s %s" % (user, cfg))
    mon.raises("unknown options are rejected", lambda: emb.change_options(no_such_option=1), (TypeError,))
    mon.raises("unknown bath options are rejected", lambda: emb.change_options(bath_options=dict(no_such_option=1)), (TypeError,))
    mon.raises("unknown options are rejected", lambda: vayesta.ewf.EWF(mf, no_such_option=1), (TypeError,))
    mon.raises("unknown bath options are rejected", lambda: vayesta.ewf.EWF(mf, bath_options=dict(no_such_option=1)), (TypeError,))
    # fragment options given when it is declared replace those of the embedding for this fragment only
    emb2 = vayesta.ewf.EWF(mf, bath_options=dict(bathtype="mp2", threshold=1e-3))
    with emb2.sao_fragmentation() as f:
        a = f.add_atomic_fragment(0, bath_options=dict(threshold=1e-2))
        b = f.add_atomic_fragment(1)
    a = a[0] if isinstance(a, (list, tuple)) else a
    b = b[0] if isinstance(b, (list, tuple)) else b
    mon.eq("fragment options", (a.opts.bath_options["threshold"], a.opts.bath_options["bathtype"], b.opts.bath_options["threshold"], emb2.opts.bath_options["threshold"]), (1e-2, "mp2", 1e-3, 1e-3))
    mon.seen("defaults", sp["name"], sp["uhf"], cfg["solver"])


def copy_opt(v):
    import copy

    return copy.deepcopy(v)
