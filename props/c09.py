"""C09: wave-function objects mean one and the same state in every representation."""
import itertools
import random

import numpy as np

from lib.mon import Skip

RULE = ("one wave-function object (random or computed amplitudes) taken through conversions, projections, rotations, packing and density matrices, "
        "each result compared with an occupation-number reference; distinct = (kind, spin type, dimensions)")
NEED = {"wf": 60, "kind:fci": 10, "kind:proj": 8, "kind:conv": 8, "kind:rdm": 8, "kind:rot": 5, "kind:pack": 5, "kind:cc": 5, "kind:pyscf": 3}
BUDGET = {"quick": 120, "thorough": 1200}
ASSUMPTIONS = ["amplitudes are random arrays with the permutation symmetry their type requires, or come from PySCF"]


# ------------------------------------------------------------------ occupation-number reference
def strings(norb, n):
    s = [sum(1 << i for i in c) for c in itertools.combinations(range(norb), n)]
    s.sort()
    return s


def apply_exc(bits, a, i):
    """a^+_a a_i on a bit string; (bits, sign) or None."""
    if not bits >> i & 1:
        return None
    b = bits & ~(1 << i)
    if b >> a & 1:
        return None
    lo, hi = min(a, i), max(a, i)
    between = b & (((1 << hi) - 1) & ~((1 << (lo + 1)) - 1))
    return b | (1 << a), -1 if bin(between).count("1") % 2 else 1


def exc_mats(norb, n):
    st = strings(norb, n)
    idx = {s: k for k, s in enumerate(st)}
    e = np.zeros((norb, norb, len(st), len(st)))
    for p in range(norb):
        for q in range(norb):
            for k, s in enumerate(st):
                r = apply_exc(s, p, q)
                if r:
                    e[p, q, idx[r[0]], k] = r[1]
    return e


def ref_rdms(ci, norb, nelec):
    ea, eb = exc_mats(norb[0], nelec[0]), exc_mats(norb[1], nelec[1])
    d1a = np.einsum("pqIK,Ij,Kj->pq", ea, ci, ci, optimize=True)
    d1b = np.einsum("pqJK,iJ,iK->pq", eb, ci, ci, optimize=True)
    la = np.einsum("pqIK,Kj->pqIj", ea, ci, optimize=True)
    lb = np.einsum("pqJK,iK->pqiJ", eb, ci, optimize=True)
    # <E_pq E_rs> = <E_qp ci | E_rs ci>
    aa = np.einsum("qpIj,rsIj->pqrs", la, la, optimize=True) - np.einsum("qr,ps->pqrs", np.eye(norb[0]), d1a)
    bb = np.einsum("qpIj,rsIj->pqrs", lb, lb, optimize=True) - np.einsum("qr,ps->pqrs", np.eye(norb[1]), d1b)
    ab = np.einsum("qpIj,rsIj->pqrs", la, lb, optimize=True)
    return (d1a, d1b), (aa, ab, bb)


class Amp:
    """Amplitudes of a CI state addressed by spin-labelled excitation lists."""

    def __init__(self, ci, norb, nelec):
        self.sa, self.sb = strings(norb[0], nelec[0]), strings(norb[1], nelec[1])
        self.ia, self.ib = {s: k for k, s in enumerate(self.sa)}, {s: k for k, s in enumerate(self.sb)}
        self.ci = ci
        self.nelec, self.norb = nelec, norb
        self.refs = (self.sa[0], self.sb[0])

    def det(self, spins, ijk, abc):
        """Determinant and sign of E_a1i1 E_a2i2 ... |0>, or None."""
        d = list(self.refs)
        sg = 1
        for s, i, a in reversed(list(zip(spins, ijk, abc))):
            r = apply_exc(d[s], a + self.nelec[s], i)
            if r is None:
                return None
            d[s] = r[0]
            sg *= r[1]
        return d[0], d[1], sg

    def get(self, spins, ijk, abc, table=None):
        r = self.det(spins, ijk, abc)
        if r is None:
            return 0.0
        if table is not None:
            return r[2] * table.get((r[0], r[1]), 0.0)
        return r[2] * self.ci[self.ia[r[0]], self.ib[r[1]]]

    def level(self, a, b):
        return bin(a & ~self.refs[0]).count("1") + bin(b & ~self.refs[1]).count("1")

    def canon(self, a, b):
        """Excitation list producing determinant (a,b), with its sign."""
        spins, ii, aa = [], [], []
        for s, d in ((0, a), (1, b)):
            ref = self.refs[s]
            holes = [k for k in range(self.norb[s]) if (ref & ~d) >> k & 1]
            parts = [k - self.nelec[s] for k in range(self.norb[s]) if (d & ~ref) >> k & 1]
            spins += [s] * len(holes)
            ii += holes
            aa += parts
        return spins, ii, aa

    def log_table(self, maxlev=4):
        """log of the state operator (intermediate normalisation), as determinant table."""
        c0 = self.ci[0, 0]
        lev = {}
        for (a, k), (b, l) in itertools.product(self.ia.items(), self.ib.items()):
            n = self.level(a, b)
            if 1 <= n <= maxlev:
                lev.setdefault(n, {})[(a, b)] = self.ci[k, l] / c0
        ops = {}

        def op(d):
            if d not in ops:
                sp, ii, aa = self.canon(*d)
                r = self.det(sp, ii, aa)
                ops[d] = (sp, ii, aa, r[2])
            return ops[d]

        def mul(x, y):
            out = {}
            for d1, v1 in x.items():
                if v1 == 0:
                    continue
                sp, ii, aa, s1 = op(d1)
                l1 = len(sp)
                for d2, v2 in y.items():
                    if l1 + self.level(*d2) > maxlev:
                        continue
                    # disjointness
                    if (d1[0] & ~self.refs[0]) & d2[0] or (d1[1] & ~self.refs[1]) & d2[1]:
                        continue
                    if (self.refs[0] & ~d1[0]) & ~d2[0] or (self.refs[1] & ~d1[1]) & ~d2[1]:
                        continue
                    d = list(d2)
                    sg = s1
                    for s, i, a in reversed(list(zip(sp, ii, aa))):
                        r = apply_exc(d[s], a + self.nelec[s], i)
                        d[s] = r[0]
                        sg *= r[1]
                    k = tuple(d)
                    out[k] = out.get(k, 0.0) + sg * v1 * v2
            return out

        x = {}
        for n in lev:
            x.update(lev[n])
        res = dict(x)
        p = x
        for n in range(2, maxlev + 1):
            p = mul(x, p)
            for k, v in p.items():
                res[k] = res.get(k, 0.0) + (-1) ** (n + 1) * v / n
        return res


def sample_idx(rng, shape, n):
    """All indices of a small array, else a random sample."""
    tot = int(np.prod(shape)) if shape else 0
    if tot == 0:
        return []
    if tot <= n:
        return list(np.ndindex(*shape))
    return [tuple(rng.randrange(k) for k in shape) for _ in range(n)]


# ------------------------------------------------------------------ builders
def orth(rs, n):
    return np.linalg.qr(rs.standard_normal((n, n)))[0]


def rmo(rs, norb, nocc, nao=None):
    from vayesta.core.types import Orbitals

    nao = nao or norb + 1
    return Orbitals(rs.standard_normal((nao, norb)), energy=np.sort(rs.standard_normal(norb)), occ=nocc)


def umo(rs, norb, nocc, nao=None):
    from vayesta.core.types import Orbitals

    nao = nao or max(norb) + 1
    return Orbitals((rs.standard_normal((nao, norb[0])), rs.standard_normal((nao, norb[1]))),
                    energy=(np.sort(rs.standard_normal(norb[0])), np.sort(rs.standard_normal(norb[1]))), occ=tuple(nocc))


def sym2(t):
    return (t + t.transpose(1, 0, 3, 2)) / 2


def asym(t):
    t = t - t.transpose(1, 0, 2, 3)
    t = t - t.transpose(0, 1, 3, 2)
    return t / 2


def ramps(rs, no, nv, f=0.3):
    return f * rs.standard_normal((no, nv)), f * sym2(rs.standard_normal((no, no, nv, nv)))


def uamps(rs, no, nv, f=0.3, four=False):
    t1 = tuple(f * rs.standard_normal((no[s], nv[s])) for s in (0, 1))
    ab = f * rs.standard_normal((no[0], no[1], nv[0], nv[1]))
    t2 = (f * asym(rs.standard_normal((no[0], no[0], nv[0], nv[0]))), ab, f * asym(rs.standard_normal((no[1], no[1], nv[1], nv[1]))))
    if four:
        t2 = (t2[0], ab, ab.transpose(1, 0, 3, 2).copy(), t2[2])
    return t1, t2


def partition_projectors(rs, n):
    """Complementary orthogonal projectors of an n-dim space, in a random frame."""
    q = orth(rs, n)
    k = rs.randint(1, n + 1)
    lab = rs.randint(0, k, size=n)
    return [q[:, lab == x] @ q[:, lab == x].T for x in range(k)], q, lab


def cases(rng, tier):
    out = []
    f = 3 if tier == "quick" else 40
    for i in range(14 * f):
        out.append(dict(kind="fci", spin=i % 3, rs=rng.randrange(10 ** 6), w=2))
    for i in range(8 * f):
        out.append(dict(kind="cc", spin=i % 2, big=(i == 2 or (tier != "quick" and i % 4 == 0)), rs=rng.randrange(10 ** 6), w=5))
    for kind in ("proj", "conv", "rdm", "rot", "pack"):
        for i in range(14 * f):
            out.append(dict(kind=kind, spin=i % 2, rs=rng.randrange(10 ** 6), w=1))
    for i in range(6 * f):
        out.append(dict(kind="pyscf", spin=i % 2, rs=rng.randrange(10 ** 6), w=3))
    return out


def dims(rng, lo=1, hi=4):
    return rng.randint(lo, hi), rng.randint(lo, hi)


# ------------------------------------------------------------------ runs
def run(case, mon):
    rng = random.Random(case["rs"])
    rs = np.random.RandomState(case["rs"])
    mon.event("wf")
    mon.event("kind:" + case["kind"])
    globals()["run_" + case["kind"]](case, mon, rng, rs)


def cumul(d1, nocc):
    """Approximate non-cumulant: g0 x g + g x g0 - g0 x g0 (per spin function)."""
    g0 = np.zeros_like(d1)
    g0[np.diag_indices(nocc)] = 1
    return g0


def noncum_u(d1, nocc, approx):
    a, b = d1
    if approx:
        ga, gb = cumul(a, nocc[0]), cumul(b, nocc[1])
        pa, pb, pab = [(ga, a), (a, ga)], [(gb, b), (b, gb)], [(ga, b), (a, gb)]
        na, nb = (ga, ga), (gb, gb)
    else:
        pa, pb, pab = [(a, a)], [(b, b)], [(a, b)]
        na = nb = None

    def same(x, y):
        return np.einsum("ij,kl->ijkl", x, y) - np.einsum("ij,kl->iklj", x, y)

    aa = sum(same(x, y) for x, y in pa)
    bb = sum(same(x, y) for x, y in pb)
    ab = sum(np.einsum("ij,kl->ijkl", x, y) for x, y in pab)
    if approx:
        aa = aa - same(*na)
        bb = bb - same(*nb)
        ab = ab - np.einsum("ij,kl->ijkl", na[0], nb[0])
    return aa, ab, bb


def spinfree(x2):
    aa, ab, bb = x2
    return aa + bb + ab + ab.transpose(2, 3, 0, 1)


def ao1(d, c):
    return c @ d @ c.T


def ao2(d, c1, c2):
    return np.einsum("ijkl,ai,bj,ck,dl->abcd", d, c1, c1, c2, c2, optimize=True)


def check_rdm_set(mon, wf, uhf, d1, d2, nocc, tol=1e-9, kw={}, approxes=(True, False)):
    """d1,d2: reference spin blocks in the MO basis."""
    pre = "U" if uhf else "R"
    g0 = [cumul(d1[s], nocc[s]) for s in (0, 1)]

    def cmp1(name, got, want):
        want = want if uhf else want[0] + want[1]
        mon.close(pre + name, tuple(got) if uhf else got, want, tol)

    def cmp2(name, got, want):
        want = want if uhf else spinfree(want)
        mon.close(pre + name, tuple(got) if uhf else got, want, tol)

    c = wf.mo.coeff if uhf else (wf.mo.coeff,) * 2
    cmp1("rdm1", wf.make_rdm1(**kw), d1)
    cmp1("rdm1-nomf", wf.make_rdm1(with_mf=False, **kw), tuple(d1[s] - g0[s] for s in (0, 1)))
    cmp1("rdm1-ao", wf.make_rdm1(ao_basis=True, **kw), tuple(ao1(d1[s], c[s]) for s in (0, 1)))
    cmp1("rdm1-ao-nomf", wf.make_rdm1(ao_basis=True, with_mf=False, **kw), tuple(ao1(d1[s] - g0[s], c[s]) for s in (0, 1)))
    cmp2("rdm2", wf.make_rdm2(**kw), d2)

    def aos(d):
        return ao2(d[0], c[0], c[0]), ao2(d[1], c[0], c[1]), ao2(d[2], c[1], c[1])

    cmp2("rdm2-ao", wf.make_rdm2(ao_basis=True, **kw), aos(d2))
    for ap in approxes:
        nc = noncum_u(d1, nocc, ap)
        want = tuple(d2[i] - nc[i] for i in range(3))
        if not uhf and not ap:
            # spin-free cumulant is defined from the spin-summed DM (closed shell: both spins equal)
            d = d1[0] + d1[1]
            want_sf = spinfree(d2) - (np.einsum("ij,kl->ijkl", d, d) - np.einsum("ij,kl->iklj", d, d) / 2)
            mon.close(pre + "cumulant-exact", wf.make_rdm2(with_dm1=False, approx_cumulant=False, **kw), want_sf, tol)
            continue
        cmp2("cumulant-%s" % ("approx" if ap else "exact"), wf.make_rdm2(with_dm1=False, approx_cumulant=ap, **kw), want)
        cmp2("cumulant-ao", wf.make_rdm2(with_dm1=False, approx_cumulant=ap, ao_basis=True, **kw), aos(want))
    # asking twice gives the same answer (the stored state is not consumed)
    cmp1("rdm1-again", wf.make_rdm1(**kw), d1)


SIG_R = {3: ["aba"], 4: ["abaa", "abab"]}
SIG_U = {3: ["aaa", "aba", "bab", "bbb"], 4: ["aaaa", "aaab", "abab", "abbb", "bbbb"]}


def sp(sig):
    return [0 if x == "a" else 1 for x in sig]


def check_cisd(mon, amp, w, uhf, scale, name, rng, tol=1e-10):
    if uhf:
        for s in (0, 1):
            for i, a in np.ndindex(*w.c1[s].shape):
                mon.close(name + "-c1", w.c1[s][i, a], scale * amp.get([s], [i], [a]), tol)
        for k, sig in ((0, "aa"), (1, "ab"), (-1, "bb")):
            for idx in sample_idx(rng, w.c2[k].shape, 200):
                mon.close(name + "-c2", w.c2[k][idx], scale * amp.get(sp(sig), idx[:2], idx[2:]), tol, sig)
    else:
        for i, a in np.ndindex(*w.c1.shape):
            mon.close(name + "-c1", w.c1[i, a], scale * amp.get([0], [i], [a]), tol)
        for idx in sample_idx(rng, w.c2.shape, 200):
            mon.close(name + "-c2", w.c2[idx], scale * amp.get([0, 1], idx[:2], idx[2:]), tol)


def rand_fci(rs, rng, uhf, norb, nelec, singlet=False, c0=None):
    from math import comb

    ci = rs.standard_normal((comb(norb[0], nelec[0]), comb(norb[1], nelec[1])))
    if not uhf:
        ci = ci + ci.T
    ci /= np.linalg.norm(ci)
    ci[0, 0] = c0 if c0 is not None else rng.uniform(0.5, 1.0) * rng.choice([1, -1])
    return ci / np.linalg.norm(ci)


def singlet_fci(rs, rng, norb, nocc):
    """A genuine singlet: lowest state of a random spin-free Hamiltonian (the restricted amplitude types assume S=0)."""
    from pyscf import fci

    h = np.diag(np.arange(norb) * 1.0)
    x = 0.15 * rs.standard_normal((norb, norb))
    h = h + x + x.T
    e = 0.2 * rs.standard_normal((4, norb, norb))
    e = e + e.transpose(0, 2, 1)
    g = np.einsum("Lij,Lkl->ijkl", e, e)
    g[np.diag_indices(norb)] += 0
    from pyscf.fci import direct_spin1

    _, ci = direct_spin1.kernel(h, g, norb, 2 * nocc, conv_tol=1e-13, pspace_size=2000)
    if fci.spin_op.spin_square(ci, norb, 2 * nocc)[0] > 1e-6 or abs(ci[0, 0]) < 0.3:
        raise Skip("random state is not a singlet with a dominant reference")
    return np.asarray(ci)


def run_fci(case, mon, rng, rs):
    from vayesta.core.types import wf as W

    sk = case["spin"]
    if sk == 0:
        norb = rng.randint(2, 5)
        nocc = rng.randint(1, norb - 1)
        ci = rand_fci(rs, rng, False, (norb,) * 2, (nocc,) * 2)
        w = W.FCI_WaveFunction(rmo(rs, norb, nocc), ci.copy())
        uhf, norb2, ne = False, (norb,) * 2, (nocc,) * 2
    elif sk == 1:
        norb = rng.randint(2, 5)
        ne = (rng.randint(0 if norb > 2 else 1, norb), rng.randint(1, norb))
        if ne[0] == norb and ne[1] == norb:
            ne = (norb - 1, norb)
        norb2 = (norb, norb)
        ci = rand_fci(rs, rng, True, norb2, ne)
        w = W.FCI_WaveFunction(umo(rs, norb2, ne), ci.copy())
        uhf = True
    else:
        # unequal numbers of alpha and beta orbitals, padded with dummy virtuals
        n1 = rng.randint(2, 4)
        nd = rng.randint(1, 2)
        ne = (rng.randint(1, n1), rng.randint(1, n1))
        norb2 = (n1, n1 + nd) if rng.random() < 0.5 else (n1 + nd, n1)
        ci = rand_fci(rs, rng, True, norb2, ne)
        nmax = n1 + nd
        from math import comb

        full = np.zeros((comb(nmax, ne[0]), comb(nmax, ne[1])))
        ia = {s: k for k, s in enumerate(strings(nmax, ne[0]))}
        ib = {s: k for k, s in enumerate(strings(nmax, ne[1]))}
        for a, sa in enumerate(strings(norb2[0], ne[0])):
            for b, sb in enumerate(strings(norb2[1], ne[1])):
                full[ia[sa], ib[sb]] = ci[a, b]
        dummy = tuple(list(range(norb2[s], nmax)) for s in (0, 1))
        w = W.fci.UFCI_WaveFunction_w_dummy(umo(rs, norb2, ne), full.copy(), dummy)
        uhf = True
    mon.seen("fci", sk, norb2, ne)
    d1, d2 = ref_rdms(ci, norb2, ne)
    ci0 = w.ci.copy()
    check_rdm_set(mon, w, uhf, d1, d2, ne)
    mon.close("ci-untouched", w.ci, ci0, 0.0 + 1e-15)
    amp = Amp(ci, norb2, ne)
    c = w.as_cisd()
    mon.close("fci-cisd-c0", c.c0, ci[0, 0], 1e-12)
    check_cisd(mon, amp, c, uhf, 1.0, "fci-cisd", rng)
    c0 = rng.choice([1.0, 0.7, -0.4])
    c = w.as_cisd(c0=c0)
    mon.close("fci-cisd-c0", c.c0, c0, 1e-12)
    check_cisd(mon, amp, c, uhf, c0 / ci[0, 0], "fci-cisd-scaled", rng)
    mon.close("ci-untouched", w.ci, ci0, 1e-15)
    # CCSD amplitudes of the state
    t = w.as_ccsd()
    tab = amp.log_table(2)
    if uhf:
        for s in (0, 1):
            for i, a in np.ndindex(*t.t1[s].shape):
                mon.close("fci-ccsd-t1", t.t1[s][i, a], amp.get([s], [i], [a], tab), 1e-10)
        for k, sig in ((0, "aa"), (1, "ab"), (-1, "bb")):
            for idx in sample_idx(rng, t.t2[k].shape, 100):
                mon.close("fci-ccsd-t2", t.t2[k][idx], amp.get(sp(sig), idx[:2], idx[2:], tab), 1e-10, sig)
    else:
        for idx in sample_idx(rng, t.t2.shape, 100):
            mon.close("fci-ccsd-t2", t.t2[idx], amp.get([0, 1], idx[:2], idx[2:], tab), 1e-10)
        u = w.as_unrestricted()
        mon.close("fci-as-unrestricted-rdm1", u.make_rdm1(ao_basis=True), tuple(ao1(d1[s], w.mo.coeff) for s in (0, 1)), 1e-10)
        mon.close("fci-as-unrestricted-rdm2", u.make_rdm2(), d2, 1e-10)
    # occupied projectors partition the state
    if sk != 2 and all(0 < ne[s] for s in (0, 1)) and not (ne[0] == norb2[0] or ne[1] == norb2[1]):
        ps = [partition_projectors(rs, ne[s])[0] for s in (0, 1)]
        if uhf:
            k = max(len(ps[0]), len(ps[1]))
            ps = [p + [np.zeros((ne[s],) * 2)] * (k - len(p)) for s, p in enumerate(ps)]
            pl = list(zip(*ps))
        else:
            pl = ps[0]
        tot = 0
        lev = np.array([[amp.level(a, b) for b in amp.sb] for a in amp.sa])
        for p in pl:
            x = w.project_occ(p)
            tot = tot + x.ci
            pa, pb = p if uhf else (p, p)
            # singly excited part: projected on the occupied index
            got = Amp(x.ci, norb2, ne)
            for s, q in ((0, pa), (1, pb)):
                c1 = np.array([[amp.get([s], [i], [a]) for a in range(norb2[s] - ne[s])] for i in range(ne[s])])
                g1 = np.array([[got.get([s], [i], [a]) for a in range(norb2[s] - ne[s])] for i in range(ne[s])])
                mon.close("fci-project-c1", g1, q @ c1 / ci[0, 0], 1e-9)
            c2 = np.array([[[[amp.get([0, 1], [i, j], [a, b]) for b in range(norb2[1] - ne[1])] for a in range(norb2[0] - ne[0])]
                            for j in range(ne[1])] for i in range(ne[0])])
            g2 = np.array([[[[got.get([0, 1], [i, j], [a, b]) for b in range(norb2[1] - ne[1])] for a in range(norb2[0] - ne[0])]
                            for j in range(ne[1])] for i in range(ne[0])])
            want = (np.einsum("ik,kjab->ijab", pa, c2) + np.einsum("jk,ikab->ijab", pb, c2)) / 2 / ci[0, 0]
            mon.close("fci-project-c2", g2, want, 1e-9)
        want = np.where(lev > 0, ci / ci[0, 0], 0)
        mon.close("fci-project-sum", tot, want, 1e-9)
    y = w.copy() if sk != 2 else None
    if y is not None:
        y.ci *= 2
        y.mo.coeff[0][...] = 0
        mon.close("copy-independent", w.ci, ci0, 1e-15)


def run_cc(case, mon, rng, rs):
    """C and T amplitudes up to quadruples of random states."""
    from vayesta.core.types import wf as W

    uhf = bool(case["spin"])
    if uhf:
        norb = 6
        ne = (rng.randint(2, 4), rng.randint(2, 4)) if not case["big"] else (4, 3)
        if case["big"]:
            norb = 8
        ci = rand_fci(rs, rng, True, (norb,) * 2, ne)
        w = W.UFCI_WaveFunction(umo(rs, (norb,) * 2, ne), ci)
        sig = SIG_U
    else:
        norb = rng.choice([4, 5, 6])
        n = rng.randint(2, norb - 2) if norb > 4 else 2
        if norb == 6:
            n = 3
        ne = (n, n)
        ci = singlet_fci(rs, rng, norb, n)
        w = W.RFCI_WaveFunction(rmo(rs, norb, n), ci)
        sig = SIG_R
    mon.seen("cc", uhf, norb, ne)
    amp = Amp(ci, (norb,) * 2, ne)
    for c0 in (None, 1.0, -0.6):
        c = w.as_cisdtq() if c0 is None else w.as_cisdtq(c0=c0)
        f = 1.0 if c0 is None else c0 / ci[0, 0]
        mon.close("cisdtq-c0", c.c0, ci[0, 0] * f, 1e-12)
        check_cisd(mon, amp, c, uhf, f, "cisdtq", rng)
        for n in (3, 4):
            arrs = (c.c3, c.c4)[n - 3]
            arrs = arrs if isinstance(arrs, tuple) else (arrs,)
            mon.eq("cisdtq-blocks", len(arrs), len(sig[n]))
            for arr, s in zip(arrs, sig[n]):
                for idx in sample_idx(rng, arr.shape, 250):
                    mon.close("cisdtq-c%d" % n, arr[idx], f * amp.get(sp(s), idx[:n], idx[n:]), 1e-9, s)
    t = c.as_ccsdtq()
    t0 = w.as_ccsdtq()
    tab = amp.log_table(4)
    scale = max([abs(v) for v in tab.values()] + [1.0])
    for tt in (t, t0):
        for n in (1, 2, 3, 4):
            arrs = (tt.t1, tt.t2, tt.t3, tt.t4)[n - 1]
            arrs = arrs if isinstance(arrs, tuple) else (arrs,)
            sg = {1: ["a", "b"], 2: ["aa", "ab", "bb"]} if uhf else {1: ["a"], 2: ["ab"]}
            sgs = sg.get(n) or sig[n]
            mon.eq("ccsdtq-blocks", len(arrs), len(sgs))
            for arr, s in zip(arrs, sgs):
                for idx in sample_idx(rng, arr.shape, 250):
                    mon.close("ccsdtq-t%d" % n, arr[idx], amp.get(sp(s), idx[:n], idx[n:], tab), 1e-9 * scale, s)
    s1, s2 = t.as_ccsd(), w.as_ccsd()
    mon.close("ccsdtq-ccsd-t1", s1.t1, s2.t1, 1e-9 * scale)
    mon.close("ccsdtq-ccsd-t2", s1.t2, s2.t2, 1e-9 * scale)
    c0 = rng.choice([0.5, -0.8, 1.0])
    x = t.as_cisd(c0=c0)
    mon.close("ccsdtq-cisd-c0", x.c0, c0, 1e-12)
    y = w.as_cisd(c0=c0)
    mon.close("ccsdtq-cisd-c1", x.c1, y.c1, 1e-9 * scale)
    mon.close("ccsdtq-cisd-c2", x.c2, y.c2, 1e-9 * scale)


def blocks_eq(mon, name, a, b, tol=1e-10):
    """Two-body spin blocks, 3- or 4-block form."""
    if isinstance(a, tuple):
        for k in (0, 1, -1):
            mon.close(name, a[k], b[k], tol)
        ba = a[2] if len(a) == 4 else a[1].transpose(1, 0, 3, 2)
        bb = b[2] if len(b) == 4 else b[1].transpose(1, 0, 3, 2)
        mon.close(name + "-ba", ba, bb, tol)
    else:
        mon.close(name, a, b, tol)


def run_proj(case, mon, rng, rs):
    from vayesta.core.types import wf as W

    uhf = bool(case["spin"])
    if uhf:
        no = (rng.randint(1, 4), rng.randint(1, 4))
        nv = (rng.randint(1, 4), rng.randint(1, 4))
        mo = umo(rs, (no[0] + nv[0], no[1] + nv[1]), no)
        t1, t2 = uamps(rs, no, nv, four=rng.random() < 0.5)
        l1, l2 = uamps(rs, no, nv, four=len(t2) == 4)
    else:
        no, nv = dims(rng)
        mo = rmo(rs, no + nv, no)
        t1, t2 = ramps(rs, no, nv)
        l1, l2 = ramps(rs, no, nv)
    mon.seen("proj", uhf, no, nv)
    typ = rng.choice(["mp2", "ccsd", "ccsd", "cisd"])
    if typ == "mp2":
        w = W.MP2_WaveFunction(mo, t2)
        fields = dict(t2=t2)
    elif typ == "ccsd":
        lam = rng.random() < 0.7
        w = W.CCSD_WaveFunction(mo, t1, t2, l1=l1 if lam else None, l2=l2 if lam else None)
        fields = dict(t1=t1, t2=t2)
        if lam:
            fields.update(l1=l1, l2=l2)
    else:
        w = W.CISD_WaveFunction(mo, rng.uniform(0.4, 1), t1, t2)
        fields = dict(c1=t1, c2=t2)

    def projectors(n):
        """Fragment projectors, either square (n x n) or rectangular (nfrag x n)."""
        ps, q, lab = partition_projectors(rs, n)
        if rect:
            return [q[:, lab == x].T for x in range(len(ps))]
        return ps

    rect = rng.random() < 0.5
    if uhf:
        pa, pb = projectors(no[0]), projectors(no[1])
        k = max(len(pa), len(pb))
        pa += [np.zeros((0 if rect else no[0], no[0]))] * (k - len(pa))
        pb += [np.zeros((0 if rect else no[1], no[1]))] * (k - len(pb))
        pl = list(zip(pa, pb))
    else:
        pl = projectors(no)
    for sym in (True, False):
        tot = {}
        for p in pl:
            x = w.project(p)
            mon.true("projector-kept", x.projector is not None and w.projector is None)
            # each projected amplitude against the definition
            for f in fields:
                got, full = getattr(x, f), fields[f]
                one = f[1] == "1"
                ein = "xi,ia->xa" if one else "xi,ijab->xjab"
                if uhf:
                    mon.close("project", got[0], np.einsum(ein, p[0], full[0]), 1e-10, f)
                    mon.close("project", got[-1], np.einsum(ein, p[1], full[-1]), 1e-10, f)
                    if not one:
                        mon.close("project", got[1], np.einsum(ein, p[0], full[1]), 1e-10, f)
                        mon.close("project", got[2], np.einsum(ein, p[1], full[1].transpose(1, 0, 3, 2)), 1e-10, f)
                else:
                    mon.close("project", got, np.einsum(ein, p, full), 1e-10, f)
            y = x.restore(sym=sym)
            mon.true("projector-cleared", y.projector is None)
            for f in fields:
                v = getattr(y, f)
                if f not in tot:
                    tot[f] = v
                elif isinstance(v, tuple):
                    mon.eq("restore-blocks", len(v), len(tot[f]))
                    tot[f] = tuple(a + b for a, b in zip(tot[f], v))
                else:
                    tot[f] = tot[f] + v
        for f in fields:
            if f[1] == "2":
                blocks_eq(mon, "restore-sum", tot[f], fields[f])
            else:
                mon.close("restore-sum", tot[f], fields[f], 1e-10)
    # in-place and out-of-place agree, and the latter leaves its source alone
    z = w.copy()
    r = z.project(pl[0], inplace=True)
    mon.true("inplace-same-object", r is z)
    for f in fields:
        mon.close("inplace", getattr(z, f), getattr(w.project(pl[0]), f), 1e-12, f)
        mon.close("source-untouched", getattr(w, f), fields[f], 1e-15, f)
    if hasattr(w, "multiply"):
        z = w.copy()
        z.multiply(0.37)
        for f in fields:
            mon.close("multiply", getattr(z, f), tuple(0.37 * a for a in fields[f]) if uhf else 0.37 * fields[f], 1e-12)
            mon.close("multiply-source", getattr(w, f), fields[f], 1e-15, f)


def run_conv(case, mon, rng, rs):
    """CCSD <-> CISD <-> FCI conversions, restricted -> unrestricted."""
    from vayesta.core.types import wf as W

    uhf = bool(case["spin"])
    if uhf:
        norb = rng.randint(2, 5)
        no = (rng.randint(1, norb - 1), rng.randint(1, norb - 1))
        nv = tuple(norb - x for x in no)
        mo = umo(rs, (norb,) * 2, no)
        four = rng.random() < 0.5
        t1, t2 = uamps(rs, no, nv, four=four)
        l1, l2 = uamps(rs, no, nv, four=four)
        norb2, ne = (norb,) * 2, no
    else:
        norb = rng.randint(2, 5)
        no = rng.randint(1, norb - 1)
        nv = norb - no
        mo = rmo(rs, norb, no)
        t1, t2 = ramps(rs, no, nv)
        l1, l2 = ramps(rs, no, nv)
        four = False
        norb2, ne = (norb,) * 2, (no,) * 2
    mon.seen("conv", uhf, norb, no, four)
    cc = W.CCSD_WaveFunction(mo, t1, t2, l1=l1, l2=l2)
    for c0 in (1.0, rng.uniform(0.3, 0.9), -0.5):
        ci = cc.as_cisd(c0=c0)
        mon.close("ccsd-cisd-c0", ci.c0, c0, 1e-14)
        if uhf:
            mon.close("ccsd-cisd-c1", ci.c1, tuple(c0 * x for x in t1), 1e-11)
            a, b = t1
            e = lambda x, y: np.einsum("ia,jb->ijab", x, y)
            want = [c0 * (t2[0] + e(a, a) - e(a, a).transpose(0, 1, 3, 2)), c0 * (t2[1] + e(a, b)),
                    c0 * (t2[-1] + e(b, b) - e(b, b).transpose(0, 1, 3, 2))]
            if four:
                want.insert(2, want[1].transpose(1, 0, 3, 2))
            blocks_eq(mon, "ccsd-cisd-c2", ci.c2, tuple(want))
        else:
            mon.close("ccsd-cisd-c1", ci.c1, c0 * t1, 1e-11)
            mon.close("ccsd-cisd-c2", ci.c2, c0 * (t2 + np.einsum("ia,jb->ijab", t1, t1)), 1e-11)
        back = ci.as_ccsd()
        mon.close("cisd-ccsd-t1", back.t1, t1, 1e-10)
        blocks_eq(mon, "cisd-ccsd-t2", back.t2, t2)
        c0b = rng.uniform(0.2, 2)
        re = ci.as_cisd(c0=c0b)
        mon.close("cisd-rescale", re.c0, c0b, 1e-14)
        mon.close("cisd-rescale", re.c2, tuple(x * c0b / c0 for x in ci.c2) if uhf else ci.c2 * c0b / c0, 1e-10)
        mon.close("cisd-rescale", re.c1, tuple(x * c0b / c0 for x in ci.c1) if uhf else ci.c1 * c0b / c0, 1e-10)
        # projected CISD -> CCSD
        p = tuple(orth(rs, n)[:, : rng.randint(1, n)].T for n in ne) if uhf else orth(rs, no)[:, : rng.randint(1, no)].T
        if rng.random() < 0.5:
            p = tuple(x.T @ x for x in p) if uhf else p.T @ p
        if not four:
            # FCI and back
            if ci.projector is None:
                f = ci.as_fci()
                amp = Amp(f.ci, norb2, ne)
                check_cisd(mon, amp, ci, uhf, 1.0, "cisd-fci", rng)
                lev = np.array([[amp.level(x, y) for y in amp.sb] for x in amp.sa])
                mon.zero("cisd-fci-nothing-else", np.where(lev > 2, f.ci, 0), 1e-14)
                back = f.as_cisd()
                mon.close("cisd-fci-cisd", back.c0, c0, 1e-12)
                mon.close("cisd-fci-cisd", back.c1, ci.c1, 1e-12)
                mon.close("cisd-fci-cisd", back.c2, ci.c2, 1e-12)
    if not uhf:
        u = cc.as_unrestricted()
        mon.close("as-unrestricted-t1", u.t1, (t1, t1), 1e-12)
        mon.close("as-unrestricted-l1", u.l1, (l1, l1), 1e-12)
        t2a, l2a = t2 - t2.transpose(0, 1, 3, 2), l2 - l2.transpose(0, 1, 3, 2)
        mon.close("as-unrestricted-t2", u.t2, (t2a, t2, t2a), 1e-12)
        mon.close("as-unrestricted-l2", u.l2, (l2a, l2, l2a), 1e-12)
        d = cc.make_rdm1(t_as_lambda=True, ao_basis=True)
        du = u.make_rdm1(t_as_lambda=True, ao_basis=True)
        mon.close("as-unrestricted-rdm1", du[0] + du[1], d, 1e-9)
        mon.close("as-unrestricted-spin", du[0], du[1], 1e-9)
        u2 = W.MP2_WaveFunction(mo, t2).as_unrestricted()
        mon.close("mp2-as-unrestricted", u2.t2, (t2a, t2, t2a), 1e-12)
        mon.close("mp2-as-unrestricted-occ", u2.mo.nelec, (no, no), 1e-12)
    mp = W.MP2_WaveFunction(mo, t2)
    c0 = rng.uniform(0.3, 1)
    x = mp.as_cisd(c0=c0)
    mon.close("mp2-cisd", x.c2, tuple(c0 * y for y in t2) if uhf else c0 * t2, 1e-12)
    mon.zero("mp2-cisd-c1", x.c1, 1e-15)
    y = mp.as_ccsd()
    mon.close("mp2-ccsd", y.t2, t2, 1e-15)
    mon.zero("mp2-ccsd-t1", y.t1, 1e-15)


def fake_cc(mo, no, nv):
    class F:
        pass

    f = F()
    f.mo_coeff = mo
    f.frozen = None
    f.stdout = None
    f.verbose = 0
    f.max_memory = 4000
    return f


def run_rdm(case, mon, rng, rs):
    """MP2/CCSD density matrices of arbitrary amplitudes against PySCF's, and all output options."""
    from vayesta.core.types import wf as W
    import pyscf.cc
    from pyscf.cc import ccsd_rdm, uccsd_rdm

    uhf = bool(case["spin"])
    if uhf:
        no = (rng.randint(1, 4), rng.randint(1, 4))
        nv = (rng.randint(1, 4), rng.randint(1, 4))
        mo = umo(rs, (no[0] + nv[0], no[1] + nv[1]), no)
        t1, t2 = uamps(rs, no, nv)
        l1, l2 = uamps(rs, no, nv)
    else:
        no, nv = dims(rng)
        mo = rmo(rs, no + nv, no)
        t1, t2 = ramps(rs, no, nv)
        l1, l2 = ramps(rs, no, nv)
    mon.seen("rdm", uhf, no, nv)
    w = W.CCSD_WaveFunction(mo, t1, t2, l1=l1, l2=l2)
    fk = fake_cc(mo.coeff, no, nv)
    mod = uccsd_rdm if uhf else ccsd_rdm
    for tl in (False, True):
        la, lb = (t1, t2) if tl else (l1, l2)
        d1 = mod.make_rdm1(fk, t1, t2, la, lb, with_frozen=False)
        d2 = mod.make_rdm2(fk, t1, t2, la, lb, with_frozen=False)
        kw = dict(t_as_lambda=tl)
        if uhf:
            check_rdm_set(mon, w, True, tuple(d1), tuple(d2), no, kw=kw)
        else:
            mon.close("Rrdm1", w.make_rdm1(**kw), d1, 1e-9)
            g = d1.copy()
            g[np.diag_indices(no)] -= 2
            g0 = np.diag([2.0] * no + [0] * nv)
            mon.close("Rrdm1-nomf", w.make_rdm1(with_mf=False, **kw), g, 1e-9)
            mon.close("Rrdm1-ao", w.make_rdm1(ao_basis=True, **kw), ao1(d1, mo.coeff), 1e-9)
            mon.close("Rrdm1-ao-nomf", w.make_rdm1(ao_basis=True, with_mf=False, **kw), ao1(g, mo.coeff), 1e-9)
            mon.close("Rrdm2", w.make_rdm2(**kw), d2, 1e-9)
            mon.close("Rrdm2-ao", w.make_rdm2(ao_basis=True, **kw), ao2(d2, mo.coeff, mo.coeff), 1e-8)

            def nc(x, y):
                return np.einsum("ij,kl->ijkl", x, y) - np.einsum("ij,kl->iklj", x, y) / 2

            ap = d2 - nc(g0, d1) - nc(d1, g0) + nc(g0, g0)
            ex = d2 - nc(d1, d1)
            mon.close("Rcumulant-approx", w.make_rdm2(with_dm1=False, **kw), ap, 1e-9)
            mon.close("Rcumulant-exact", w.make_rdm2(with_dm1=False, approx_cumulant=False, **kw), ex, 1e-9)
            mon.close("Rcumulant-ao", w.make_rdm2(with_dm1=False, ao_basis=True, **kw), ao2(ap, mo.coeff, mo.coeff), 1e-8)
            mon.close("Rcumulant-ao", w.make_rdm2(with_dm1=False, ao_basis=True, approx_cumulant=False, **kw), ao2(ex, mo.coeff, mo.coeff), 1e-8)
    nolam = W.CCSD_WaveFunction(mo, t1, t2)
    mon.raises("no-lambda-no-rdm", lambda: nolam.make_rdm1())
    mon.raises("no-lambda-no-rdm", lambda: nolam.make_rdm2())
    mon.close("t-as-lambda", nolam.make_rdm1(t_as_lambda=True), W.CCSD_WaveFunction(mo, t1, t2, l1=t1, l2=t2).make_rdm1(), 1e-10)
    if not uhf:
        from pyscf.mp import mp2 as pmp2

        class M:
            pass

        f = M()
        f.mo_coeff, f.frozen, f.nocc, f.nmo, f.t2 = mo.coeff, None, no, no + nv, t2
        f.mo_occ = mo.occ
        d1 = pmp2.make_rdm1(f, t2, with_frozen=False)
        f.make_rdm1 = lambda *a, **k: pmp2.make_rdm1(f, t2, with_frozen=False)
        f.get_frozen_mask = lambda: np.ones(no + nv, bool)
        d2 = pmp2.make_rdm2(f, t2)
        m = W.MP2_WaveFunction(mo, t2)
        mon.close("mp2-rdm1", m.make_rdm1(), d1, 1e-10)
        g = d1.copy()
        g[np.diag_indices(no)] -= 2
        mon.close("mp2-rdm1-nomf", m.make_rdm1(with_mf=False), g, 1e-10)
        mon.close("mp2-rdm1-ao", m.make_rdm1(ao_basis=True), ao1(d1, mo.coeff), 1e-9)
        mon.close("mp2-rdm2", m.make_rdm2(), d2, 1e-10)
        mon.close("mp2-rdm2-ao", m.make_rdm2(ao_basis=True), ao2(d2, mo.coeff, mo.coeff), 1e-8)
        g0 = np.diag([2.0] * no + [0] * nv)

        def nc(x, y):
            return np.einsum("ij,kl->ijkl", x, y) - np.einsum("ij,kl->iklj", x, y) / 2

        mon.close("mp2-cumulant", m.make_rdm2(with_dm1=False), d2 - nc(g0, d1) - nc(d1, g0) + nc(g0, g0), 1e-9)
    # dummy wave function holding density matrices
    if uhf and no[0] + nv[0] == no[1] + nv[1] or not uhf:
        nb = (no[0] + nv[0],) * 2 if uhf else (no + nv,) * 2
        if nb[0] <= 5:
            ne = no if uhf else (no,) * 2
            ci = rand_fci(rs, rng, uhf, nb, ne)
            d1, d2 = ref_rdms(ci, nb, ne)
            r = W.RDM_WaveFunction(mo, (d1 if uhf else d1[0] + d1[1]), (d2 if uhf else spinfree(d2)))
            check_rdm_set(mon, r, uhf, d1, d2, ne)
    h = W.HF_WaveFunction(mo)
    d = h.make_rdm1()
    d2 = h.make_rdm2()
    if uhf:
        hd = [mo.coeff[s][:, :no[s]] @ mo.coeff[s][:, :no[s]].T for s in (0, 1)]
        mon.close("hf-rdm1", d, tuple(hd), 1e-10)
        ex = noncum_u(hd, no, False)
        mon.close("hf-rdm2", d2, ex, 1e-9)
    else:
        hd = 2 * mo.coeff[:, :no] @ mo.coeff[:, :no].T
        mon.close("hf-rdm1", d, hd, 1e-10)
        mon.close("hf-rdm2", d2, np.einsum("ij,kl->ijkl", hd, hd) - np.einsum("ij,kl->iklj", hd, hd) / 2, 1e-9)


def run_rot(case, mon, rng, rs):
    """Rotating the orbitals leaves the state alone."""
    from vayesta.core.types import wf as W

    uhf = bool(case["spin"])
    if uhf:
        no = (rng.randint(1, 3), rng.randint(1, 3))
        nv = (rng.randint(1, 3), rng.randint(1, 3))
        mo = umo(rs, (no[0] + nv[0], no[1] + nv[1]), no)
        four = rng.random() < 0.3
        t1, t2 = uamps(rs, no, nv, four=four)
        l1, l2 = uamps(rs, no, nv, four=four)
        to, tv = tuple(orth(rs, n) for n in no), tuple(orth(rs, n) for n in nv)
    else:
        no, nv = dims(rng, 1, 3)
        mo = rmo(rs, no + nv, no)
        t1, t2 = ramps(rs, no, nv)
        l1, l2 = ramps(rs, no, nv)
        to, tv = orth(rs, no), orth(rs, nv)
        four = False
    mon.seen("rot", uhf, no, nv)
    lam = rng.random() < 0.7
    w = W.CCSD_WaveFunction(mo, t1, t2, l1=l1 if lam else None, l2=l2 if lam else None)
    c_before = [x.copy() for x in mo.coeff] if uhf else mo.coeff.copy()

    def full(a, b):
        n = a.shape[0] + b.shape[0]
        x = np.zeros((n, n))
        x[: a.shape[0], : a.shape[0]] = a
        x[a.shape[0]:, a.shape[0]:] = b
        return x

    t = tuple(full(a, b) for a, b in zip(to, tv)) if uhf else full(to, tv)
    for how in ("ov", "full", "inplace"):
        if how == "ov":
            r = w.rotate_ov(to, tv)
        elif how == "full":
            r = w.rotate(t)
        else:
            z = w.copy()
            r = z.rotate(t, inplace=True)
            mon.true("inplace-same-object", r is z)
        # orbitals
        if uhf:
            for s in (0, 1):
                mon.close("rotated-orbitals", r.mo.coeff[s], c_before[s] @ t[s], 1e-10, "spin %d" % s)
        else:
            mon.close("rotated-orbitals", r.mo.coeff, c_before @ t, 1e-10)

        def ao(wf, f):
            """amplitude in the AO basis: invariant"""
            v = getattr(wf, f)
            if uhf:
                co, cv = wf.mo.coeff_occ, wf.mo.coeff_vir
                if f[1] == "1":
                    return tuple(co[s] @ v[s] @ cv[s].T for s in (0, 1))
                sps = [(0, 0), (0, 1), (1, 0), (1, 1)] if len(v) == 4 else [(0, 0), (0, 1), (1, 1)]
                return tuple(np.einsum("ijab,pi,qj,ra,sb->pqrs", x, co[s], co[u], cv[s], cv[u], optimize=True) for x, (s, u) in zip(v, sps))
            co, cv = wf.mo.coeff_occ, wf.mo.coeff_vir
            if f[1] == "1":
                return co @ v @ cv.T
            return np.einsum("ijab,pi,qj,ra,sb->pqrs", v, co, co, cv, cv, optimize=True)

        for f in ["t1", "t2"] + (["l1", "l2"] if lam else []):
            mon.close("state-unchanged-" + f, ao(r, f), ao(w, f), 1e-8, how)
        if not lam:
            mon.true("lambda-stays-none", r.l1 is None and r.l2 is None)
        if not four:
            a, b = r.make_rdm1(t_as_lambda=True, ao_basis=True), w.make_rdm1(t_as_lambda=True, ao_basis=True)
            mon.close("rdm1-unchanged", tuple(a) if uhf else a, tuple(b) if uhf else b, 1e-8)
        mon.close("source-untouched", w.mo.coeff, tuple(c_before) if uhf else c_before, 1e-15)
        mon.close("source-untouched", w.t2, t2, 1e-15)
    # occupied-virtual mixing is refused
    n = sum((no[0], nv[0])) if uhf else no + nv
    bad = orth(rs, n)
    tb = (bad, t[1]) if uhf else bad
    mon.raises("mixing-refused", lambda: w.rotate(tb))


def run_pack(case, mon, rng, rs):
    from vayesta.core.types import wf as W
    from vayesta.core import helper

    uhf = bool(case["spin"])
    if uhf:
        no = (rng.randint(1, 3), rng.randint(1, 4))
        nv = (rng.randint(1, 3), rng.randint(1, 4))
        mo = umo(rs, (no[0] + nv[0], no[1] + nv[1]), no)
        t1, t2 = uamps(rs, no, nv)
        l1, l2 = uamps(rs, no, nv)
        p = (rs.standard_normal((rng.randint(1, no[0]), no[0])), rs.standard_normal((rng.randint(1, no[1]), no[1])))
    else:
        no, nv = dims(rng, 1, 4)
        mo = rmo(rs, no + nv, no)
        t1, t2 = ramps(rs, no, nv)
        l1, l2 = ramps(rs, no, nv)
        p = rs.standard_normal((rng.randint(1, no), no))
    mon.seen("pack", uhf, no, nv)

    def same(a, b, name):
        if a is None or b is None:
            mon.true(name + "-none", a is None and b is None, "%s vs %s" % (type(a), type(b)))
            return
        if isinstance(a, tuple):
            mon.eq(name + "-blocks", len(b), len(a))
            for x, y in zip(a, b):
                same(x, y, name)
            return
        mon.eq(name + "-shape", np.shape(b), np.shape(a))
        mon.close(name, b, a, 0 + 1e-300)

    m2 = type(mo).unpack(mo.pack())
    same(mo.coeff, m2.coeff, "pack-mo-coeff")
    same(mo.energy, m2.energy, "pack-mo-energy")
    same(mo.occ, m2.occ, "pack-mo-occ")
    mon.eq("pack-mo-nocc", m2.nocc, mo.nocc)
    for lam in (False, True):
        for proj in (False, True):
            w = W.CCSD_WaveFunction(mo, t1, t2, l1=l1 if lam else None, l2=l2 if lam else None)
            if proj:
                w = w.project(p)
            x = type(w).unpack(w.pack())
            mon.event("pack")
            for f in ("t1", "t2", "l1", "l2", "projector"):
                same(getattr(w, f), getattr(x, f), "pack-ccsd-" + f)
            same(mo.coeff, x.mo.coeff, "pack-ccsd-mo")
            if not lam:
                mon.raises("unpacked-no-lambda", lambda: x.make_rdm1())
    for proj in (False, True):
        w = W.MP2_WaveFunction(mo, t2)
        if proj:
            w = w.project(p)
        x = type(w).unpack(w.pack())
        for f in ("t2", "projector"):
            same(getattr(w, f), getattr(x, f), "pack-mp2-" + f)
        same(mo.coeff, x.mo.coeff, "pack-mp2-mo")
    if not uhf:
        n = no + nv
        w = W.RDM_WaveFunction(mo, rs.standard_normal((n, n)), rs.standard_normal((n,) * 4))
        x = type(w).unpack(w.pack())
        same(w.dm1, x.dm1, "pack-rdm")
        same(w.dm2, x.dm2, "pack-rdm")
    # raw arrays
    arrs = [rs.standard_normal(tuple(rng.randint(1, 4) for _ in range(rng.randint(1, 6)))) if rng.random() < 0.7 else None for _ in range(6)]
    arrs.append(np.arange(5))
    back = helper.unpack_arrays(helper.pack_arrays(*arrs))
    mon.eq("pack-arrays-n", len(back), len(arrs))
    for a, b in zip(arrs, back):
        same(a, b, "pack-arrays")
    # copies do not share memory
    w = W.CCSD_WaveFunction(mo, t1, t2, l1=l1, l2=l2)
    c = w.copy()
    for f in ("t1", "t2", "l1", "l2"):
        for a in (getattr(c, f) if uhf else [getattr(c, f)]):
            a[...] = 7.0
    for k in (c.mo.coeff if uhf else [c.mo.coeff]):
        k[...] = 3.0
    same(t1, w.t1, "copy-independent")
    same(t2, w.t2, "copy-independent")
    same(l2, w.l2, "copy-independent")
    mon.true("copy-independent-mo", all(abs(k - 3.0).max() > 0 for k in (w.mo.coeff if uhf else [w.mo.coeff])))


def run_pyscf(case, mon, rng, rs):
    """Wave functions imported from PySCF objects reproduce that object's density matrices and energies."""
    import pyscf
    from pyscf import gto, scf, mp, cc, ci, fci, ao2mo
    from lib import systems as S
    from vayesta.core.types import wf as W

    uhf = bool(case["spin"])
    sp_ = S.mol(rng, rng.choice(["ch2", "h3", "oh", "nh"] if uhf else ["h4", "lih", "h2o", "heh2"]), "sto-3g", uhf=uhf)
    mf = S.get_mf(sp_)
    mon.seen("pyscf", uhf, sp_["name"])
    m = mp.UMP2(mf) if uhf else mp.MP2(mf)
    m.kernel()
    w = W.WaveFunction.from_pyscf(m)
    mon.close("from-pyscf-mp2", w.t2, m.t2, 1e-12)
    mon.close("from-pyscf-mo", w.mo.coeff, tuple(mf.mo_coeff) if uhf else mf.mo_coeff, 1e-10)
    if not uhf:
        mon.close("from-pyscf-mp2-rdm1", w.make_rdm1(), m.make_rdm1(), 1e-8)
        mon.close("from-pyscf-mp2-rdm2", w.make_rdm2(), m.make_rdm2(), 1e-8)
    c = cc.UCCSD(mf) if uhf else cc.CCSD(mf)
    c.conv_tol, c.conv_tol_normt = 1e-10, 1e-8
    c.kernel()
    c.solve_lambda()
    w = W.WaveFunction.from_pyscf(c)
    mon.close("from-pyscf-ccsd-rdm1", w.make_rdm1(), c.make_rdm1(), 1e-8)
    mon.close("from-pyscf-ccsd-rdm1-ao", w.make_rdm1(ao_basis=True), c.make_rdm1(ao_repr=True), 1e-8)
    mon.close("from-pyscf-ccsd-rdm2", w.make_rdm2(), c.make_rdm2(), 1e-8)
    x = ci.UCISD(mf) if uhf else ci.CISD(mf)
    x.kernel()
    w = W.WaveFunction.from_pyscf(x)
    f = w.as_fci()
    a, b = f.make_rdm1(), x.make_rdm1()
    mon.close("from-pyscf-cisd-rdm1", tuple(a) if uhf else a, tuple(b) if uhf else b, 1e-6)
    if not uhf and mf.mol.nao <= 6:
        h1 = mf.mo_coeff.T @ mf.get_hcore() @ mf.mo_coeff
        eri = ao2mo.restore(1, ao2mo.kernel(mf.mol, mf.mo_coeff), mf.mol.nao)
        s = fci.direct_spin1.FCI()
        s.conv_tol = 1e-12
        e, v = s.kernel(h1, eri, mf.mol.nao, mf.mol.nelec)
        w = W.WaveFunction.from_pyscf(s, mo=mf.mo_coeff)
        e2 = np.einsum("ij,ij", h1, w.make_rdm1()) + np.einsum("ijkl,ijkl", eri, w.make_rdm2()) / 2
        mon.close("from-pyscf-fci-energy", e2, e, 1e-8)
