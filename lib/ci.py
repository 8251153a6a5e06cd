"""Dense determinant-space engine: Hamiltonians, excitation operators and exponentials for small clusters."""
import itertools

import numpy as np


class Space:
    """Determinants with nelec=(na, nb) electrons in norb=(ma, mb) orbitals; strings ordered as in PySCF."""

    def __init__(self, norb, nelec):
        from pyscf.fci import cistring

        self.norb = (norb, norb) if np.ndim(norb) == 0 else tuple(int(x) for x in norb)
        self.nelec = tuple(int(x) for x in nelec)
        self.e, self.d, self.rank = [], [], []
        for n, k in zip(self.norb, self.nelec):
            strs = [int(x) for x in cistring.make_strings(range(n), k)]
            d = len(strs)
            e = np.zeros((n, n, d, d))
            if k:
                tab = cistring.gen_linkstr_index(range(n), k)
                for j, rows in enumerate(tab):
                    for a, i, t, s in rows:
                        e[a, i, t, j] += s
            self.e.append(e)
            self.d.append(d)
            ref = (1 << k) - 1
            self.rank.append(np.array([bin(x & ~ref).count("1") for x in strs]))
        self.dim = self.d[0] * self.d[1]
        self.ranks = (self.rank[0][:, None] + self.rank[1][None]).ravel()
        i0 = [int(np.argmin(r)) for r in self.rank]
        self.i0 = i0[0] * self.d[1] + i0[1]
        self.ref = np.zeros(self.dim)
        self.ref[self.i0] = 1

    def op1(self, ha, hb):
        """sum_pq h_pq p^+ q (not necessarily Hermitian)."""
        a = np.einsum("pq,pqIJ->IJ", ha, self.e[0], optimize=True)
        b = np.einsum("pq,pqIJ->IJ", hb, self.e[1], optimize=True)
        return np.kron(a, np.eye(self.d[1])) + np.kron(np.eye(self.d[0]), b)

    def op2(self, gaa, gab, gbb):
        """1/2 sum g_pqrs p^+ r^+ s q, summed over spins (gab once)."""
        out = np.zeros((self.dim, self.dim))
        for s, g in ((0, gaa), (1, gbb)):
            e = self.e[s]
            n, d = self.norb[s], self.d[s]
            if n == 0 or g is None:
                continue
            x = np.einsum("pqrs,rsJK->pqJK", g, e, optimize=True).reshape(n * n, d, d)
            m = 0.5 * np.einsum("aIJ,aJK->IK", e.reshape(n * n, d, d), x, optimize=True)
            m -= 0.5 * np.einsum("pqqs,psIJ->IJ", g, e, optimize=True)
            out += np.kron(m, np.eye(self.d[1])) if s == 0 else np.kron(np.eye(self.d[0]), m)
        if gab is not None and self.norb[0] and self.norb[1]:
            x = np.einsum("pqrs,rsKL->pqKL", gab, self.e[1], optimize=True)
            out += np.einsum("pqIJ,pqKL->IKJL", self.e[0], x, optimize=True).reshape(self.dim, self.dim)
        return out

    def hamiltonian(self, h, eri):
        ha, hb = h if len(h) == 2 and np.ndim(h[0]) == 2 else (h, h)
        gaa, gab, gbb = eri if isinstance(eri, (tuple, list)) else (eri, eri, eri)
        return self.op1(ha, hb) + self.op2(gaa, gab, gbb)

    def texc(self, t1=None, t2=None):
        """Cluster operator from amplitudes t1[i,a], t2[i,j,a,b]; tuples for unrestricted ones."""
        na, nb = self.nelec
        ma, mb = self.norb
        out = np.zeros((self.dim, self.dim))
        if t1 is not None:
            ta, tb = t1 if isinstance(t1, (tuple, list)) else (t1, t1)
            ha, hb = np.zeros((ma, ma)), np.zeros((mb, mb))
            ha[na:, :na] = np.asarray(ta).T
            hb[nb:, :nb] = np.asarray(tb).T
            out += self.op1(ha, hb)
        if t2 is not None:
            if isinstance(t2, (tuple, list)):
                taa, tab, tbb = t2
                taa, tbb = 0.5 * np.asarray(taa), 0.5 * np.asarray(tbb)
            else:
                taa = tab = tbb = np.asarray(t2)
            gaa, gbb, gab = np.zeros((ma,) * 4), np.zeros((mb,) * 4), np.zeros((ma, ma, mb, mb))
            gaa[na:, :na, na:, :na] = taa.transpose(2, 0, 3, 1)
            gbb[nb:, :nb, nb:, :nb] = tbb.transpose(2, 0, 3, 1)
            gab[na:, :na, nb:, :nb] = np.asarray(tab).transpose(2, 0, 3, 1)
            out += self.op2(gaa, gab, gbb)
        return out

    def expm(self, t, sign=1):
        out = np.eye(self.dim)
        x = np.eye(self.dim)
        for k in range(1, sum(self.nelec) + 1):
            x = x @ (sign * t) / k
            out = out + x
            if abs(x).max() == 0:
                break
        return out

    def exp_ref(self, t):
        v = x = self.ref
        for k in range(1, sum(self.nelec) + 1):
            x = t @ x / k
            v = v + x
        return v

    def amplitudes(self, vec):
        """Intermediately normalised singles and doubles coefficients of a CI vector in t1/t2 layout (unrestricted)."""
        vec = np.asarray(vec).ravel() / vec.ravel()[self.i0]
        na, nb = self.nelec
        ma, mb = self.norb
        v = vec.reshape(self.d)
        r = self.ref.reshape(self.d)
        ea, eb = self.e
        # E_ai|0> is the normalised, signed determinant
        da = np.einsum("aiIJ,JK->aiIK", ea[na:, :na], r, optimize=True)
        db = np.einsum("bjKL,IL->bjIK", eb[nb:, :nb], r, optimize=True)
        c1 = (np.einsum("aiIK,IK->ia", da, v), np.einsum("bjIK,IK->jb", db, v))
        caa = np.einsum("bjLI,aiIK,LK->ijab", ea[na:, :na], da, v, optimize=True)
        cbb = np.einsum("bjLK,aiIK,IL->ijab", eb[nb:, :nb], db, v, optimize=True)
        cab = np.einsum("bjLK,aiIK,IL->ijab", eb[nb:, :nb], da, v, optimize=True)
        return c1, (caa, cab, cbb)

    def cc_from_ci(self, c1, c2):
        (a, b), (aa, ab, bb) = c1, c2
        f = lambda c, t: c - np.einsum("ia,jb->ijab", t, t) + np.einsum("ib,ja->ijab", t, t)
        return (a, b), (f(aa, a), ab - np.einsum("ia,jb->ijab", a, b), f(bb, b))


def energies(h, eri, nelec):
    """Reference energy and Fock matrices for h, eri in an MO basis with the first nelec orbitals occupied."""
    ha, hb = h if len(h) == 2 and np.ndim(h[0]) == 2 else (h, h)
    gaa, gab, gbb = eri if isinstance(eri, (tuple, list)) else (eri, eri, eri)
    oa, ob = slice(nelec[0]), slice(nelec[1])
    fa = ha + np.einsum("pqii->pq", gaa[:, :, oa, oa]) - np.einsum("piiq->pq", gaa[:, oa, oa, :]) + np.einsum("pqii->pq", gab[:, :, ob, ob])
    fb = hb + np.einsum("pqii->pq", gbb[:, :, ob, ob]) - np.einsum("piiq->pq", gbb[:, ob, ob, :]) + np.einsum("iipq->pq", gab[oa, oa])
    e = 0.5 * (np.trace((ha + fa)[oa, oa]) + np.trace((hb + fb)[ob, ob]))
    return e, (fa, fb)
