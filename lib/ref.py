"""Independent reference computations (dense, slow, no code of the package under test)."""
import numpy as np
import scipy.linalg


def lowdin(s):
    e, v = np.linalg.eigh(s)
    return (v / np.sqrt(e)) @ v.T


def orth_err(c, s):
    c = np.asarray(c)
    if c.shape[-1] == 0:
        return 0.0
    return abs(c.T @ s @ c - np.eye(c.shape[-1])).max()


def span_err(a, b, s):
    """Distance of span(a) from span(b) (both S-orthonormal): max |P_a - P_b| in the orthonormal metric."""
    x = np.asarray(scipy.linalg.sqrtm(s)).real
    pa, pb = x @ a, x @ b
    return abs(pa @ pa.T - pb @ pb.T).max() if (a.shape[1] + b.shape[1]) else 0.0


def inside_err(a, b, s):
    """How far span(a) sticks out of span(b)."""
    if a.shape[-1] == 0:
        return 0.0
    r = b.T @ s @ a
    return abs(r.T @ r - a.T @ s @ a).max()


def upto_sign_err(a, b, s):
    """Columns equal up to sign."""
    if a.shape != b.shape:
        return np.inf
    if a.shape[-1] == 0:
        return 0.0
    sg = np.sign(np.einsum("ai,ab,bi->i", a, s, b))
    return abs(a - b * sg).max()


def ao_eri(mf):
    """Full (nao,)*4 ERI as used by the mean field (DF or exact)."""
    from pyscf import ao2mo

    nao = mf.mol.nao
    if getattr(mf, "with_df", None) is not None:
        l = cderi_ao(mf)
        return np.einsum("Lij,Lkl->ijkl", l, l, optimize=True)
    if getattr(mf, "_eri", None) is not None and mf.mol.natm == 0:
        return ao2mo.restore(1, mf._eri, nao)
    return mf.mol.intor("int2e")


def cderi_ao(mf):
    from pyscf import lib

    if mf.with_df._cderi is None:
        mf.with_df.build()
    return np.concatenate([lib.unpack_tril(np.asarray(b)) for b in mf.with_df.loop()])


def mo_eri(eri, c1, c2, c3, c4):
    return np.einsum("abcd,ai,bj,ck,dl->ijkl", eri, c1, c2, c3, c4, optimize=True)


def spin(x, s, uhf):
    return x[s] if uhf else x


def fragment_ref(mf, kind, s_ao, minao="minao"):
    """Reference local orbitals: list over spins of (coeff with one column per label, labels)."""
    from pyscf import lo

    uhf = np.ndim(mf.mo_occ[0]) > 0
    mos = mf.mo_coeff if uhf else [mf.mo_coeff]
    occs = mf.mo_occ if uhf else [mf.mo_occ]
    out = []
    mol = mf.mol
    for c, o in zip(mos, occs):
        if kind in ("sao", "site"):
            out.append((lowdin(s_ao), mol.ao_labels(None)))
            continue
        ciao = lo.iao.iao(mol, c[:, o > 0], minao=minao)
        ciao = ciao @ lowdin(ciao.T @ s_ao @ ciao)
        rm = lo.iao.reference_mol(mol, minao=minao)
        lab = [tuple(l) for l in rm.ao_labels(None)]
        out.append((ciao, lab))
    return out
