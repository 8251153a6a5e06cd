"""Collect the public results of an embedding run in a spin-resolved, comparable form."""
import numpy as np


def t1_u(t1, uhf):
    return [np.asarray(x) for x in t1] if uhf else [np.asarray(t1)] * 2


def t2_u(t2, uhf):
    if uhf:
        return [np.asarray(t2[0]), np.asarray(t2[1]), np.asarray(t2[-1])]
    t2 = np.asarray(t2)
    aa = t2 - t2.transpose(0, 1, 3, 2)
    return [aa, t2, aa]


def dm1_s(dm1, uhf):
    """Spin-summed."""
    return np.asarray(dm1[0]) + np.asarray(dm1[1]) if uhf else np.asarray(dm1)


def dm2_s(dm2, uhf):
    if not uhf:
        return np.asarray(dm2)
    aa, ab, bb = (np.asarray(x) for x in (dm2[0], dm2[1], dm2[-1]))
    return aa + bb + ab + ab.transpose(2, 3, 0, 1)


def collect(emb, solver, uhf, want=None, summed=True):
    """dict name -> array/float for an EWF run. summed: spin-summed quantities, comparable between RHF and UHF."""
    out = {}

    def add(name, f):
        if want is None or name.split(":")[0] in want:
            out[name] = f()

    fr = emb.get_fragments()
    add("nelec", lambda: [float(np.sum(x.nelectron)) for x in fr])
    add("norb", lambda: [[[float(np.ravel(n)[0]), float(np.ravel(n)[-1])] for n in (x.cluster.norb_active, x.cluster.nocc_active)]
                         for x in fr if x.sym_parent is None])
    add("e:wf", lambda: float(emb.get_e_corr("wf")))
    add("e:tot", lambda: float(emb.e_tot))
    if solver == "CCSD":
        add("e:dm", lambda: float(emb.get_e_corr("dm")))
        add("e:dm2global", lambda: float(emb.get_dm_corr_energy(dm2="global-wf")))
        add("e:dm-2p1l", lambda: float(emb.get_dm_corr_energy(dm1="2p1l")))
    if solver in ("CCSD", "FCI", "CISD", "MP2"):
        for pc, ac in ((True, True), (True, False), (False, True)):
            add("dmet:%d%d" % (pc, ac), lambda: float(emb.get_dmet_energy(part_cumulant=pc, approx_cumulant=ac)))
        add("rdm1demo", lambda: (lambda d: dm1_s(d, uhf) if summed else d)(emb.make_rdm1_demo()))
        add("rdm2demo", lambda: (lambda d: dm2_s(d, uhf) if summed else d)(emb.make_rdm2_demo()))
        add("corrfunc:SzSz", lambda: emb.get_corrfunc("Sz,Sz"))
    if solver in ("CCSD", "MP2"):
        if solver == "CCSD":
            add("t1", lambda: t1_u(emb.get_global_t1(), uhf))
        add("t2", lambda: t2_u(emb.get_global_t2(), uhf))
        add("rdm1", lambda: (lambda d: dm1_s(d, uhf) if summed else d)(emb.make_rdm1()))
        add("rdm1:ao", lambda: (lambda d: dm1_s(d, uhf) if summed else d)(emb.make_rdm1(ao_basis=True)))
        add("rdm2", lambda: (lambda d: dm2_s(d, uhf) if summed else d)(emb.make_rdm2()))
    if solver == "CCSD":
        add("l1", lambda: t1_u(emb.get_global_l1(), uhf))
        add("l2", lambda: t2_u(emb.get_global_l2(), uhf))
        add("rdm2:global", lambda: (lambda d: dm2_s(d, uhf) if summed else d)(emb._make_rdm2_ccsd_global_wf()))
        add("rdm1:2p1l", lambda: (lambda d: dm1_s(d, uhf) if summed else d)(emb._make_rdm1_ccsd()))
    add("pop", lambda: (lambda p: dm1_s(p, uhf) if summed else p)(emb.pop_analysis(dm1=emb.mf.make_rdm1(), filename="pop.txt")))
    return out
