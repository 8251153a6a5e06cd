"""C08: compiled kernels: right numbers, no memory error, no undefined behaviour, no data race."""
import os
import re
import shutil
import subprocess

import numpy as np

from lib.mon import Skip

RULE = ("one call of a compiled kernel on random arrays of exact size, under AddressSanitizer+UBSan with an instrumented BLAS, under "
        "ThreadSanitizer with an instrumented OpenMP runtime, or in the library the package loads (threads 1..8), result compared with NumPy; "
        "distinct = (stage, kernel, dimensions)")
NEED = {"stage:asan": 40, "stage:native": 40, "fn:ao2mo_cderi": 20, "fn:j3c_jk": 10}
BUDGET = {"quick": 80, "thorough": 900}
CASE_TIMEOUT = 120
ASSUMPTIONS = ["ThreadSanitizer observes the schedules that occur; the OpenMP runtime is replaced by an instrumented one of the same semantics",
               "sanitizer builds use -O1 instead of -Ofast"]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FN = ["ao2mo_cderi", "j3c_kao2gmo", "j3c_k2gamma", "transpose_102", "j3c_jk"]


def setup(scratch, repo):
    src = os.path.join(repo, "vayesta", "libs", "core", "src")
    nat = os.path.join(HERE, "native")
    out = os.path.join(scratch, "native")
    os.makedirs(out)
    cs = [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith(".c")]
    log = open(os.path.join(out, "build.log"), "w")

    def sh(*a):
        return subprocess.run(a, stdout=log, stderr=subprocess.STDOUT).returncode == 0

    san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"]
    wrap = ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "free")]
    blas = ([], ["-lopenblas"], ["-lblas"], ["-lcblas", "-lblas"])
    any(sh("gcc", "-g", "-O1", "-fopenmp", *san, "-DCOUNT_MEM", *wrap, "-I" + src, *cs, os.path.join(nat, "drv.c"), "-lm", *b, "-o", os.path.join(out, "asan"))
        for b in blas)
    objs = []
    ok = True
    for i, c in enumerate(cs):
        o = os.path.join(out, "t%d.o" % i)
        ok &= sh("gcc", "-g", "-O1", "-fopenmp", "-fsanitize=thread", "-I" + src, "-c", c, "-o", o)
        objs.append(o)
    if ok:
        any(sh("gcc", "-g", "-O1", "-fsanitize=thread", "-I" + src, *objs, os.path.join(nat, "drv.c"), os.path.join(nat, "gomp_stub.c"), "-lm", "-lpthread",
               *b, "-o", os.path.join(out, "tsan")) for b in blas)
    os.environ["VERIF_NATIVE"] = out
    log.close()


def cases(rng, tier):
    full = tier == "thorough"
    out = []
    stages = ["asan", "native", "tsan"]
    for i in range(6000 if full else 900):
        fn = rng.choice([0, 0, 0, 1, 2, 3, 4, 4])
        st = stages[i % 3]
        big = rng.random() < 0.25
        c = dict(kind=st, w=1, rs=rng.randrange(1 << 30), fn=fn, nk=rng.choice([1, 2, 3, 4] if big else [1, 2, 3]), nao=rng.randint(1, 7 if big else 4),
                 n1=rng.choice([1, 1, 1, 2, 3, 4, 5, 9 if big else 2]), n2=rng.choice([1, 2, 3, 4, 5, 8 if big else 3]),
                 naux=rng.choice([0, 1, 2, 3, 5, 9, 40 if big else 7]), thr=rng.choice([1, 2, 3, 4, 8]), opt=rng.randrange(8))
        out.append(c)
    return out


def cplx(rs, *shape):
    return rs.standard_normal(shape) + 1j * rs.standard_normal(shape)


def job(case):
    """(dims, input arrays, list of (reference, tolerance scale))."""
    rs = np.random.default_rng(case["rs"])
    fn, nk, nao, n1, n2, naux, opt = (case[k] for k in ("fn", "nk", "nao", "n1", "n2", "naux", "opt"))
    if fn == 0:
        c1, c2, l = cplx(rs, nao, n1), cplx(rs, nao, n2), cplx(rs, naux, nao, nao)
        o = cplx(rs, naux, n1, n2) if opt & 1 else np.zeros((naux, n1, n2), complex)
        want = o + np.einsum("Lab,ai,bj->Lij", l, c1, c2)
        return [nao, n1, n2, naux], [c1, c2, l, o], [3], [want]
    if fn == 1:
        n1, n2 = max(n1, 1), max(n2, 1)
        # cyclic group of k-points: kk = ki - kj
        kc = np.array([[(i - j) % nk for j in range(nk)] for i in range(nk)], dtype=np.int64)
        if opt & 4:
            p = rs.permutation(nk)
            q = np.argsort(p)
            kc = np.array([[q[(p[i] - p[j]) % nk] for j in range(nk)] for i in range(nk)], dtype=np.int64)
        co, cv = cplx(rs, nk, nao, n1), cplx(rs, nk, nao, n2)
        if opt & 1 and nk > 1:
            # unique pairs: (0,0) first, lower triangle stored, upper obtained by adjoint
            ku = np.zeros((nk, nk), dtype=np.int64)
            n = 0
            l = []
            for i in range(nk):
                for j in range(i + 1):
                    x = cplx(rs, naux, nao, nao)
                    l.append(x)
                    ku[i, j] = n
                    if i != j:
                        ku[j, i] = -n
                    n += 1
            l = np.array(l).reshape(n, naux, nao, nao)
            get = lambda i, j: l[ku[i, j]] if ku[i, j] >= 0 else l[-ku[i, j]].transpose(0, 2, 1).conj()
        else:
            ku = None
            l = cplx(rs, nk * nk, naux, nao, nao)
            get = lambda i, j: l[i * nk + j]
        ov = np.zeros((nk, naux, n1, n2), complex)
        oo = np.zeros((nk, naux, n1, n1), complex) if opt & 2 else None
        vv = np.zeros((nk, naux, n2, n2), complex) if rs.random() < 0.6 else None
        w = [None if x is None else x.copy() for x in (ov, oo, vv)]
        for i in range(nk):
            for j in range(nk):
                for o_, a, b in zip(w, (co, co, cv), (cv, co, cv)):
                    if o_ is not None:
                        o_[kc[i, j]] += np.einsum("Lab,ai,bj->Lij", get(i, j), a[i].conj(), b[j])
        return [nk, nao, n1, n2, naux], [kc, ku, co, cv, l, ov, oo, vv], [5, 6, 7], [x for x in w]
    if fn == 2:
        kc = np.array([[(i - j) % nk for j in range(nk)] for i in range(nk)], dtype=np.int64)
        ph = np.array([[np.exp(2j * np.pi * r * k / nk) for k in range(nk)] for r in range(nk)]) / np.sqrt(nk)  # (R,k)
        # integrals that fold to real numbers
        g = rs.standard_normal((nk, naux, nk, nao, nk, nao))  # R'' L Ri a Rj b
        full = np.einsum("Rk,RLiajb,ip,jq->kLapbq", ph.conj(), g, ph.conj(), ph, optimize=True)
        j3c = np.zeros((naux, nao, nao, nk, nk), complex)
        for i in range(nk):
            for j in range(nk):
                j3c[:, :, :, i, j] = full[kc[i, j], :, :, i, :, j]
        # reference by summation
        big = np.zeros((nk, naux, nao, nk, nao, nk), complex)
        for i in range(nk):
            for j in range(nk):
                big[kc[i, j], :, :, i, :, j] = j3c[:, :, :, i, j]
        ref = np.einsum("Rk,kLapbq,ip,jq->RLiajb", ph, big, ph, ph.conj(), optimize=True)
        ref = ref.reshape(nk * naux, nk * nao, nk * nao)
        imax = abs(ref.imag).max() if ref.size else 0.0
        comp = bool(opt & 1)
        re = ref.real
        if comp:
            t = np.tril_indices(nk * nao)
            re = re[:, t[0], t[1]]
        return [nk, nao, naux, int(comp)], [kc, ph, j3c, np.zeros(re.shape), np.zeros(1)], [3, 4], [re, np.array([imax])]
    if fn == 3:
        a = cplx(rs, n1, nao, n2)
        return [n1, nao, n2], [a, np.zeros((nao, n1, n2), complex)], [1], [a.transpose(1, 0, 2)]
    naux = max(naux, 1)
    l0 = int(rs.integers(0, naux))
    l1 = int(rs.integers(l0 + 1, naux + 1))
    l = cplx(rs, nk, nk, naux, nao, nao)
    dm = cplx(rs, nk, nao, nao)
    vj, vk = cplx(rs, nk, nao, nao), cplx(rs, nk, nao, nao)
    wj, wk = bool(opt & 1) or not opt & 2, bool(opt & 2)
    if opt & 4:
        wj = wk = opt != 4
    x = l[:, :, l0:l1]
    d = np.array([x[i, i] for i in range(nk)])
    rho = np.einsum("kLpq,kpq->L", d, dm.conj())
    rj = vj + (np.einsum("L,kLrs->krs", rho, d) / nk if wj else 0)
    rk = vk + (np.einsum("jiLrp,ipq,ijLqs->jrs", x, dm, x, optimize=True) / nk if wk else 0)
    return [nk, nao, naux, int(wj), int(wk)], [np.array([l0, l1], dtype=np.int64), l, dm, vj, vk], [3, 4], [rj, rk]


def blob(a):
    if a is None:
        return np.int64(-1).tobytes()
    b = np.ascontiguousarray(a).tobytes()
    return np.int64(len(b)).tobytes() + b


def run(case, mon):
    stage = case["kind"]
    dims, arrs, outs, want = job(case)
    fn = FN[case["fn"]]
    mon.event("fn:" + fn)
    if stage == "native":
        got, rc = native(case, fn, dims, arrs, outs)
        mon.event("stage:native")
    else:
        exe = os.path.join(os.environ.get("VERIF_NATIVE", ""), stage)
        if not os.path.exists(exe):
            raise Skip("no %s build (BLAS or OpenMP construct not covered by the instrumented runtime)" % stage)
        inp = blob(np.array([case["fn"]], dtype=np.int64)) + blob(np.array(dims, dtype=np.int64)) + b"".join(blob(a) for a in arrs)
        env = dict(PATH="/usr/bin:/bin", OMP_NUM_THREADS=str(case["thr"]), STUB_THREADS=str(max(2, case["thr"])),
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:malloc_fill_byte=123:max_malloc_fill_size=100000000",
                   UBSAN_OPTIONS="halt_on_error=1:exitcode=77:print_stacktrace=1", TSAN_OPTIONS="exitcode=66:halt_on_error=0:history_size=4")
        cmd = [exe]
        p = subprocess.run(cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=100)
        err = p.stderr.decode(errors="replace")
        if stage == "tsan" and "unexpected memory mapping" in err:
            sa = shutil.which("setarch")
            p = subprocess.run([sa, "-R", exe] if sa else cmd, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=100)
            err = p.stderr.decode(errors="replace")
            if "unexpected memory mapping" in err:
                raise Skip("ThreadSanitizer cannot run in this address space")
        if p.returncode == 5:
            raise Skip("kernel %s does not exist" % fn)
        mon.event("stage:" + stage)
        m = re.search(r"(ERROR: AddressSanitizer: [\w-]+|runtime error: [^\n]*|WARNING: ThreadSanitizer: [\w ]+|BLAS-ARG: [^\n]*|LEAK: [^\n]*)", err)
        if not mon.true(stage + " silent", not m, "%s %s: %s\n%s" % (fn, dims, m and m.group(1), err[:1500])):
            return
        if not mon.true("kernel returns", p.returncode == 0, "%s %s: exit status %d %s" % (fn, dims, p.returncode, err[:800])):
            return
        out = p.stdout
        rc = int(np.frombuffer(out[:8], np.int64)[0])
        off, got = 8, []
        for k in outs:
            a = arrs[k]
            if a is None:
                got.append(None)
                continue
            n = a.nbytes
            got.append(np.frombuffer(out[off:off + n], a.dtype).reshape(a.shape))
            off += n
    mon.seen(stage, fn, *dims)
    mon.true("return code", rc == 0, fn)
    for g, w in zip(got, want):
        if w is None:
            continue
        mon.event("elements", w.size)
        mon.close("%s = NumPy" % fn, g, w, 1e-10 * max(1.0, abs(w).max() if w.size else 1.0), "%s %s" % (stage, dims))


_LIB = {}


def native(case, fn, dims, arrs, outs):
    """The library the package itself loads; canaries around every output buffer, inputs must stay unchanged."""
    import ctypes

    from vayesta.libs import libcore

    if libcore is None:
        raise Skip("no library")
    f = getattr(libcore, fn, None)
    if f is None:
        raise Skip("kernel %s does not exist" % fn)
    f.restype = ctypes.c_int64
    try:
        omp = ctypes.CDLL("libgomp.so.1")
        omp.omp_set_num_threads(case["thr"])
    except OSError:
        pass
    pad = 64
    bufs = []
    for i, a in enumerate(arrs):
        if a is None:
            bufs.append(None)
            continue
        b = np.full(a.size + 2 * pad, 12345.678 if a.dtype != np.int64 else 77, dtype=a.dtype)
        b[pad:pad + a.size] = a.ravel()
        bufs.append(b)
    ptr = [None if b is None else ctypes.c_void_p(b.ctypes.data + pad * b.itemsize) for b in bufs]
    d = [ctypes.c_int64(x) for x in dims]
    if fn == "j3c_k2gamma":
        args = d[:3] + ptr[:3] + [ctypes.c_bool(dims[3])] + ptr[3:]
    elif fn == "j3c_jk":
        args = d[:3] + ptr[:3] + [ctypes.c_bool(dims[3]), ctypes.c_bool(dims[4])] + ptr[3:]
    else:
        args = d + ptr
    rc = f(*args)
    for i, (a, b) in enumerate(zip(arrs, bufs)):
        if a is None:
            continue
        edge = np.concatenate([b[:pad], b[pad + a.size:]])
        assert np.all(edge == (12345.678 if a.dtype != np.int64 else 77)), "write outside buffer %d of %s" % (i, fn)
        if i not in outs:
            assert np.array_equal(b[pad:pad + a.size], a.ravel()), "input %d of %s was modified" % (i, fn)
    return [None if bufs[k] is None else bufs[k][pad:pad + arrs[k].size].reshape(arrs[k].shape) for k in outs], rc
