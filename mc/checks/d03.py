"""D03: matrix divergences."""
from itertools import product

import numpy as np

import quantfinlib.distance as qd

ID = "D03"
CASE_LIMIT = 240
CHUNK = 2
ASSUMPTIONS = ["equality to 1e-8 relative to the size of the terms of the formula; condition numbers up to 1e8",
               "rejected matrices have an eigenvalue of -1e-6 (relative) or less, or an exactly zero row"]


def mats(tier):
    """symmetric positive definite matrices, simplest first"""
    out = []
    for a, c in product((1.0, 2.0, 5.0), repeat=2):
        for b in (-1.5, -0.5, 0.0, 0.5, 1.0, 2.0):
            if a * c - b * b > 0.1:
                out.append(np.array([[a, b], [b, c]]))
    for x in product((-0.5, 0.0, 0.4), repeat=3):
        m = np.array([[1, x[0], x[1]], [x[0], 2, x[2]], [x[1], x[2], 1.5]])
        if np.linalg.eigvalsh(m)[0] > 0.05:
            out.append(m)
    for n in (1, 4, 6, 13):
        i = np.arange(n * n).reshape(n, n)
        g = np.sin(1.1 * i + 0.3)
        out.append(g @ g.T + 0.3 * np.eye(n))
        out.append(np.diag(1.0 + np.arange(n)))
        h = np.cos(0.7 * i * i)
        out.append(h @ h.T + np.eye(n))
    for s in (1e-4, 1e4):
        out.append(s * np.array([[2.0, 0.7], [0.7, 1.0]]))
        out.append(s * np.array([[1, 0.1, 0.2], [0.1, 2, 0.3], [0.2, 0.3, 1.5]]))
    out.append(np.diag([1e4, 1.0, 1e-4]))
    i = np.arange(1600).reshape(40, 40)  # determinants far outside the floating-point range
    for s in (1e-10, 1.0, 1e9):
        g = np.sin((1.1 + s) * i + 0.3)
        out.append(s * (g @ g.T / 40 + np.eye(40)))
    for s in (1e-10, 1e10):
        out.append(s * np.array([[1.0, 0.3], [0.3, 2.0]]))
    if tier == "thorough":
        for a, c in product((0.1, 1.0, 3.0, 40.0), repeat=2):
            for r in (-0.99, -0.7, -0.2, 0.1, 0.6, 0.95):
                b = r * np.sqrt(a * c)
                out.append(np.array([[a, b], [b, c]]))
        for x in product((-0.9, -0.45, 0.0, 0.3, 0.8), repeat=3):
            m = np.array([[1, x[0], x[1]], [x[0], 1, x[2]], [x[1], x[2], 1.0]])
            if np.linalg.eigvalsh(m)[0] > 0.01:
                out.append(m)
    return out


def BOUNDS(tier):
    return f"all ordered pairs of equal size among {len(mats(tier))} positive definite matrices of size 1-6, 13 and 40, scales 1e-10 to 1e10, x changes of basis; all invalid partners"


def cases(tier):
    for i in range(len(mats(tier))):
        yield {"i": i, "tier": tier}


def logm(p):
    w, v = np.linalg.eigh(p)
    return (v * np.log(w)) @ v.T


def ref_ld(p, q):
    k = np.linalg.solve(q, p)
    return np.trace(k) - np.linalg.slogdet(p)[1] + np.linalg.slogdet(q)[1] - len(p), abs(np.trace(k)) + len(p)


def ref_vn(p, q):
    a, b = np.trace(p @ logm(p)), np.trace(p @ logm(q))
    return a - b - np.trace(p) + np.trace(q), abs(a) + abs(b) + np.trace(p) + np.trace(q)


def rot(n, k):
    i = np.arange(n * n).reshape(n, n)
    return np.linalg.qr(np.sin(0.9 * i * (k + 1) + k))[0]


def rejected(f):
    try:
        f()
    except Exception:
        return True
    return False


def run(case, ctx):
    M = mats(case["tier"])
    p = M[case["i"]]
    n = len(p)
    for j, q in enumerate(M):
        if len(q) != n:
            continue
        for name, f, ref in (("log_det", qd.log_det_divergence, ref_ld), ("von_neuman", qd.von_neuman_divergence, ref_vn)):
            a, b = p.copy(), q.copy()
            d = f(a, b)
            ctx.step()
            ctx.trace()
            w, sc = ref(p, q)
            tol = 1e-8 * sc
            tag = f"{name} p={p.tolist()} q={q.tolist()}"
            if not np.array_equal(a, p) or not np.array_equal(b, q):
                ctx.fail("input-modified", tag)
            if np.ndim(d) != 0 or np.iscomplexobj(d) or abs(d - w) > tol:
                ctx.fail("formula", f"{tag}: {d} instead of {w}")
                continue
            if d < -tol:
                ctx.fail("negative", f"{tag}: {d}")
            if j == case["i"]:
                if abs(d) > tol:
                    ctx.fail("self", f"{tag}: {d}")
            elif np.max(np.abs(p - q)) > 1e-3 * np.max(np.abs(p)) and d <= tol:
                ctx.fail("zero-for-different", f"{tag}: {d}")
            for k in (0, 1):
                Q = rot(n, k)
                g = f(Q @ p @ Q.T, Q @ q @ Q.T)
                ctx.step()
                if np.iscomplexobj(g) or abs(g - w) > 1e-6 * sc:
                    ctx.fail("basis", f"{tag}: {g} after a rotation instead of {w}")
            for c in (0.25, 3.0):
                g = f(c * p, c * q)
                want = w if name == "log_det" else c * w
                ctx.step()
                if abs(g - want) > 1e-7 * max(1, c) * sc * (1 + abs(np.log(c))):
                    ctx.fail("scale", f"{tag}: both x {c}: {g} instead of {want}")
            if name == "log_det":
                A = rot(n, 2) + np.diag(1.0 + np.arange(n))
                if np.linalg.cond(A) < 100:
                    g = f(A @ p @ A.T, A @ q @ A.T)
                    ctx.step()
                    if abs(g - w) > 1e-6 * sc:
                        ctx.fail("congruence", f"{tag}: {g} instead of {w}")
        ctx.state(case["i"], j)
    bad = [("negated", -p), ("zero", np.zeros((n, n)))]
    w, v = np.linalg.eigh(p)
    for mask in range(1, 2 ** min(n, 6)):  # every set of negative eigenvalues: the determinant may well be positive
        u = np.where([mask >> k & 1 for k in range(n)], -0.5, 1.0) * w
        bad.append((f"negative eigenvalues {mask:b}", (v * u) @ v.T))
        bad.append((f"negative diagonal {mask:b}", np.diag([-(k + 1.0) if mask >> k & 1 else 1.0 + k for k in range(n)])))
    for k in range(n):
        for e in (-1.0, -1e-3, -1e-6):
            u = w.copy()
            u[k] = e * w[-1]
            bad.append((f"eigenvalue {k} negative {e}", (v * u) @ v.T))
        m = p.copy()
        m[k, :] = 0
        m[:, k] = 0
        bad.append((f"zero row {k}", m))
    for tag, m in bad:
        for name, f in (("log_det", qd.log_det_divergence), ("von_neuman", qd.von_neuman_divergence)):
            ctx.step(4)
            ctx.trace(4)
            if not all(rejected(lambda: f(a, b)) for a, b in ((m, p), (p, m), (m, m), (m, -m if np.linalg.eigvalsh(m)[0] < 0 < np.linalg.eigvalsh(m)[-1] else m))):
                ctx.fail("accepted", f"{name} accepted a matrix that is not positive definite: {tag} {m.tolist()}")
        ctx.state(case["i"], tag)
    ctx.sample({"p": p.tolist()})
