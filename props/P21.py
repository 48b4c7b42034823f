"""LSTM."""
import numpy as np
from tv import fmt, ops
from tv.gen import Violation
from tv.api import ApiError

ID = "P21"
RULE = ("sequences of generated length, batch, input and hidden sizes with generated weights, biases and initial states (also left out), forward, reverse "
        "and bidirectional, weights as constants or inputs, several runs of different length and batch per workbench; all three outputs compared with a direct "
        "float64 recurrence; non-trivial = at least two steps, or a non-zero initial state; distinct by shapes, options and data")
CASES = {"quick": 8000, "thorough": 250000}
VARIANTS = ("rel", "asan")


def setup(libs):
    return ops.Env(libs)


def sig(v):
    return 1 / (1 + np.exp(-v))


def ref(x, W, R, b, h, c, rev):
    """one direction; W [4H, I] in order i, o, f, c"""
    H = W.shape[0] // 4
    x, W, R, b, h, c = (v.astype(np.float64) for v in (x, W, R, b, h, c))
    bias = b[:4 * H] + b[4 * H:]
    y = np.zeros((x.shape[0], x.shape[1], H))
    for k in (range(len(x))[::-1] if rev else range(len(x))):
        g = x[k] @ W.T + h @ R.T + bias
        i, o, f, u = (g[:, j * H:(j + 1) * H] for j in range(4))
        c = sig(f) * c + sig(i) * np.tanh(u)
        h = sig(o) * np.tanh(c)
        y[k] = h
    return y, h, c


def t_lstm(src, env):
    dt = src.weighted([(6, np.float32), (1, np.float64)])
    mode = src.weighted([(3, "forward"), (3, "bidirectional"), (2, "reverse")])
    D = 2 if mode == "bidirectional" else 1
    I, H = src.int(1, 10), src.weighted([(1, 1), (3, src.int(1, 5)), (3, src.int(1, 12))])
    g = src.nprng()
    amp = src.choice([0.3, 1, 3])
    w = lambda *s: (g.standard_normal(s) * amp).astype(dt)
    W, R, B = w(D, 4 * H, I), w(D, 4 * H, H), w(D, 8 * H)
    if src.bool(0.2):
        B[:] = 0
    init = [src.weighted([(3, True), (2 if dt == np.float32 else 0, False)]) for _ in range(2)]
    P = {"direction": mode, "hidden_size": np.int32(H)}
    consts = {1: W, 2: R, 3: B} if src.bool(0.7) else {}
    th = src.choice([None, 1, 2, 4])
    none = np.zeros(src.choice([(0,), (1,), (1, 1)]), np.float32)
    desc, nt, labels = f"LSTM {mode} {np.dtype(dt).name} in {I} hidden {H} initial {init} threads {th}", False, [mode] + [f"no initial {n}" for n, k in zip("hc", init) if not k]
    with env.session("LSTM", 6, P, consts, threads=th) as s:
        for _ in range(src.weighted([(4, 1), (2, 2), (1, 3)])):
            L, N = src.weighted([(4, 1), (8, src.int(1, 6)), (2, src.int(1, 20)), (1, 0)]), src.int(1, 4)
            x = w(L, N, I)
            h0, c0 = (w(D, N, H) if k else none for k in init)
            what = f"{desc} length {L} batch {N}"
            xs = [x, W, R, B, h0, c0]
            got = s(*[v for i, v in enumerate(xs) if i not in consts])
            if len(got) != 3:
                raise Violation(f"{what}: {len(got)} fields, expected 3")
            z = np.zeros((D, N, H))
            a, b = (v if k else z for v, k in zip((h0, c0), init))
            out = [ref(x, W[d], R[d], B[d], a[d], b[d], mode == "reverse" or d == 1) for d in range(D)]
            want = [np.stack([o[0] for o in out], 1), np.stack([o[1] for o in out]), np.stack([o[2] for o in out])]
            tol = (1e-5 if dt == np.float32 else 2e-6) * (1 + amp) * (1 + I + H) * np.sqrt(L)
            for k, (f, v) in enumerate(zip(got, want)):
                ops.check(f, v.astype(dt), tol, tol, f"{what} {['y', 'y_h', 'y_c'][k]}")
            nt |= L > 1 or any(init)
            if src.bool(0.1):
                bad = list(xs)
                k = src.choice(["hidden", "inputs", "directions", "bias"])
                if k == "hidden":
                    bad[0], bad[4], bad[5] = w(1, 1, I), w(D, 1, H + 1), w(D, 1, H + 1)
                elif k == "inputs":
                    bad[0] = w(1, 1, I + 1)
                elif k == "directions":
                    bad[0], bad[4] = w(1, 1, I), w(D, 2, 1, H)
                elif consts:
                    bad[0] = w(2, I)
                else:
                    bad[0], bad[3] = w(1, N, I), w(D, 8 * H - 1)
                try:
                    r = s(*[v for i, v in enumerate(bad) if i not in consts])
                    raise Violation(f"{what}: {k} that do not fit {[v.shape for v in bad]} gave {r!r}"[:400])
                except ApiError:
                    labels.append("refused " + k)
            desc += f" [{L},{N}]"
    return {"desc": desc, "nt": bool(nt), "labels": labels}


TARGETS = {"lstm": t_lstm}
