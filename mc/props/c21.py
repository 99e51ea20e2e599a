"""C21: a fit returns the weighted Lasso optimum and reports its own errors.

small    - every design matrix over {-1,0,1} (and a {0,2} one) up to a size x targets x weights x penalties x normalisation;
scales   - features and targets of very different magnitude and offset;
corr     - designs that are correlation matrices of a real cluster expansion;
perm     - every row permutation, row duplication against weight, weight scaling, affine changes of the target;
refuse   - mismatching cluster lists are refused and leave every file as it was;
history  - the files of successive fits hold what each fit returned.
Oracle: coordinate descent to machine precision on the documented objective (mc/lasso_ref.py).
"""
import itertools
import json
import math
import os

import numpy as np

from kmcpy.models import LocalClusterExpansion
from kmcpy.models.fitting.fitter import LCEFitter
from kmcpy.models.parameters import LCEModelParameters, LCEModelParamHistory
from mc import lasso_ref

MAXG = MAXL = 0.0
FILES = dict(corr_fname="c.txt", ekra_fname="e.txt", weight_fname="w.txt", keci_fname="k.txt", lce_params_fname="p.json", lce_params_history_fname=None)


def write(x, y, w):
    with open("c.txt", "w") as f:
        f.write("".join(" ".join(repr(float(v)) for v in r) + "\n" for r in x))
    with open("e.txt", "w") as f:
        f.write("".join(repr(float(v)) + "\n" for v in y))
    with open("w.txt", "w") as f:
        f.write("".join(repr(float(v)) + "\n" for v in w))


def run(x, y, w, alpha, norm, **kw):
    write(x, y, w)
    return LCEFitter().fit(alpha=alpha, normalize=norm, **{**FILES, **kw})


def gap(y, w=None):
    """solver tolerance on the objective: documented relative duality gap, with slack"""
    return 3e-4 * lasso_ref.scale(y, w) + 1e-9


def rms(a):
    a = list(a)
    return math.sqrt(math.fsum(v * v for v in a) / len(a))


def judge(chk, x, y, w, alpha, norm, loo=True, files=True):
    kw = dict(x=x, y=y, w=w, alpha=alpha, normalize=norm)
    params, pred, true = run(x, y, w, alpha, norm)
    c = [float(v) for v in params.keci]
    b = float(params.empty_cluster)
    chk.expect(len(c) == len(x[0]), "one coefficient per feature", got=c, **kw)
    _, _, best = lasso_ref.solve(x, y, w, alpha, norm)
    got = lasso_ref.objective(x, y, w, alpha, norm, c, b)
    global MAXG
    MAXG = max(MAXG, (got - best) / (lasso_ref.scale(y, w) + 1e-12))
    chk.expect(got <= best + gap(y, w), "the fit is not the weighted Lasso optimum", got=got, best=best, coefficients=c, constant=b, **kw)
    # the constant is free of penalty, so it must balance the weighted residuals exactly
    res = [yi - b - math.fsum(q * v for q, v in zip(xi, c)) for xi, yi in zip(x, y)]
    W = math.fsum(w)
    chk.expect(abs(math.fsum(a * r for a, r in zip(w, res)) / W) <= 1e-8 * (1 + max(map(abs, y))), "the constant does not balance the residuals", constant=b, residuals=res, **kw)
    for i in range(len(y)):
        chk.expect(abs(float(pred[i]) - (y[i] - res[i])) <= 1e-8 * (1 + abs(y[i])), "prediction of the returned coefficients", row=i, got=float(pred[i]), want=y[i] - res[i], **kw)
    chk.expect([float(v) for v in true] == [float(v) for v in y], "true values", **kw)
    chk.expect(abs(params.rmse - rms(res)) <= 1e-8 * (1 + rms(res)), "reported root-mean-square error", got=float(params.rmse), want=rms(res), **kw)
    chk.expect(float(params.alpha) == alpha and bool(params.normalize) == norm, "reported settings", **kw)
    chk.expect([float(v) for v in params.weight] == [float(v) for v in w], "reported weights", got=params.weight, **kw)
    if loo:
        errs = []
        unique = True
        for k in range(len(y)):
            xx = [r for i, r in enumerate(x) if i != k]
            yy = [v for i, v in enumerate(y) if i != k]
            cc, bb, _ = lasso_ref.solve(xx, yy, None, alpha, norm)
            unique = unique and well_posed(xx)
            errs.append(y[k] - bb - math.fsum(q * v for q, v in zip(x[k], cc)))
        if unique:
            want = rms(errs)
            # the solver tolerance acts on each left-out prediction
            slack = 0.02 * (max(map(abs, y)) - min(y) + 1e-9) + 1e-6
            global MAXL
            MAXL = max(MAXL, abs(float(params.loocv) - want) / (max(y) - min(y)))
            chk.expect(abs(float(params.loocv) - want) <= slack, "reported leave-one-out error", got=float(params.loocv), want=want, **kw)
    if files:
        with open("k.txt") as f:
            k = [float(l) for l in f if l.strip()]
        chk.expect(len(k) == len(c) and all(abs(p - q) <= 0.6e-8 for p, q in zip(k, c)), "coefficient file", got=k, want=c, **kw)
        back = LCEModelParameters.from_file("p.json")
        chk.expect([float(v) for v in back.keci] == c and float(back.empty_cluster) == b, "stored record", **kw)
        chk.expect(float(back.rmse) == float(params.rmse) and float(back.loocv) == float(params.loocv), "stored errors", **kw)
    return c, b, params


def well_posed(x):
    """centred design has full column rank: the optimum is unique"""
    a = np.array(x, dtype=float)
    a = a - a.mean(axis=0)
    a = a[:, np.abs(a).max(axis=0) > 1e-12] if a.shape[0] else a
    return a.shape[1] == 0 or (np.linalg.matrix_rank(a) == a.shape[1])


def designs(m, n, alphabet):
    """every m x n matrix over the alphabet, up to column permutation"""
    cols = list(itertools.product(alphabet, repeat=m))
    for c in itertools.combinations_with_replacement(cols, n):
        yield [[c[j][i] for j in range(n)] for i in range(m)]


def small(chk, spec):
    Y = {2: [(1.0, 3.0)], 3: [(1.0, 2.0, 4.5), (200.0, 260.0, 230.0)], 4: [(310.0, 250.0, 275.0, 290.0), (0.0, 0.0, 1.0, -1.0)], 5: [(1.0, 2.0, -3.0, 0.5, 9.0)]}
    Wt = {2: [(1.0, 1.0), (3.0, 0.5)], 3: [(1.0, 1.0, 1.0), (0.5, 2.0, 4.0)], 4: [(1.0,) * 4, (0.2, 1.0, 5.0, 1.0)], 5: [(1, 2, 3, 4, 5.0)]}
    k = 0
    for m, n, alphabet in spec:
        for x in designs(m, n, alphabet):
            for y, w, alpha, norm in itertools.product(Y[m], Wt[m], (0.01, 0.4), (True, False)):
                k += 1
                judge(chk, x, list(y), list(w), alpha, norm, loo=True, files=k % 7 == 0)
                chk.step()
                chk.outcome((m, n, norm, alpha))
            chk.state((m, n, str(x)))


def scales(chk, T):
    """features and targets of very different magnitude, alone and together"""
    base = [[1, 0, 2], [0, 1, 1], [2, 1, 0], [1, 2, 1], [0, 0, 1], [2, 2, 2]]
    y = [3.0, -1.0, 4.0, 1.5, 0.5, 2.0]
    S = (1e-4, 1e-2, 1.0, 50.0) + ((1e-6, 1e3) if T else ())
    for sc in itertools.product(S, repeat=2):
        for off, ys, alpha, norm, w in itertools.product((0.0, 0.5), (1.0, 100.0), (1e-3, 0.1), (True, False), ([1.0] * 6, [1, 2, 0.5, 1, 3, 1.0])):
            if not norm and (min(sc) < 1e-3 or max(sc) > 10 or off):
                continue
            x = [[r[0] * sc[0] + off, r[1] * sc[1] + off, r[2] + off] for r in base]
            judge(chk, x, [v * ys for v in y], list(w), alpha * ys, norm, loo=norm)
            chk.step()
            chk.state((sc, off, ys, alpha, norm, w[1]))


def corr(chk, T):
    from mc.props.c20 import cells
    for name, cell in cells():
        st = cell.states()
        x0 = [cell.corr[o] for o in st]
        for m, alpha, norm, wk in itertools.product((3, 5, 8, len(st)) if not T else range(2, min(len(st), 24) + 1), (0.02, 1.0, 30.0), (True, False), (0, 1, 2)):
            m = min(m, len(st))
            x = [x0[(5 * i + 1) % len(st)] if math.gcd(5, len(st)) == 1 else x0[i] for i in range(m)]
            y = [250.0 + 3 * sum(r) + 20 * math.sin(3.3 * i) for i, r in enumerate(x)]
            w = [1.0] * m if wk == 0 else [0.5 + (i % 3) for i in range(m)] if wk == 1 else [10.0 ** (i % 4 - 2) for i in range(m)]
            judge(chk, x, y, w, alpha, norm, loo=False)
            chk.step()
            chk.state((name, m, alpha, norm, wk))


def perm(chk, T):
    base = [[1, -1, 0], [0, 1, 1], [-1, 0.5, 1], [1, 1, -1], [0, -1, 0.5]]
    y = [210.0, 250.0, 231.0, 305.0, 188.0]
    w = [1.0, 0.5, 3.0, 2.0, 1.5]
    for m, norm, alpha in itertools.product((4, 5) if T else (4,), (True, False), (0.05, 2.0)):
        X, Yv, Wv = base[:m], y[:m], w[:m]
        c0, b0, _ = judge(chk, X, Yv, Wv, alpha, norm, loo=False)
        tol = 0.02 * (max(Yv) - min(Yv))

        def same(c, b, what, scale=1.0, shift=0.0):
            for r in X:
                p0 = (b0 + sum(a * q for a, q in zip(r, c0))) * scale + shift
                p1 = b + sum(a * q for a, q in zip(r, c))
                chk.expect(abs(p0 - p1) <= tol * abs(scale), what, got=p1, want=p0)
        for o in itertools.permutations(range(m)):
            c, b, _ = judge(chk, [X[i] for i in o], [Yv[i] for i in o], [Wv[i] for i in o], alpha, norm, loo=False, files=False)
            same(c, b, "row order changed the fit")
            chk.state((m, norm, alpha, o))
            chk.step()
        for f in (0.001, 0.5, 7.0, 1e4):
            c, b, _ = judge(chk, X, Yv, [v * f for v in Wv], alpha, norm, loo=False)
            same(c, b, "a common factor of the weights changed the fit")
        for s in (-1000.0, 55.5):
            c, b, _ = judge(chk, X, [v + s for v in Yv], Wv, alpha, norm, loo=False)
            same(c, b, "a constant added to all barriers", shift=s)
        for o in itertools.permutations(range(3)):
            c, b, _ = judge(chk, [[r[j] for j in o] for r in X], Yv, Wv, alpha, norm, loo=False)
            same([c[o.index(j)] for j in range(3)], b, "feature order changed the fit")
        if not norm:
            for k in range(m):  # a row listed twice is a row of double weight
                c, b, _ = judge(chk, X + [X[k]], Yv + [Yv[k]], Wv + [Wv[k]], alpha, norm, loo=False)
                c2, b2, _ = judge(chk, X, Yv, [v * (2 if i == k else 1) for i, v in enumerate(Wv)], alpha, norm, loo=False)
                for r in X:
                    chk.expect(abs(b + sum(a * q for a, q in zip(r, c)) - b2 - sum(a * q for a, q in zip(r, c2))) <= tol, "a repeated row is not a row of double weight")


def snapshot():
    out = {}
    for f in sorted(os.listdir(".")):
        if os.path.isfile(f) and f not in ("c.txt", "e.txt", "w.txt"):
            with open(f, "rb") as h:
                out[f] = h.read()
    return out


def refuse(chk):
    x = [[1, 0, 1], [0, 1, 1], [1, 1, 0], [-1, 0, 1]]
    y, w = [1.0, 2.0, 4.0, 3.0], [1.0] * 4
    opts = dict(lce_params_history_fname="h.json", fit_results_fname="r.json")
    run(x, y, w, 0.1, True, **opts)
    for n, norm in itertools.product((0, 1, 2, 4, 5), (True, False)):
        before = snapshot()
        chk.raises(lambda: run(x, y, w, 0.1, norm, orbit_fingerprints=["o%d" % i for i in range(n)], **opts), "a cluster list of the wrong length was accepted", exc=ValueError, n=n)
        chk.expect(snapshot() == before, "a refused fit changed result files", n=n)
        chk.step()
        chk.state(("fp", n, norm))
    for bad in ("rows", "weights"):
        write(x, y, w)
        if bad == "rows":
            write(x, y[:-1], w[:-1])
        else:
            write(x, y, w[:-1])
        before = snapshot()
        chk.raises(lambda: LCEFitter().fit(alpha=0.1, **{**FILES, **opts}), "inputs of different lengths were accepted", kind=bad)
        chk.expect(snapshot() == before, "a refused fit changed result files", kind=bad)
        chk.step()
    # the fingerprints and the hash given are the ones stored
    p, _, _ = run(x, y, w, 0.1, True, orbit_fingerprints=["a", "b", "c"], local_environment_hash="h" * 8)
    back = LCEModelParameters.from_file("p.json")
    chk.equal((back.orbit_fingerprints, back.local_environment_hash), (["a", "b", "c"], "h" * 8), "stored cluster list")
    from mc.props.c20 import cells, CUT
    for name, cell in cells():
        occs = cell.states()[:6]
        write([cell.corr[o] for o in occs], [200.0 + i for i in range(len(occs))], [1.0] * len(occs))
        p, _, _ = cell.model.fit(alpha=0.1, **FILES)
        chk.equal(list(p.orbit_fingerprints), list(cell.model.get_orbit_fingerprints()), "cluster list of the model")
        chk.equal(p.local_environment_hash, cell.model.local_environment_hash, "environment of the model")
        write([cell.corr[o][:-1] for o in occs], [200.0 + i for i in range(len(occs))], [1.0] * len(occs))
        if len(cell.corr[occs[0]]) > 2:
            before = snapshot()
            chk.raises(lambda: cell.model.fit(alpha=0.1, **FILES), "coefficients that do not match the model were accepted", exc=ValueError)
            chk.expect(snapshot() == before, "a refused fit changed result files")
        chk.step()


def history(chk, T):
    """all sequences of fits over two data sets and two history files, each returned record kept as returned"""
    D = [([[1, 0], [0, 1], [1, 1]], [1.0, 2.0, 4.0], [1.0, 2.0, 1.0]), ([[1], [-1], [0], [1]], [5.0, 2.0, 4.0, 6.0], [1.0] * 4)]
    depth = 4 if T else 3
    for n in range(1, depth + 1):
        for seq in itertools.product(itertools.product((0, 1), (0, 1)), repeat=n):
            for f in os.listdir("."):
                if f.startswith("hist"):
                    os.remove(f)
            want = {0: [], 1: []}
            for d, h in seq:
                p, _, _ = run(*D[d], 0.1, True, lce_params_history_fname="hist%d.json" % h)
                want[h].append(p)
            for h in (0, 1):
                got = LCEModelParamHistory.from_file("hist%d.json" % h).history if want[h] else []
                chk.expect(len(got) == len(want[h]), "records in the history", seq=seq)
                for a, b in zip(got, want[h]):
                    chk.expect([float(v) for v in a.keci] == [float(v) for v in b.keci] and float(a.empty_cluster) == float(b.empty_cluster)
                               and [float(v) for v in a.weight] == [float(v) for v in b.weight] and float(a.rmse) == float(b.rmse), "record of the history", seq=seq)
            chk.trace()
            chk.step(n)
            chk.state(seq)


def large(chk, T):
    """more rows and features than the exhaustive sets"""
    for m, n, loo in ((36, 9, True), (130, 5, False), (14, 30, False)) + (((150, 6, True), (40, 60, False)) if T else ()):
        x = [[float((7 * i * (j + 1) + 3 * j + i * i) % 5 - 2) for j in range(n)] for i in range(m)]
        y = [240.0 + 6 * r[0] - 4 * r[-1] + 2.5 * r[1] * r[0] + 15 * math.sin(2.1 * i) for i, r in enumerate(x)]
        for w, alpha, norm in itertools.product(([1.0] * m, [0.5 + (i * 3 % 7) for i in range(m)]), (0.05, 1.5), (True, False)):
            judge(chk, x, y, list(w), alpha, norm, loo=loo and (T or alpha > 1 or norm))
            chk.step()
            chk.state((m, n, alpha, norm, w[1]))


def main(chk):
    T = chk.thorough
    tern = (-1, 0, 1)
    spec = [(2, 1, tern), (3, 1, tern), (2, 2, tern), (3, 2, tern), (4, 1, tern), (4, 2, (-1, 1)), (3, 3, (0, 2))] + ([(4, 3, (-1, 1)), (4, 2, tern), (5, 2, (-1, 1)), (5, 1, tern)] if T else [])
    chk.bounds = dict(designs=["%d x %d over %s" % s for s in spec], targets_weights="1-2 each per size", penalties=(0.01, 0.4), permutations="all row orders of 4 (5) rows, all feature orders")
    chk.assumptions = ["the objective is compared with the optimum to the relative duality gap the solver is asked for (1e-4, three times slack)",
                       "leave-one-out errors are compared only when every reduced problem has a unique optimum"]
    with chk.scenario("small") as on:
        if on:
            small(chk, spec)
    with chk.scenario("scales") as on:
        if on:
            scales(chk, T)
    with chk.scenario("corr") as on:
        if on:
            corr(chk, T)
    with chk.scenario("large") as on:
        if on:
            large(chk, T)
    with chk.scenario("perm") as on:
        if on:
            perm(chk, T)
    with chk.scenario("refuse") as on:
        if on:
            refuse(chk)
    with chk.scenario("history") as on:
        if on:
            history(chk, T)
    chk.sample(dict(largest_relative_objective_gap=MAXG, largest_relative_loo_deviation=MAXL))
