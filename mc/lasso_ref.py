"""Reference for the weighted Lasso of the fitting step (plain Python, written from its documented definition).

minimise  1/(2 sum w) * sum_i w_i (y_i - b - sum_j x_ij c_j)^2  +  alpha * sum_j s_j |c_j|
with s_j = 1, or, with normalisation, s_j = the unweighted L2 norm of feature j about its weighted mean (1 when constant).
"""
import math


def penalties(x, w, normalize):
    n, p = len(x), len(x[0]) if x else 0
    W = math.fsum(w)
    mean = [math.fsum(w[i] * x[i][j] for i in range(n)) / W for j in range(p)]
    if not normalize:
        return [1.0] * p, mean
    s = []
    for j in range(p):
        v = math.sqrt(math.fsum((x[i][j] - mean[j]) ** 2 for i in range(n)))
        s.append(v if v > 1e-12 else 1.0)
    return s, mean


def objective(x, y, w, alpha, normalize, c, b):
    s, _ = penalties(x, w, normalize)
    W = math.fsum(w)
    return (math.fsum(wi * (yi - b - math.fsum(a * q for a, q in zip(xi, c))) ** 2 for xi, yi, wi in zip(x, y, w)) / (2 * W)
            + alpha * math.fsum(sj * abs(cj) for sj, cj in zip(s, c)))


def solve(x, y, w=None, alpha=0.1, normalize=True, sweeps=20000):
    """coordinate descent to machine precision; returns (c, b, objective)"""
    n = len(x)
    p = len(x[0])
    w = [1.0] * n if w is None else list(w)
    W = math.fsum(w)
    s, xm = penalties(x, w, normalize)
    ym = math.fsum(a * b for a, b in zip(w, y)) / W
    xc = [[x[i][j] - xm[j] for i in range(n)] for j in range(p)]
    q = [math.fsum(w[i] * xc[j][i] ** 2 for i in range(n)) / W for j in range(p)]
    c = [0.0] * p
    r = [y[i] - ym for i in range(n)]
    for _ in range(sweeps):
        move = 0.0
        for j in range(p):
            if q[j] <= 1e-14:
                continue
            g = math.fsum(w[i] * xc[j][i] * r[i] for i in range(n)) / W + q[j] * c[j]
            t = alpha * s[j]
            new = (g - t) / q[j] if g > t else (g + t) / q[j] if g < -t else 0.0
            d = new - c[j]
            if d:
                for i in range(n):
                    r[i] -= d * xc[j][i]
                c[j] = new
                move = max(move, abs(d) * math.sqrt(q[j]))
        if move < 1e-13 * (1 + math.sqrt(math.fsum(v * v for v in y))):
            break
    b = ym - math.fsum(a * m for a, m in zip(c, xm))
    return c, b, objective(x, y, w, alpha, normalize, c, b)


def scale(y, w=None):
    n = len(y)
    w = [1.0] * n if w is None else w
    W = math.fsum(w)
    m = math.fsum(a * b for a, b in zip(w, y)) / W
    return math.fsum(a * (b - m) ** 2 for a, b in zip(w, y)) / W
