"""Independent reference for local cluster expansions (written from the documented definition).

Clusters of 1..4 sites with every inter-site distance below the cutoff of their size, grouped into classes of
congruent labelled clusters (first-appearance order); one feature per class and per choice of site basis
functions; feature value = sum over the class of the product of site basis values.
"""
import itertools
import math


def cheb(q):
    """site basis table [state][k] : T_1..T_{q-1} on q equally spaced points of [-1, 1]"""
    if q < 2:
        return [[1.0]] * q
    out = []
    for s in range(q):
        x = -1.0 + 2.0 * s / (q - 1)
        t = [1.0, x]
        while len(t) < q:
            t.append(2 * x * t[-1] - t[-2])
        out.append(t[1:q])
    return out


class LceRef:
    def __init__(self, labels, coords, counts, cut, basis="chebyshev", tol=1e-3):
        n = len(labels)
        self.counts = list(counts)
        d = [[math.dist(coords[i], coords[j]) for j in range(n)] for i in range(n)]
        self.dist = d
        cuts = [math.inf] + list(cut)

        def same(a, b):
            if sorted(labels[i] for i in a) != sorted(labels[i] for i in b):
                return False
            for p in itertools.permutations(b):
                if all(labels[x] == labels[y] for x, y in zip(a, p)) and all(
                        abs(d[a[i]][a[j]] - d[p[i]][p[j]]) <= tol + tol * abs(d[p[i]][p[j]])
                        for i in range(len(a)) for j in range(i)):
                    return True
            return False
        self.orbits = []
        for size in (1, 2, 3, 4):
            start = len(self.orbits)
            for c in itertools.combinations(range(n), size):
                if size > 1 and not max(d[i][j] for i in c for j in c) < cuts[size - 1]:
                    continue
                for o in self.orbits[start:]:
                    if same(o[0], c):
                        o.append(c)
                        break
                else:
                    self.orbits.append([c])
        self.basis = basis
        if basis == "chebyshev":
            self.val = [cheb(q) for q in self.counts]
        else:  # occupation basis: 1 for the first (template) species, 0 otherwise
            self.val = [[[1.0]] + [[0.0]] * (q - 1) for q in self.counts]
        self.features = []
        for o in self.orbits:
            nb = [min(len(self.val[c[k]][0]) for c in o) for k in range(len(o[0]))]
            for dec in itertools.product(*map(range, nb)):
                self.features.append((o, dec))

    def corr(self, occ):
        out = []
        for o, dec in self.features:
            s = 0.0
            for c in o:
                p = 1.0
                for site, k in zip(c, dec):
                    p *= self.val[site][occ[site]][k]
                s += p
            out.append(s)
        return out

    def energy(self, occ, keci, empty):
        return math.fsum(a * b for a, b in zip(self.corr(occ), keci)) + empty


def of_model(m, counts, cut, basis="chebyshev"):
    """reference for a built model: site labels and positions in the model's own local order"""
    st = m.local_env_structure
    return LceRef([x.species_string for x in st], [list(x.coords) for x in st], counts, cut, basis)
