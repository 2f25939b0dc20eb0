"""Matrix arithmetic is exact, checks shapes, and leaves operands alone."""

import itertools
from fractions import Fraction

from mc import gen
from mc.engine import Domain, Violation, check, equal, raises
from mc.history import call_histories

PROPERTY = "P14"
ASSUMPTIONS = ["matrices have at least one row and one column",
               "entries are integers or exact fractions"]


def det(m):
    """Leibniz expansion."""
    n = len(m)
    total = 0
    for p in itertools.permutations(range(n)):
        sign = 1
        for i in range(n):
            for j in range(i):
                if p[j] > p[i]:
                    sign = -sign
        x = sign
        for i in range(n):
            x *= m[i][p[i]]
        total += x
    return total


def mul(a, b):
    return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def rows_of(M, nr, nc, what):
    """Read a matrix back through its indexing, and check its shape."""
    out = [[M[i, j] for j in range(nc)] for i in range(nr)]
    equal(out, [[M[i][j] for j in range(nc)] for i in range(nr)], what + ": the two index forms")
    for bad in ((nr, 0), (0, nc)):
        raises(IndexError, M.__getitem__, bad, what="%s has an entry %r beyond its %dx%d shape" % (what, bad, nr, nc))
    return out


def copy(rows):
    return [list(r) for r in rows]


def show(rows):
    w = max(len(str(x)) for r in rows for x in r)
    return "\n".join("[" + " ".join(str(x).rjust(w) for x in r) + "]" for r in rows)


def binary(case, t):
    from rosemary.algebra.matrices.matrices import Matrix, MatrixZZ
    ra, rb = [copy(x) for x in case]
    cls = MatrixZZ if len(ra) % 2 else Matrix
    A, B = t.call(cls, copy(ra)), t.call(cls, copy(rb))
    na, ma, nb, mb = len(ra), len(ra[0]), len(rb), len(rb[0])
    if (na, ma) == (nb, mb):
        S = t.call(lambda: A + B)
        equal(rows_of(S, na, ma, "sum"), [[x + y for x, y in zip(p, q)] for p, q in zip(ra, rb)], "sum")
        D = t.call(lambda: A - B)
        equal(rows_of(D, na, ma, "difference"), [[x - y for x, y in zip(p, q)] for p, q in zip(ra, rb)], "difference")
        S[0, 0] = 99
        D[0][0] = 98
    else:
        raises(ValueError, lambda: A + B, what="sum of different shapes")
        raises(ValueError, lambda: A - B, what="difference of different shapes")
    if ma == nb:
        P = t.call(lambda: A * B)
        equal(rows_of(P, na, mb, "product"), mul(ra, rb), "product")
        P[0, 0] = 97
    else:
        raises(ValueError, lambda: A * B, what="product of incompatible shapes")
    equal(rows_of(A, na, ma, "left operand"), ra, "the left operand")
    equal(rows_of(B, nb, mb, "right operand"), rb, "the right operand")
    t.outcome(case)


def unary(case, t):
    from rosemary.algebra.matrices.matrices import Matrix, MatrixZZ, MatrixQQ
    ra = copy(case)
    n, m = len(ra), len(ra[0])
    for cls in (Matrix, MatrixZZ, MatrixQQ):
        src = copy(ra)
        A = t.call(cls, src)
        check(isinstance(A, cls), "constructor type")
        equal(rows_of(t.call(lambda: -A), n, m, "negation"), [[-x for x in r] for r in ra], "negation")
        for c in (0, 1, -3):
            want = [[c * x for x in r] for r in ra]
            equal(rows_of(t.call(lambda: A * c), n, m, "scalar product"), want, "A * %d" % c)
            equal(rows_of(t.call(lambda: c * A), n, m, "scalar product"), want, "%d * A" % c)
        equal(repr(A), show(ra), "printed form")
        if n > 1:
            for i in range(n):
                B = t.call(A.delete_row, i)
                want = ra[:i] + ra[i + 1:]
                equal(rows_of(B, n - 1, m, "delete_row"), want, "delete_row(%d)" % i)
                B[0, 0] = 55
                equal(rows_of(A, n, m, "A"), ra, "the matrix after writing to a row-deleted copy")
        if m > 1:
            for j in range(m):
                B = t.call(A.delete_col, j)
                want = [r[:j] + r[j + 1:] for r in ra]
                equal(rows_of(B, n, m - 1, "delete_col"), want, "delete_col(%d)" % j)
                B[0, 0] = 55
        if n == m:
            for _ in range(2):
                d = t.call(A.determinant)
                equal(d, det(ra), "determinant of %r" % (ra,))
            t.outcome(d)
        else:
            raises(ValueError, A.determinant, what="determinant of a non-square matrix")
        equal(rows_of(A, n, m, "A"), ra, "the matrix after the operations")
        equal(src, ra, "the rows the matrix was made from")
        A[n - 1, m - 1] = 1234
        equal(A[n - 1][m - 1], 1234, "assignment")
        equal(src, ra, "the rows the matrix was made from, after an assignment")
        A[0] = [7] * m
        equal([A[0, j] for j in range(m)], [7] * m, "row assignment")
        Z = t.call(cls, n, m)
        equal(rows_of(Z, n, m, "zero matrix"), [[0] * m for _ in range(n)], "zero matrix")
        Z[0, 0] = 3
        equal(rows_of(Z, n, m, "zero matrix"), [[3 * (i == 0 == j) for j in range(m)] for i in range(n)],
              "zero matrix after one assignment")
        if n == m:
            equal(rows_of(t.call(cls, n), n, n, "zero matrix"), [[0] * n for _ in range(n)], "square zero matrix")


def determinants(case, t):
    from rosemary.algebra.matrices.matrices import Matrix, MatrixZZ, MatrixQQ
    rows = [list(r) for r in case]
    n = len(rows)
    frac = any(isinstance(x, list) or isinstance(x, tuple) for r in rows for x in r)
    if frac:
        rows = [[Fraction(*x) if isinstance(x, (list, tuple)) else x for x in r] for r in rows]
    M = (MatrixQQ if frac else MatrixZZ)(copy(rows))
    want = det(rows)
    for _ in range(2):
        got = t.call(M.determinant)
        equal(got, want, "determinant of %r" % (rows,))
    if not frac:
        check(isinstance(got, int), "determinant type %r", type(got))
    equal(rows_of(M, n, n, "M"), rows, "the matrix after its determinant")
    t.outcome(want)


def qdet(m):
    """Elimination over the rationals."""
    m = [[Fraction(x) for x in r] for r in m]
    n, d = len(m), Fraction(1)
    for k in range(n):
        p = next((i for i in range(k, n) if m[i][k]), None)
        if p is None:
            return 0
        if p != k:
            m[p], m[k], d = m[k], m[p], -d
        d *= m[k][k]
        for i in range(k + 1, n):
            f = m[i][k] / m[k][k]
            if f:
                for j in range(k, n):
                    m[i][j] -= f * m[k][j]
    return d


FILLS = {
    "small": lambda i, j, k: (i * i * 3 + j * 5 + i * j * k + k) % 7 - 3,
    "huge": lambda i, j, k: ((i * 7 + j * 11 + k) % 13 - 6) * 10**40 + (i * i + 3 * j * j + i * j + k) % 10 - 5,
    "wide": lambda i, j, k: (-1)**(i + j) * 2**(60 * ((i + 2 * j) % 4)) + (i * j + k) % 5,
    "repeated rows": lambda i, j, k: (i % 2 * 3 + j * j + k) % 5 - 1,
    "fractions": lambda i, j, k: Fraction((i * 5 + j * 3 + k) % 11 - 5, (i + j * 2 + k) % 4 + 1),
    "tall fractions": lambda i, j, k: Fraction(10**30 * ((i + j + k) % 5 - 2) + i * j + 1, 10**20 + (i * 3 + j) % 7),
    "sparse": lambda i, j, k: (i + 1) * (k + 2) if (i * 3 + j * 5 + k) % 4 == 0 else 0,
}


def larger(case, t):
    """Every operation on bigger matrices; both operands may be one object."""
    from rosemary.algebra.matrices.matrices import Matrix, MatrixZZ
    n, m, kind, k = case
    f = FILLS[kind]
    ra = [[f(i, j, k) for j in range(m)] for i in range(n)]
    rb = [[f(i, j, k + 3) for j in range(m)] for i in range(n)]
    rc = [[f(i, j, k + 1) for j in range(n)] for i in range(m)]
    cls = MatrixZZ if k % 2 else Matrix
    src = copy(ra)
    A, B, C = t.call(cls, src), t.call(cls, copy(rb)), t.call(cls, copy(rc))
    add = [[x + y for x, y in zip(p, q)] for p, q in zip(ra, rb)]
    equal(rows_of(t.call(lambda: A + B), n, m, "sum"), add, "sum")
    equal(rows_of(t.call(lambda: A + A), n, m, "sum"), [[2 * x for x in r] for r in ra], "sum with itself")
    equal(rows_of(t.call(lambda: A - B), n, m, "difference"), [[x - y for x, y in zip(p, q)] for p, q in zip(ra, rb)], "difference")
    equal(rows_of(t.call(lambda: A - A), n, m, "difference"), [[0] * m for _ in range(n)], "difference from itself")
    AC, CA = t.call(lambda: A * C), t.call(lambda: C * A)
    equal(rows_of(AC, n, n, "product"), mul(ra, rc), "product")
    equal(rows_of(CA, m, m, "product"), mul(rc, ra), "product")
    equal(rows_of(t.call(lambda: AC * AC), n, n, "square"), mul(mul(ra, rc), mul(ra, rc)), "square of the product")
    if n == m:
        equal(rows_of(t.call(lambda: A * A), n, n, "square"), mul(ra, ra), "square")
        d = t.call(A.determinant)
        equal(d, qdet(ra), "determinant of %r" % (ra,))
        equal(t.call(AC.determinant), qdet(ra) * qdet(rc), "determinant of a product")
    for c in (-1, 10**25, Fraction(1, 3)):
        equal(rows_of(t.call(lambda: A * c), n, m, "scalar product"), [[x * c for x in r] for r in ra], "A * %r" % c)
    equal(repr(A), show(ra), "printed form")
    for i in range(n) if n > 1 else ():
        R = t.call(A.delete_row, i)
        for j in range(m):
            for r in range(n - 1):
                R[r, j] = 77
    for j in range(m) if m > 1 else ():
        R = t.call(A.delete_col, j)
        equal(rows_of(R, n, m - 1, "delete_col"), [r[:j] + r[j + 1:] for r in ra], "delete_col(%d)" % j)
    for i in range(n) if n > 1 else ():
        equal(rows_of(t.call(A.delete_row, i), n - 1, m, "delete_row"), ra[:i] + ra[i + 1:], "delete_row(%d)" % i)
    equal(rows_of(A, n, m, "A"), ra, "the matrix after the operations")
    equal(rows_of(B, n, m, "B"), rb, "the second matrix after the operations")
    Z = t.call(cls, n, m)
    for i in range(n):
        for j in range(m):
            Z[i, j] = A[i, j] = 1000 * i + j
    want = [[1000 * i + j for j in range(m)] for i in range(n)]
    equal(rows_of(Z, n, m, "zero matrix"), want, "a zero matrix, filled entry by entry")
    equal(rows_of(A, n, m, "A"), want, "a matrix, filled entry by entry")
    equal(src, ra, "the rows the matrix was made from")
    t.outcome(case)


def structured(case, t):
    """Larger determinants with known structure: row-permuted triangular matrices, and products."""
    from rosemary.algebra.matrices.matrices import MatrixZZ
    n, k, kind = case
    diag = [((i * 7 + k) % 11) - 5 or 3 for i in range(n)]
    low = [[diag[i] if i == j else ((i * 5 + j * 3 + k) % 7 - 3 if j < i else 0) for j in range(n)] for i in range(n)]
    d = 1
    for x in diag:
        d *= x
    if kind == "product":
        b = [[(1 if i == j else (i * 3 + j + k) % 5 - 2 if j > i else 0) for j in range(n)] for i in range(n)]
        rows = mul(low, b)
    else:
        # rotate the rows by k: sign (-1)^((n-1)k)
        r = k % n
        rows = low[r:] + low[:r]
        if ((n - 1) * r) % 2:
            d = -d
        if kind == "zero":
            rows = rows[:-1] + [rows[0]]
            d = 0
    M = MatrixZZ(copy(rows))
    equal(t.call(M.determinant), d, "determinant of a structured %dx%d matrix" % (n, n))
    equal(rows_of(M, n, n, "M"), rows, "the matrix after its determinant")
    t.outcome((n, d))


LEVELS = ("thorough", "deep")


def domains(tier):
    big = tier != "quick"
    deep = tier == "deep"

    def shaped(r, c, vals):
        for xs in itertools.product(vals, repeat=r * c):
            yield tuple(tuple(xs[i * c:(i + 1) * c]) for i in range(r))

    def pats(r, c):
        yield tuple(tuple((i * 3 + j * 5 + 1) % 7 - 3 for j in range(c)) for i in range(r))
        yield tuple(tuple((i + 1) * (j + 2) - 4 for j in range(c)) for i in range(r))

    def pairs():
        shapes = [(r, c) for r in (1, 2, 3, 4) for c in (1, 2, 3, 4)]
        for s in shapes:
            for u in shapes:
                for a in pats(*s):
                    for b in pats(*u):
                        yield (a, b)
        m2 = list(shaped(2, 2, (-1, 0, 2)))
        for a in m2:
            for b in m2:
                yield (a, b)
        for a in shaped(2, 1, (-1, 0, 2)):
            for b in shaped(1, 3, (-1, 0, 2)):
                yield (a, b)
                yield (b, a)

    def singles():
        for r, c in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1)):
            yield from shaped(r, c, (-2, 0, 1, 15))
        for r in (1, 2, 3, 4, 5):
            for c in (1, 2, 3, 4, 5):
                yield from pats(r, c)

    def dets():
        yield from shaped(1, 1, (-3, 0, 2))
        yield from shaped(2, 2, (-2, -1, 0, 1, 3))
        yield from shaped(3, 3, (-1, 0, 2))
        if big:
            yield from shaped(4, 4, (0, 1))
            yield from shaped(3, 3, (-2, -1, 0, 1, 3) if deep else (-2, 0, 1, 3))
        else:
            for m in shaped(4, 4, (0, 1)):
                if m[0] <= m[1]:
                    yield m
        if deep:
            yield from (m for m in shaped(4, 4, (-1, 0, 1)) if m[0] in ((0, 0, 0, 1), (0, 0, 1, -1), (0, 1, 0, 0), (1, 0, -1, 1)))
        F = ((1, 2), (-1, 3), 0, 2)
        yield from shaped(2, 2, F)
        for m in shaped(3, 3, ((1, 2), 0, (-2, 3))):
            if big or sum(x == 0 for r in m for x in r) <= 3:
                yield m

    def calls():
        from rosemary.algebra.matrices.matrices import MatrixZZ as M
        A, B = [[0, 2], [3, 4]], [[1, -1], [5, 2]]
        C = [[0, 1, 2], [0, 3, 4], [5, 6, 7]]
        return {
            "add": (lambda a, b: a + b, lambda: (M(copy(A)), M(copy(B)))),
            "sub": (lambda a, b: a - b, lambda: (M(copy(A)), M(copy(B)))),
            "mul": (lambda a, b: a * b, lambda: (M(copy(A)), M(copy(B)))),
            "scale": (lambda a: 3 * a, lambda: (M(copy(A)),)),
            "neg": (lambda a: -a, lambda: (M(copy(A)),)),
            "det": (lambda a: a.determinant(), lambda: (M(copy(C)),)),
            "row": (lambda a: a.delete_row(0), lambda: (M(copy(C)),)),
            "col": (lambda a: a.delete_col(0), lambda: (M(copy(C)),)),
            "zero": (M, lambda: (2, 3)),
            "rows": (M, lambda: (copy(A),)),
        }

    return [
        Domain("pairs", pairs, binary, bound="every pair of shapes up to 4x4 (two fillings each); all pairs of 2x2 matrices over {-1,0,2}; 2x1 by 1x3"),
        Domain("single", singles, unary, bound="all matrices of <= 4 entries over {-2,0,1,15}; two fillings of every shape up to 5x5"),
        Domain("determinants", dets, determinants,
               bound="all 2x2 over 5 values, 3x3 over %s values, 4x4 over {0,1}%s, 2x2 and 3x3 over fractions" % ("5" if deep else "3", ", over {-1,0,1} with four first rows" if deep else "" if big else " with first row <= second")),
        Domain("structured", [(n, k, kind) for n in range(2, 15 if deep else 13 if big else 10) for k in range(12) for kind in ("rotated", "product", "zero")],
               structured, bound="structured matrices up to %d rows" % (14 if deep else 12 if big else 9)),
        Domain("larger", lambda: [(n, m, kind, k) for kind in FILLS for k in range(16 if deep else 4 if big else 1) for n in range(1, 13 if big else 11)
                                  for m in range(1, 13 if big else 11) if big or n == m or (n + m) % 3 == 1], larger, timeout=120,
               bound="%s shapes up to %d rows and columns, seven fillings with entries up to 2^180 and fractions, operands aliased"
                     % (("all", 12) if big else ("a third of all and all square", 10))),
        call_histories("call-histories", calls(), depth=3 if big else 2),
    ]
