from itertools import combinations
from core import Check, VERIF

TET = [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)]
TRI = [(0, 1), (0, 2), (1, 2)]


def det(m):
    if len(m) == 1:
        return m[0][0]
    return sum((-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m)) if m[0][j])


def bary(l, n, edges):
    p = [0] * n
    for c in ((l, l) if l < n else edges[l - n]):
        p[c] += 1
    return p


def parity(s):
    s = list(s)
    r = 1
    for i in range(len(s)):
        for j in range(i):
            if s[j] > s[i]:
                r = -r
    return r


def subdivision(n, edges, split, new, prefer):
    """new simplices (lists of labels) must partition the simplex with n corners whose edges `split` have a midpoint; on a
    face with exactly two split edges the diagonal leaves the midpoint prefer[face][corner] names"""
    lab = set(range(n)) | {n + e for e in split}
    names = lambda s: '-'.join(str(l) if l < n else '%d%d' % edges[l - n] for l in s)
    vol = 0
    facets = {}
    for s in new:
        if None in s or not set(s) <= lab:
            return 'a new element uses a vertex that is neither a corner nor the midpoint of a flagged edge'
        d = det([bary(l, n, edges) for l in s])
        if d == 0:
            return 'new element %s is degenerate' % names(s)
        vol += abs(d)
        s = list(s)
        if d < 0:
            s[0], s[1] = s[1], s[0]
        for i in range(n):
            f = s[:i] + s[i + 1:]
            facets.setdefault(tuple(sorted(f)), []).append((-1) ** i * parity(f))
    if vol != 2 ** n:
        return 'new elements have %s of the volume of the refined one' % ('%d/%d' % (vol, 2 ** n))
    outer = set()
    for f, o in facets.items():
        b = [bary(l, n, edges) for l in f]
        if any(all(p[k] == 0 for p in b) for k in range(n)):
            if len(o) != 1:
                return 'new elements overlap at %s' % names(f)
            outer.add(f)
        elif len(o) != 2 or o[0] + o[1]:
            return 'new elements do not meet at %s' % names(f)
    want = set()
    for c in combinations(range(n), n - 1):
        if n == 3:
            e = edges.index(c)
            want |= {(c[0], n + e), (c[1], n + e)} if e in split else {c}
            continue
        e = [edges.index(x) for x in combinations(c, 2)]
        sp = [x for x in e if x in split]
        mid = lambda a, b: n + edges.index((min(a, b), max(a, b)))
        T = lambda *x: want.add(tuple(sorted(x)))
        if len(sp) == 0:
            T(*c)
        elif len(sp) == 1:
            a, b = edges[sp[0]]
            d = (set(c) - {a, b}).pop()
            T(a, n + sp[0], d), T(b, n + sp[0], d)
        elif len(sp) == 3:
            for a in c:
                b, d = sorted(set(c) - {a})
                T(a, mid(a, b), mid(a, d))
            T(*(n + x for x in sp))
        else:
            a = (set(edges[sp[0]]) & set(edges[sp[1]])).pop()
            m = prefer(c, a)
            if m is None:
                return None
            b = (set(edges[m - n]) - {a}).pop()          # midpoint m on a-b, connected to d
            d = (set(c) - {a, b}).pop()
            T(a, mid(a, b), mid(a, d)), T(m, mid(a, d), d), T(m, b, d)
    if want != outer:
        x = sorted(outer - want) or sorted(want - outer)
        return 'boundary triangle %s does not match the subdivision of the face that its other cell uses' % names(x[0])
    return None


def judge(name, d):
    kind, mask = name.split('_')
    mask = int(mask, 8)
    n, edges = (4, TET) if kind == 'tet' else (3, TRI)
    split = [e for e in range(len(edges)) if mask >> e & 1]
    args = sorted({k[0] for k in d})
    o, q = args[0], (args[1] if len(args) > 1 else None)
    w = 8
    num = d.get((o, 0))
    if num is None:
        return 'number of new elements is not determined'
    new = [[None if d.get((o, w * (1 + 4 * i + k))) is None else int(d[(o, w * (1 + 4 * i + k))]) for k in range(n)] for i in range(int(num))]
    f4 = [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)]

    def prefer(c, a):
        i = f4.index(c)
        k = c.index(a)
        b, e = c[(k + 1) % 3], c[(k + 2) % 3]
        v = d.get((q, w * (3 * i + k)))
        return None if v not in (1, 2) else n + edges.index(tuple(sorted((a, b if v == 1 else e))))
    return subdivision(n, edges, split, new, prefer)


def judge2(name, d):
    """two triangles 0 1 2 and 1 2 3; new cells carry the labels of corners (0..3) and midpoints (4..8, edges 01 02 12 13 23),
    and, with segments, the segments they are in"""
    mask = int(name.split('_')[1], 8)
    E = [(0, 1), (0, 2), (1, 2), (1, 3), (2, 3)]
    o = sorted({k[0] for k in d})[0]
    num = d.get((o, 0))
    if num is None:
        return 'number of new elements is not determined'
    new = [[None if d.get((o, 8 * (1 + 4 * i + k))) is None else int(d[(o, 8 * (1 + 4 * i + k))]) for k in range(3)] for i in range(int(num))]
    seg = [d.get((o, 8 * (4 + 4 * i))) for i in range(int(num))]
    done = 0
    for t, c in enumerate(((0, 1, 2), (1, 2, 3))):
        e = [E.index(x) for x in combinations(c, 2)]
        tr = {c[i]: i for i in range(3)}
        tr.update({4 + e[i]: 3 + i for i in range(3)})
        mine = [i for i, s in enumerate(new) if all(l in tr for l in s)]
        done += len(mine)
        m = subdivision(3, TRI, [i for i in range(3) if mask >> e[i] & 1], [[tr[l] for l in new[i]] for i in mine], None)
        if m:
            return 'cell %d: %s' % (t, m)
        if name.startswith('seg') and any(seg[i] != 1 + 2 * t for i in mine):
            return 'a part of cell %d is not in exactly the segments of that cell' % t
    if done != len(new):
        return 'a new element lies in none of the cells'
    return None


def main():
    ck = Check('C16', rule='every outcome of the compiled refinement of one cell, over all sets of flagged edges and all orders of the edge lengths, is checked to be a conforming partition of the cell')
    ck.equiv('refine_el.cpp', judge=judge, split=True, extra=['-mllvm', '-inline-cold-callsite-threshold=1000000'])
    m = ['-I' + VERIF + '/probes/model']
    small, large = ['VG_CAP=12', 'VG_MAPCAP=12'], ['VG_CAP=9', 'VG_MAPCAP=16']
    ck.equiv('refine.cpp', judge=judge2, split=True, extra=m, defs=small, only=lambda n: 'segments' in n)
    ck.equiv('refine.cpp', judge=judge2, split=True, extra=m, defs=large, only=lambda n: 'segments' not in n)
    ck.equiv('refine_eq.cpp', split=True, opts={'ties': 'free'}, extra=m, defs=large)
    return ck.finish(min_ok=1)
