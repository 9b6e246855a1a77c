"""Guarded value numbering over LLVM IR.

A forward dataflow analysis over the (acyclic, optimised) control flow graph of a
function.  Abstract domain: for every SSA value, every memory cell and the sequence of
externally visible calls, a decision diagram whose inner nodes are three-valued sign
predicates (sign of a term: <0, =0, >0) and whose terminals are value numbers.  Value
numbers are fingerprints in the sense of random interpretation (Gulwani/Necula): the
term is a polynomial/rational expression over atoms (parameters, loads, results of pure
calls) and its fingerprint is its value in GF(p^2), p a 61 bit prime, under a few fixed pseudo
random interpretations of the atoms; two terms with equal fingerprints are equal as
algebraic expressions up to an error probability below 2^-100.

Nothing of the analysed program is executed, no path is handed to a solver; branches are
never decided, both sides flow into the merge point guarded by the predicate.
"""
import decimal, operator
import hashlib, os
from fractions import Fraction

P = 2305842885757044479      # prime, 3 mod 4 and away from powers of two; 2, 3, 5 ... 43 are squares, so |c x| = c |x| and sqrt(c^2 x) = c sqrt(x) hold for ordinary constants
DBL_MAX = Fraction(1.7976931348623157e308)
SALT = os.environ.get('VERIF_SEED', '1')
M = 3                       # interpretations per fingerprint


class Unsupported(Exception):
    pass


# --- GF(p^2) = GF(p)[i]; elements are ints (GF(p)) or pairs (a,b) -------------------
def _n(a, b):
    return a if b == 0 else (a, b)


def gadd(x, y):
    if type(x) is int and type(y) is int:
        return (x + y) % P
    xa, xb = x if type(x) is tuple else (x, 0)
    ya, yb = y if type(y) is tuple else (y, 0)
    return _n((xa + ya) % P, (xb + yb) % P)


def gneg(x):
    if type(x) is int:
        return (-x) % P
    return (-x[0]) % P, (-x[1]) % P


def gmul(x, y):
    if type(x) is int and type(y) is int:
        return (x * y) % P
    xa, xb = x if type(x) is tuple else (x, 0)
    ya, yb = y if type(y) is tuple else (y, 0)
    return _n((xa * ya - xb * yb) % P, (xa * yb + xb * ya) % P)


decimal.getcontext().prec = 60
_DEPS = decimal.Decimal(10) ** -25


def _dec(c):
    return decimal.Decimal(c.numerator) / decimal.Decimal(c.denominator)


def _dsqrt(x):
    return x.sqrt()


def ginv(x):
    if type(x) is int:
        return pow(x, P - 2, P)
    n = (x[0] * x[0] + x[1] * x[1]) % P
    i = pow(n, P - 2, P)
    return _n(x[0] * i % P, (-x[1]) * i % P)


def gsqrt(x):
    """principal root; None if it is outside GF(p^2)'s easily handled part"""
    if type(x) is not int:
        return None
    if x == 0:
        return 0
    r = pow(x, (P + 1) // 4, P)
    if r * r % P == x:
        return r
    r = pow(P - x, (P + 1) // 4, P)
    return (0, r)


def _hash(*parts):
    h = hashlib.blake2b(repr((SALT, parts)).encode(), digest_size=16).digest()
    return int.from_bytes(h, 'big') % P


def ratrec(c, bound=1 << 28):
    """rational reconstruction of c mod P with small numerator and denominator"""
    if type(c) is not int:
        return None
    r0, s0, r1, s1 = P, 0, c % P, 1
    while r1 > bound:
        q = r0 // r1
        r0, r1 = r1, r0 - q * r1
        s0, s1 = s1, s0 - q * s1
    if s1 == 0 or abs(s1) > bound:
        return None
    return Fraction(r1, s1)


_SMALL = {}


def snap(fr):
    """A double that is the nearest double to a small rational denotes that rational."""
    if fr in _SMALL:
        return _SMALL[fr]
    r = fr
    d = fr.denominator
    if d > 4096:
        lim = fr.limit_denominator(2000)
        if lim != 0 and abs(lim.numerator) < 10**6 and float(lim) == float(fr):
            r = lim
        else:
            # decimal constants such as 1e-6
            for k in range(1, 20):
                t = Fraction(round(fr * 10**k), 10**k)
                if t and abs(t.numerator) < 10**6 and float(t) == float(fr):
                    r = t
                    break
    _SMALL[fr] = r
    return r


UFCONST = {'acos': {1: 0}, 'asin': {0: 0}, 'atan': {0: 0}, 'cos': {0: 1}, 'sin': {0: 0}, 'tan': {0: 0}, 'exp': {0: 1}, 'log': {1: 0}}


class Term:
    __slots__ = ('fp', 'const', 'i', 'nonneg')
    top = 1 << 60


class Obj:
    """non numeric terminal (call sequence, exit kind, undefined)"""
    __slots__ = ('key', 'i')
    top = 1 << 60

    def __repr__(self):
        return 'Obj%r' % (self.key,)


class Node:
    __slots__ = ('top', 'lo', 'eq', 'hi', 'i')


class Atom:
    __slots__ = ('idx', 'd', 'desc', 'fp', 'int')


class Ctx:
    """One universe of terms, atoms and diagrams, shared by the functions compared."""

    fmode = False        # predicates created now compare floating point numbers
    imode = False        # predicates created now compare integers
    contract_calls = 0   # calls of the analysed code that its own contract stands for
    ties_free = False    # sign patterns with an exactly vanishing floating point predicate are not compared

    def __init__(self, node_limit=600000):
        self.terms = {}
        self.objs = {}
        self.nodes = {}
        self.count = 0
        self.atoms = []
        self.atom_key = {}
        self.memo = {}
        self.ptr = {}           # fp -> (base, off)
        self.desc = {}          # fp -> description
        self.basefp = {}
        self.ufdef = {}         # fp -> (name, args)
        self.small = set()
        self.num = {}           # fp -> numeric value of a term without unknowns (irrational constants), 60 digits
        self.node_limit = node_limit
        self.keep = []
        self.BOT = self.obj(('undef',))
        self.zero = self.const(0)
        self.one = self.const(1)

    # -- terminals
    def obj(self, key):
        o = self.objs.get(key)
        if o is None:
            o = Obj()
            o.key = key
            self.count += 1
            o.i = self.count
            self.objs[key] = o
        return o

    def term(self, fp, const=None, desc=None, nonneg=False):
        t = self.terms.get(fp)
        if t is None:
            t = Term()
            t.fp = fp
            t.const = const
            t.nonneg = nonneg
            self.count += 1
            t.i = self.count
            self.terms[fp] = t
        else:
            if nonneg:
                t.nonneg = True
            if const is not None and t.const is None:
                t.const = const
        if desc is not None and fp not in self.desc:
            self.desc[fp] = desc
        return t

    def const(self, c):
        c = Fraction(c)
        v = c.numerator % P * pow(c.denominator % P, P - 2, P) % P
        return self.term((v,) * M, c, str(c), c >= 0)

    def atomterm(self, *key):
        return self.term(tuple(_hash('atom', s, key) for s in range(M)), None, self._kdesc(key))

    def _kdesc(self, key):
        return '%s' % (key[0],) if len(key) == 1 else '%s(%s)' % (key[0], ','.join(map(str, key[1:])))

    def pointer(self, base, off):
        b = self.basefp.get(base)
        if b is None:
            b = self.basefp[base] = tuple(_hash('base', s, base) for s in range(M))
        fp = tuple(gadd(x, off % P) for x in b)
        t = self.term(fp, None, '&%s+%d' % (base, off), True)
        self.ptr[fp] = (base, off)
        return t

    def regptr(self, t):
        """an opaque value used as an address becomes the base of its own object"""
        if t.const is None and t.fp not in self.ptr:
            base = 'dyn:' + self.show(t)[:80] + '#%x' % _hash(t.fp)
            self.basefp[base] = t.fp
            self.ptr[t.fp] = (base, 0)
        return t

    def uf(self, name, *ts, nonneg=False):
        fp = tuple(_hash('uf', s, name, tuple(t.fp[s] if isinstance(t, Term) else t.key for t in ts)) for s in range(M))
        if name in UFCONST and len(ts) == 1 and isinstance(ts[0], Term) and ts[0].const in UFCONST[name]:
            return self.const(UFCONST[name][ts[0].const])
        if fp not in self.ufdef:
            self.ufdef[fp] = (name, ts)
        return self.term(fp, None, '%s(%s)' % (name, ', '.join(self.show(t) for t in ts))[:300], nonneg)

    def show(self, t):
        if isinstance(t, Obj):
            return str(t.key)[:400]
        if isinstance(t, Node):
            return '{%s ? ..}' % self.atoms[t.top].desc
        if t.const is not None:
            return str(t.const)
        return self.desc.get(t.fp, 't%d' % t.i)

    def numeric(self, t):
        return _dec(t.const) if t.const is not None else self.num.get(t.fp)

    def note(self, t, f, *a):
        """t := f(a); remembers its value if no unknown is involved"""
        if t.const is None and t.fp not in self.num:
            v = [self.numeric(x) for x in a]
            if None not in v:
                try:
                    self.num[t.fp] = f(*v)
                except decimal.DecimalException:
                    pass
        return t

    # -- arithmetic on terminals
    def t_add(self, a, b):
        if a.const is not None and b.const is not None:
            return self.const(a.const + b.const)
        if a.const == 0:
            return b
        if b.const == 0:
            return a
        fp = tuple(gadd(x, y) for x, y in zip(a.fp, b.fp))
        t = self.note(self.term(fp, None, None), operator.add, a, b)
        if fp not in self.desc:
            self.desc[fp] = ('(%s + %s)' % (self.show(a), self.show(b)))[:300]
        if a.nonneg and b.nonneg:
            t.nonneg = True
        for u, v in ((a, b), (b, a)):
            if u.fp in self.ptr and v.const is not None:
                base, off = self.ptr[u.fp]
                self.ptr[fp] = (base, off + int(v.const))
        return t

    def t_neg(self, a):
        if a.const is not None:
            return self.const(-a.const)
        fp = tuple(gneg(x) for x in a.fp)
        return self.note(self.term(fp, None, ('-%s' % self.show(a))[:300]), operator.neg, a)

    def t_sub(self, a, b):
        if a is b:
            return self.zero
        if a.fp in self.ptr and b.fp in self.ptr:
            (b1, o1), (b2, o2) = self.ptr[a.fp], self.ptr[b.fp]
            if b1 == b2:
                return self.const(o1 - o2)
        return self.t_add(a, self.t_neg(b))

    def t_mul(self, a, b):
        if a.const is not None and b.const is not None:
            return self.const(a.const * b.const)
        if a.const == 0 or b.const == 0:
            return self.zero
        if a.const == 1:
            return b
        if b.const == 1:
            return a
        fp = tuple(gmul(x, y) for x, y in zip(a.fp, b.fp))
        return self.note(self.term(fp, None, ('(%s * %s)' % (self.show(a), self.show(b)))[:300],
                                   a is b or (a.nonneg and b.nonneg)), operator.mul, a, b)

    def t_div(self, a, b):
        if b.const is not None and b.const == 0:
            return self.uf('div0', a)
        if a.const is not None and b.const is not None:
            return self.const(a.const / b.const)
        fp = tuple(gmul(x, ginv(y)) for x, y in zip(a.fp, b.fp))
        return self.note(self.term(fp, None, ('(%s / %s)' % (self.show(a), self.show(b)))[:300], a.nonneg and b.nonneg), operator.truediv, a, b)

    def t_sqrt(self, a):
        if a.const is not None and a.const >= 0:
            from math import isqrt
            n, d = isqrt(a.const.numerator), isqrt(a.const.denominator)
            if n * n == a.const.numerator and d * d == a.const.denominator:
                return self.const(Fraction(n, d))
        r = []
        for x in a.fp:
            y = gsqrt(x)
            if y is None:
                return self.note(self.uf('sqrt', a, nonneg=True), _dsqrt, a)
            r.append(y)
        return self.note(self.term(tuple(r), None, ('sqrt(%s)' % self.show(a))[:300], True), _dsqrt, a)

    def t_fabs(self, a):
        if a.const is not None:
            return self.const(abs(a.const))
        if a.nonneg:
            return a
        r = []
        for x in a.fp:
            if type(x) is not int:
                n = self.t_neg(a)
                c = a if repr(a.fp) < repr(n.fp) else n
                return self.uf('fabs', c, nonneg=True)
            # |x| := the representative of {x,-x} that is a square: multiplicative, |x| = sqrt(x*x)
            r.append(x if pow(x, (P - 1) // 2, P) <= 1 else P - x)
        return self.term(tuple(r), None, ('|%s|' % self.show(a))[:300], True)

    # -- atoms
    def sign(self, d):
        """diagram-valued sign of terminal d: returns Term const -1/0/1 or Node over const terms"""
        if d is self.BOT:
            return d
        if d.const is not None:
            return self.const((d.const > 0) - (d.const < 0))
        for q, r in ((d.fp, 1), (tuple(gmul(x, P - 1) for x in d.fp), -1)):     # the address of a local object is not null
            b = self.ptr.get(q)
            if b and b[1] >= 0 and b[0].startswith('alloca'):
                return self.const(r)
        v = self.num.get(d.fp)
        if v is not None and abs(v) > _DEPS:
            return self.const(1 if v > 0 else -1)
        if self.ties_free and self.fmode and d.nonneg:      # exactly vanishing predicates are not compared
            return self.one
        a, s = self.atom(d)
        l, h = (self.const(-s), self.const(s))
        if self.atoms[a].d.nonneg and s == 1:
            l = h
        return self.mk(a, l, self.zero, h)

    def atom(self, d):
        x0 = d.fp[0]
        inv = ginv(x0)
        proj = tuple(gmul(x, inv) for x in d.fp)
        lst = self.atom_key.setdefault(proj, [])
        for a in lst:
            c = ratrec(gmul(x0, ginv(self.atoms[a].d.fp[0])))
            if c is not None and c != 0:
                return a, (1 if c > 0 else -1)
        A = Atom()
        A.idx = len(self.atoms)
        A.d = d
        A.desc = self.show(d)
        A.fp = self.fmode
        A.int = self.imode
        self.atoms.append(A)
        lst.append(A.idx)
        return A.idx, 1

    # -- diagrams
    def eqmod(self, x, y, a):
        """x == y when atom a is zero (only the syntactic multiples are recognised)"""
        if x is y:
            return True
        if isinstance(x, Term) and isinstance(y, Term):
            d = self.atoms[a].d
            return self.prop(self.t_sub(x, y), d)
        if isinstance(x, Node) and isinstance(y, Node) and x.top == y.top:
            return self.eqmod(x.lo, y.lo, a) and self.eqmod(x.eq, y.eq, a) and self.eqmod(x.hi, y.hi, a)
        return False

    def prop(self, x, d):
        """x is a constant multiple of d"""
        if x.const is not None:
            return x.const == 0
        r = None
        for u, v in zip(x.fp, d.fp):
            q = gmul(u, ginv(v))
            if r is None:
                r = q
            elif q != r:
                return False
        return True

    def mk(self, a, lo, eq, hi):
        if lo is eq and eq is hi:
            return lo
        if eq is not hi and self.eqmod(eq, hi, a):
            eq = hi
        if lo is eq and eq is hi:
            return lo
        # |d|
        if eq is hi and isinstance(lo, Term) and isinstance(hi, Term) and hi.const is None:
            d = self.atoms[a].d
            if self.prop(hi, d) and self.t_neg(hi) is lo:
                c = ratrec(gmul(hi.fp[0], ginv(d.fp[0])))
                if c is not None:
                    f = self.t_fabs(hi)
                    return f if c > 0 else self.t_neg(f)
        k = (a, lo.i, eq.i, hi.i)
        n = self.nodes.get(k)
        if n is None:
            n = Node()
            n.top, n.lo, n.eq, n.hi = a, lo, eq, hi
            self.count += 1
            n.i = self.count
            self.nodes[k] = n
            if len(self.nodes) > self.node_limit:
                raise Unsupported('diagram too large')
        return n

    def cof(self, n, a, w):
        """cofactor of n for atom a = w (0: <0, 1: =0, 2: >0); n.top >= a"""
        if n.top != a:
            return n
        return (n.lo, n.eq, n.hi)[w]

    def case(self, a, L, E, H):
        """sign(a) ? L : E : H for arbitrary diagrams"""
        top = min(a, L.top, E.top, H.top)
        if L is E and E is H:
            return L
        k = ('case', a, L.i, E.i, H.i)
        r = self.memo.get(k)
        if r is not None:
            return r
        if top == a:
            r = self.mk(a, self.cof(L, a, 0), self.cof(E, a, 1), self.cof(H, a, 2))
        else:
            r = self.mk(top, *[self.case(a, self.cof(L, top, w), self.cof(E, top, w), self.cof(H, top, w)) for w in range(3)])
        self.memo[k] = r
        return r

    def apply(self, name, f, *args):
        """pointwise application; f maps terminals to a diagram"""
        k = (name,) + tuple(x.i for x in args)
        r = self.memo.get(k)
        if r is not None:
            return r
        top = min(x.top for x in args)
        if top == Term.top:
            if any(x is self.BOT for x in args):
                r = self.BOT
            else:
                r = f(*args)
        else:
            r = self.case(top, *[self.apply(name, f, *[self.cof(x, top, w) for x in args]) for w in range(3)])
        self.memo[k] = r
        return r

    def leaves(self, n, seen=None):
        seen = set() if seen is None else seen
        if n.i in seen:
            return
        seen.add(n.i)
        if n.top == Term.top:
            yield n
            return
        for x in (n.lo, n.eq, n.hi):
            for t in self.leaves(x, seen):
                yield t

    def defined(self, n, by=None):
        """undefined leaves replaced by 0 (or by)"""
        by = self.zero if by is None else by
        if n is self.BOT:
            return by
        if n.top == Term.top:
            return n
        k = ('defined', n.i, by.i)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.mk(n.top, self.defined(n.lo, by), self.defined(n.eq, by), self.defined(n.hi, by))
        return r

    def ite(self, c, t, e):
        """c: diagram over const 0/1 (or BOT)"""
        if c is self.one:
            return t
        if c is self.zero:
            return e
        if t is e:
            return t
        if c is self.BOT:
            return self.BOT
        k = ('ite', c.i, t.i, e.i)
        r = self.memo.get(k)
        if r is not None:
            return r
        if isinstance(c, Term):
            # a boolean that is an opaque value: test it against zero
            s = self.sign(c)
            r = self.case(s.top, t, e, t)
            self.memo[k] = r
            return r
        top = min(c.top, t.top, e.top)
        r = self.mk(top, *[self.ite(self.cof(c, top, w), self.cof(t, top, w), self.cof(e, top, w)) for w in range(3)]) \
            if True else None
        self.memo[k] = r
        return r

    def ob(self, c):
        """normalise a boolean diagram to terminals 0/1"""
        def f(t):
            if t.const is not None:
                return self.one if t.const != 0 else self.zero
            s = self.sign(t)
            return self.case(s.top, self.one, self.zero, self.one)
        return self.apply('bool', f, c)

    def add(self, a, b): return self.apply('add', self.t_add, a, b)
    def sub(self, a, b): return self.apply('sub', self.t_sub, a, b)
    def mul(self, a, b): return self.apply('mul', self.t_mul, a, b)
    def div(self, a, b): return self.apply('div', self.t_div, a, b)
    def neg(self, a): return self.apply('neg', self.t_neg, a)

    def cmp(self, pred, a, b, unsigned=False):
        def sg(x, y):
            # inputs are finite: nothing reaches the largest representable number
            if isinstance(y, Term) and y.const is not None and abs(y.const) >= DBL_MAX and isinstance(x, Term) and x.const is None:
                return self.const(-1 if y.const > 0 else 1)
            if isinstance(x, Term) and x.const is not None and abs(x.const) >= DBL_MAX and isinstance(y, Term) and y.const is None:
                return self.const(1 if x.const > 0 else -1)
            return self.sign(self.t_sub(x, y))
        s = self.apply('sgn', sg, a, b)
        want = {'lt': (1, 0, 0), 'le': (1, 1, 0), 'gt': (0, 0, 1), 'ge': (0, 1, 1), 'eq': (0, 1, 0), 'ne': (1, 0, 1)}[pred]

        def f(t):
            return self.one if want[int(t.const) + 1] else self.zero
        return self.apply('is' + pred, f, s)

    # -- comparison of two diagrams
    def diff(self, x, y, path=(), seen=None, budget=None):
        """None, or (path, termx, termy) for a consistent sign pattern where they differ"""
        if budget is None:
            budget = [400000]
        if seen is None:
            seen = set()
        if x is y:
            return None
        budget[0] -= 1
        if budget[0] <= 0:
            raise Unsupported('comparison too large')
        if y is self.BOT:          # not required to be defined here; the converse (library undefined, reference defined) is a difference
            return None
        top = min(x.top, y.top)
        if top == Term.top:
            if self.equal_under(x, y, path):
                return None
            if not self.consistent(path) or self.cycle(path):
                return None
            return path, x, y
        if len(path) and len(path) % 4 == 0 and not self.consistent(path):
            return None
        for w in range(3):
            if w == 0 and self.atoms[top].d.nonneg:
                continue
            if w == 1 and self.ties_free and self.atoms[top].fp:
                continue
            r = self.diff(self.cof(x, top, w), self.cof(y, top, w), path + ((top, w - 1),), seen, budget)
            if r is not None:
                return r
        return None

    def equal_under(self, x, y, path):
        if isinstance(x, Obj) or isinstance(y, Obj):
            if isinstance(x, Obj) and isinstance(y, Obj) and x.key[:1] == ('seq',) and y.key[:1] == ('seq',):
                return self.seq_equal(x.key, y.key, path)
            return False
        zs = [self.atoms[a].d for a, w in path if w == 0]
        d = self.t_sub(x, y)
        if d.const == 0:
            return True
        for z in zs:
            if self.prop(d, z):
                return True
        for i in range(len(zs)):
            for j in range(i):
                if self.lin([d, zs[i], zs[j]]) is not None:
                    return True
        if not zs:
            return False
        # congruence: f(s) = f(t) when s = t here; f(s) = c when s is a constant here
        ux, uy = self.ufdef.get(x.fp), self.ufdef.get(y.fp)
        if ux and uy and ux[0] == uy[0] and len(ux[1]) == len(uy[1]):
            if all(p is q or self.equal_under(p, q, path) for p, q in zip(ux[1], uy[1])):
                return True
        for u, o in ((ux, y), (uy, x)):
            if u and u[0] in UFCONST and len(u[1]) == 1:
                for a0, v in UFCONST[u[0]].items():
                    if o.const == v and self.equal_under(u[1][0], self.const(a0), path):
                        return True
        return False

    def seq_equal(self, k1, k2, path):
        if len(k1) != len(k2):
            return False
        for a, b in zip(k1[1:], k2[1:]):
            if a == b:
                continue
            if a[0] != b[0] or len(a) != len(b):
                return False
            for u, v in zip(a[1:], b[1:]):
                if u == v:
                    continue
                tu, tv = self.terms.get(u), self.terms.get(v)
                if tu is None or tv is None or not self.equal_under(tu, tv, path):
                    return False
        return True

    def lin(self, ds):
        """a linear relation sum c_k d_k = 0 with rational constants and c_0 != 0, or None"""
        n = len(ds)
        if n > M:
            return None
        # only n <= M-? unknown ratios: c_0 = 1; solve for the rest over n-1 samples, verify on the others
        rows = [[d.fp[s] for d in ds[1:]] + [gneg(ds[0].fp[s])] for s in range(M)]
        sol = solve(rows, n - 1)
        if sol is None:
            return None
        out = [Fraction(1)]
        for c in sol:
            r = ratrec(c)
            if r is None:
                return None
            out.append(r)
        return out

    def consistent(self, path):
        """False when some linear relation between two or three predicates of the path (and a
        constant) excludes this sign pattern, e.g. t<0 and t-1>0, or a<b, b<c, c<a."""
        items = [(self.atoms[a].d, w) for a, w in path]
        for d, w in items:
            if w < 0 and d.nonneg:
                return False
        one = self.one
        n = len(items)
        for i in range(n):
            for j in range(i):
                if self._negsum(items[i], items[j]):
                    return False
        for i in range(n):
            for j in range(i):
                if self._bad([items[i], items[j], (one, 1)]) or self._bad([items[i], items[j]]):
                    return False
        ints = [(self.atoms[a].d, w) for a, w in path if w != 0 and self.atoms[a].int]
        for i in range(len(ints)):      # integers: d > 0 means d >= 1
            for j in range(i):
                if self._badint(ints[i], ints[j]):
                    return False
        for i in range(n):
            for j in range(i):
                for k in range(j):
                    if self._bad([items[i], items[j], items[k]]):
                        return False
        return True

    def cycle(self, path):
        """True when up to six predicates of the path add up to zero although none of them is negative (and one is positive),
        e.g. a<b, b<c, c<d, d<a"""
        fs = []
        for a, w in path:
            d = self.atoms[a].d
            for s in ((1, -1) if w == 0 else (w,)):
                fs.append((d.fp if s > 0 else tuple(gneg(x) for x in d.fp), w != 0))
        if len(fs) > 40:
            return False
        neg = {}

        def seen(fp, strict):
            q = neg.get(fp)
            return q is not None and (q or strict)

        def note(fp, strict):
            k = tuple(gneg(x) for x in fp)
            neg[k] = neg.get(k, False) or strict
        level = [(fp, st, i) for i, (fp, st) in enumerate(fs)]
        for fp, st, i in level:
            note(fp, st)
        for rnd in range(2):
            nxt = []
            for fp, st, i in level:
                for j in range(i + 1, len(fs)):
                    g = tuple(gadd(x, y) for x, y in zip(fp, fs[j][0]))
                    t = st or fs[j][1]
                    nxt.append((g, t, j))
            for g, t, j in nxt:
                if seen(g, t):
                    return True
                note(g, t)
            for g, t, j in nxt:
                if seen(g, t):
                    return True
            level = nxt
        return False

    def _negsum(self, x, y):
        """x and y say that their sum is positive, but its negative is a known nonnegative term (e.g. a > |b| and a < -|b|)"""
        if x[1] == 0 and y[1] == 0:
            return False
        key = ('negsum', x[0].i, x[1], y[0].i, y[1])
        r = self.memo.get(key)
        if r is None:
            r = False
            for u in ((1, -1) if x[1] == 0 else (x[1],)):
                for v in ((1, -1) if y[1] == 0 else (y[1],)):
                    t = self.t_add(self.t_neg(x[0]) if u > 0 else x[0], self.t_neg(y[0]) if v > 0 else y[0])
                    r = r or self._isnonneg(t)
            self.memo[key] = r
        return r

    def _isnonneg(self, t):
        if t.const is not None:
            return t.const >= 0
        if t.nonneg:
            return True
        for k in (2, 3, 4, 6):
            u = self.terms.get(tuple(gmul(f, pow(k, P - 2, P)) for f in t.fp))
            if u is not None and u.nonneg:
                return True
        return False

    def _badint(self, x, y):
        key = ('badint', x[0].i, x[1], y[0].i, y[1])
        r = self.memo.get(key)
        if r is None:
            t = self.t_sub(x[0] if x[1] > 0 else self.t_neg(x[0]), self.t_neg(y[0]) if y[1] > 0 else y[0])
            r = self.memo[key] = t.const is not None and t.const < 2
        return r

    def _bad(self, its):
        key = ('bad',) + tuple((d.i, w) for d, w in its)
        r = self.memo.get(key)
        if r is None:
            rel = self.memo.get(('lin',) + tuple(d.i for d, _ in its), 0)
            if rel == 0:
                rel = self.lin2([d for d, _ in its])
                self.memo[('lin',) + tuple(d.i for d, _ in its)] = rel
            r = False
            if rel is not None:
                sg = set()
                for c, (d, w) in zip(rel, its):
                    v = (c > 0) - (c < 0)
                    sg.add(v * w)
                if sg <= {0, 1} and 1 in sg or sg <= {0, -1} and -1 in sg:
                    r = True
            self.memo[key] = r
        return r

    def lin2(self, ds):
        # needs one sample more than unknowns: use auxiliary fingerprints (squares are not linear, so
        # use the GF(p) structure: M samples, len(ds)-1 unknowns <= M-1)
        if len(ds) - 1 > M - 1:
            return None
        return self.lin(ds)


def solve(rows, n):
    """solve rows (n coefficients + rhs) over GF(p^2); unique solution or None"""
    rows = [list(r) for r in rows]
    r = 0
    for c in range(n):
        piv = next((i for i in range(r, len(rows)) if rows[i][c] != 0), None)
        if piv is None:
            return None
        rows[r], rows[piv] = rows[piv], rows[r]
        inv = ginv(rows[r][c])
        rows[r] = [gmul(x, inv) for x in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c] != 0:
                f = gneg(rows[i][c])
                rows[i] = [gadd(x, gmul(f, y)) for x, y in zip(rows[i], rows[r])]
        r += 1
    for i in range(r, len(rows)):
        if rows[i][n] != 0:
            return None
    return [rows[i][n] for i in range(n)]


# ------------------------------------------------------------------------------------
PURE1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'floor', 'ceil', 'sinf', 'cosf', 'acosf', 'asinf', 'cbrt',
         'llvm.sin.f64', 'llvm.cos.f64', 'llvm.floor.f64', 'llvm.ceil.f64', 'llvm.exp.f64', 'llvm.log.f64'}
PURE2 = {'atan2', 'pow', 'fmod', 'hypot', 'atan2f', 'llvm.pow.f64', 'llvm.copysign.f64'}
PFX = 'llvm.'


class Func:
    """The analysis of one function.  opts:
       ignore(callee_dem) -> True: call leaves no trace (diagnostics)
       pure(callee)       -> True: result depends on the arguments only
       clobber(callee)    -> True: call may change caller visible memory
       rename             -> dict callee -> name used in the trace
    """

    def __init__(self, ctx, mod, name, opts=None, argkey=None, parent=None, args=None):
        self.c = ctx
        self.mod = mod
        self.fn = mod['functions'][name]
        self.name = name
        self.opts = opts or {}
        self.argkey = argkey
        if 'blocks' not in self.fn:
            raise Unsupported('no body: ' + name)
        self.val = {}
        self.agg = {}
        self.allocas = set()
        self.ncalls = 0
        self.sizes = {}
        self.celltype = {}
        self.args = args
        self.retagg = []
        self.root = parent.root if parent else self
        self.suffix = ''
        if parent:
            self.depth = parent.depth + 1
            self.root.nsub += 1
            self.suffix = '~%d' % self.root.nsub
            self.start = (parent.cond, parent.mem, parent.tr)
            self.allocas = parent.allocas
            self.sizes, self.celltype = parent.sizes, parent.celltype
            ctx.keep.append(self)
        else:
            self.depth = self.nsub = self.nheap = 0
            self.start = (ctx.one, {}, ctx.obj(('seq',)))

    def run(self):
        c = self.c
        fn = self.fn
        blocks = fn['blocks']
        n = len(blocks)
        succ = [[] for _ in range(n)]
        for b, insts in enumerate(blocks):
            t = insts[-1]
            op = t['op']
            if op == 'br':
                # operands: [cond, false, true] or [dest]
                bs = [o[1] for o in t['ops'] if o[0] == 'b']
                succ[b] = bs
            elif op == 'switch':
                succ[b] = [k[1] for k in t['cases']] + [t['default']]
            elif op == 'invoke':
                succ[b] = [t['normal']]
        # nesting of natural loops; each region (loop body or the whole function) is acyclic once its inner loops are collapsed
        loops = fn.get('loops', [])
        inner = [-1] * n
        for k, L in enumerate(loops):            # preorder: inner loops come later
            for b in L['blocks']:
                inner[b] = k
        reach = {0}
        stack = [0]
        while stack:
            for s in succ[stack.pop()]:
                if s not in reach:
                    reach.add(s)
                    stack.append(s)

        def node(b, region):
            """representative of block b inside region; None if outside"""
            k = inner[b]
            if k == region:
                return ('b', b)
            while k != -1:
                if loops[k]['parent'] == region:
                    return ('l', k)
                k = loops[k]['parent']
            return None
        orders = {}

        def order_of(region):
            if region in orders:
                return orders[region]
            bs = [b for b in (range(n) if region == -1 else loops[region]['blocks']) if b in reach]
            head = 0 if region == -1 else loops[region]['header']
            g = {}
            for b in bs:
                x = node(b, region)
                g.setdefault(x, [])
                for s in succ[b]:
                    if region != -1 and s == head:
                        continue
                    y = node(s, region)
                    if y is not None and y != x:
                        g[x].append(y)
            start = node(head, region)
            out, state = [], {start: 1}
            st = [(start, iter(g[start]))]
            while st:
                x, it = st[-1]
                for y in it:
                    if y not in state:
                        state[y] = 1
                        st.append((y, iter(g[y])))
                        break
                    if state[y] == 1:
                        raise Unsupported('irreducible loop in %s' % fn['dem'])
                else:
                    state[x] = 2
                    out.append(x)
                    st.pop()
            out.reverse()
            orders[region] = out
            return out
        for i, p in enumerate(fn['params']):
            if self.args is not None:
                self.val[i] = self.args[i]
            elif p['ty'] == 'ptr':
                self.val[i] = c.pointer('sret' if p['sret'] else 'arg%d' % i, 0)
            elif p['ty'] == 'i1':
                self.val[i] = c.ob(c.atomterm('arg', i))
            else:
                self.val[i] = c.atomterm('arg', i)
                if self.opts.get('unsigned_args') and p['ty'].startswith('i'):
                    self.val[i].nonneg = True
        preds = [[] for _ in range(n)]          # (pred block, cond, mem, trace, phi values)
        finals = self.finals = []                # (cond, ret, trace, mem)
        phis = [[i for i in insts if i['op'] == 'phi'] for insts in blocks]

        def edge(b, to, ec):
            if ec is c.zero:
                return
            snap = {}
            for ins in phis[to]:
                for o, pb in ins['inc']:
                    if pb == b:
                        snap[ins['id']] = self.opval(o)
                        break
            preds[to].append((b, ec, self.mem, self.tr, snap))

        def block(b):
            if b == 0:
                cond, mem, tr = self.start[0], dict(self.start[1]), self.start[2]
            else:
                es = preds[b]
                preds[b] = []
                cond = c.zero
                for e in es:
                    cond = c.ite(cond, c.one, e[1])
                if cond is c.zero:
                    return
                mem, tr = self.merge(es)
                for ins in phis[b]:
                    v = c.BOT
                    for e in es:
                        v = c.ite(e[1], e[4][ins['id']], v)
                    self.val[ins['id']] = v
            self.mem, self.tr, self.cond = mem, tr, cond
            insts = blocks[b]
            for ins in insts:
                if ins['op'] == 'phi':
                    continue
                k = self.step(ins)
                if k == 'throw':
                    finals.append((self.cond, c.obj(('exit', self.thrown)), self.tr, self.mem))
                    return
                if k == 'dead':
                    return
            t = insts[-1]
            op = t['op']
            if op == 'ret':
                rv = self.opval(t['ops'][0]) if t['ops'] else c.obj(('void',))
                if t['ops'] and t['ops'][0][0] == 'v' and t['ops'][0][1] in self.agg:
                    self.retagg.append((self.cond, self.agg[t['ops'][0][1]]))
                finals.append((self.cond, rv, self.tr, self.mem))
            elif op == 'unreachable':
                pass
            elif op == 'br':
                if len(t['ops']) == 1:
                    edge(b, t['ops'][0][1], self.cond)
                else:
                    bc = c.ob(self.opval(t['ops'][0]))
                    f, tt = t['ops'][1][1], t['ops'][2][1]
                    edge(b, tt, self.land(self.cond, bc))
                    edge(b, f, self.land(self.cond, self.lnot(bc)))
            elif op == 'switch':
                v = self.opval(t['ops'][0])
                rest = self.cond
                for cv, to in t['cases']:
                    e = c.cmp('eq', v, c.const(int(cv)))
                    edge(b, to, self.land(rest, e))
                    rest = self.land(rest, self.lnot(e))
                edge(b, t['default'], rest)
            elif op == 'invoke':
                edge(b, t['normal'], self.cond)
            elif op == 'resume':
                pass
            else:
                raise Unsupported('terminator ' + op)
        limit = self.opts.get('unroll', 64)

        def region(r):
            for kind, k in order_of(r):
                if kind == 'b':
                    block(k)
                    continue
                h = loops[k]['header']
                it = 0
                while preds[h]:
                    it += 1
                    if it > limit:
                        raise Unsupported('loop in %s' % fn['dem'])
                    region(k)
        region(-1)
        if self.args is not None:
            return self
        if len(finals) > 1:
            finals = [(e[1], e[4], e[3], e[2]) for e in self.align([(None, cd, m, q, r) for cd, r, q, m in finals])]
        ret = tr = c.BOT
        memk = set()
        for cd, r, q, m in finals:
            ret = c.ite(cd, r, ret)
            tr = c.ite(cd, q, tr)
            memk |= set(k for k in m if k[0] not in self.allocas)
        self.ret, self.trace = ret, tr
        self.out = {}
        for k in sorted(memk, key=str):
            v = c.BOT
            for cd, r, q, m in finals:
                v = c.ite(cd, m[k][1] if k in m else self.initial(k, self.sizes.get(k, 8)), v)
            self.out[k] = v
        return self

    def land(self, a, b):
        return self.c.ite(a, b, self.c.zero)

    def lnot(self, a):
        return self.c.ite(a, self.c.zero, self.c.one)

    def merge(self, es):
        c = self.c
        if len(es) == 1:
            return dict(es[0][2]), es[0][3]
        tr = c.BOT
        for _, ec, _, t, _ in es:
            tr = c.ite(ec, t, tr)
        es = self.align(es)
        keys = {}
        for _, _, m, _, _ in es:
            for k in m:
                keys[k] = m[k][0]
        mem = {}
        for k, sz in keys.items():
            v = c.BOT
            for _, ec, m, _, _ in es:
                x = m[k][1] if k in m else (c.BOT if k[0] in self.allocas else self.initial(k, sz))
                v = c.ite(ec, x, v)
            mem[k] = (sz, v)
        return mem, tr

    def align(self, es):
        """give the memory states to be merged the same partition into cells"""
        for _ in range(64):
            szs = {}
            todo = set()
            for e in es:
                for k, x in e[2].items():
                    if szs.setdefault(k, x[0]) != x[0]:
                        todo.add(k)
            for k, sz in szs.items():
                base, off = k
                for d in range(1, sz):
                    if (base, off + d) in szs:
                        todo.add(k)
                        break
            if not todo:
                return es
            out = []
            for e in es:
                hit = [k for k in todo if k in e[2] and e[2][k][0] > 1]
                if hit:
                    keep = self.mem if hasattr(self, 'mem') else None
                    self.mem = dict(e[2])
                    for k in hit:
                        if not self.split(*k):
                            raise Unsupported('memory cells of different sizes meet')
                    e = (e[0], e[1], self.mem, e[3], e[4])
                    self.mem = keep
                out.append(e)
            es = out
        raise Unsupported('memory cells of different sizes meet')

    def initial(self, k, sz):
        base, off = k
        return self.c.uf('load', self.c.pointer(base, off))

    # -- operands
    def opval(self, o):
        c = self.c
        t = o[0]
        if t == 'v':
            if o[1] not in self.val:
                raise Unsupported('value %s' % o)
            return self.val[o[1]]
        if t == 'c':
            v = int(o[1])
            if o[2] == 1:
                v = v & 1
            return c.const(v)
        if t == 'f':
            if 'inf' in o[1]:
                return c.atomterm('inf', o[1])
            if 'nan' in o[1]:
                return c.atomterm('nan')
            fr = Fraction(*float.fromhex(o[1]).as_integer_ratio())
            return c.const(snap(fr))
        if t == 'null':
            return c.zero
        if t in ('undef', 'poison'):
            return c.BOT
        if t == 'g':
            return c.pointer('@' + o[1], 0)
        if t == 'cgep':
            return self.gep(o[1])
        if t == 'zero':
            return c.zero
        raise Unsupported('operand %s' % (o,))

    def gep(self, g):
        c = self.c
        if g.get('bad'):
            raise Unsupported('gep')
        v = c.apply('regptr', c.regptr, self.opval(g['base']))
        if g['off']:
            v = c.add(v, c.const(g['off']))
        for o, s in g['var']:
            v = c.add(v, c.mul(self.opval(o), c.const(s)))
        return v

    # -- memory
    def piece(self, v, d, n, total, isint):
        """bytes d .. d+n of a value of total bytes"""
        c = self.c
        if d == 0 and n == total:
            return v

        def f(x):
            if x.const is not None and x.const.denominator == 1 and (isint or x.const == 0):
                r = (int(x.const) >> (8 * d)) & ((1 << (8 * n)) - 1)
                return c.const(r - (1 << (8 * n)) if n >= 4 and r >> (8 * n - 1) else r)
            u = c.ufdef.get(x.fp)
            if u is not None and u[0].startswith('piece:'):
                d0, n0, t0 = map(int, u[0].split(':')[1:])
                return c.uf('piece:%d:%d:%d' % (d0 + d, n, t0), *u[1])
            if u is not None and u[0].startswith('pack:'):
                w, o = [int(q) for q in u[0][5:].split(',')], 0
                for q, t in zip(w, u[1]):
                    if o <= d and d + n <= o + q:
                        return c.BOT if not isinstance(t, Term) else self.piece(t, d - o, n, q, True)
                    o += q
            return c.uf('piece:%d:%d:%d' % (d, n, total), x)
        return c.apply('piece:%d:%d:%d:%d' % (d, n, total, isint), f, v)

    def load(self, p, size, ty):
        c = self.c

        def f(t):
            c.regptr(t)
            if t.fp in c.ptr:
                base, off = c.ptr[t.fp]
                if base.startswith('@'):
                    r = self.gload(base[1:], off, size)
                    if r is not None:
                        return r
                e = self.mem.get((base, off))
                if e is not None:
                    if e[0] == size:
                        return e[1]
                    if e[0] > size:
                        return self.piece(e[1], 0, size, e[0], self.isint(base, off))
                    return self.assemble(base, off, size, ty)
                # larger store covering this cell?
                for d in (1, 2, 3, 4, 5, 6, 7, 8):
                    e = self.mem.get((base, off - d))
                    if e is not None and e[0] > d:
                        if e[0] - d >= size:
                            return self.piece(e[1], d, size, e[0], self.isint(base, off - d))
                        raise Unsupported('overlapping load')
                if size > 1 and any((base, off + d) in self.mem for d in range(1, size)):
                    return self.assemble(base, off, size, ty)
                if base in self.allocas:
                    return c.BOT
                if str(base).startswith('@_ZGV'):
                    return c.zero       # first call: the static has not been initialised yet
            return c.uf('load', t)
        # not memoised across memory states: use a private key
        self.ncalls += 1
        v = c.apply('load#%d#%d' % (id(self), self.ncalls), f, p)
        if ty == 'i1':
            v = c.ob(v)
        return v

    def isint(self, base, off):
        return self.celltype.get((base, off), '').startswith('i')

    def assemble(self, base, off, size, ty):
        """value of a wide load from narrower cells"""
        c = self.c
        o, parts = off, []
        while o < off + size:
            e = self.mem.get((base, o))
            if e is None and base in self.allocas:
                parts.append((8 * (o - off), 8, c.BOT))
                o += 1
                continue
            if e is None or o + e[0] > off + size:
                raise Unsupported('wide load %s' % ((base, off, size),))
            parts.append((8 * (o - off), 8 * e[0], e[1]))
            o += e[0]
        if all(x[2] is c.BOT for x in parts):
            return c.BOT
        if ty.startswith('{') or not (ty.startswith('i') or ty == 'ptr' or ty == 'double'):
            raise Unsupported('wide load of ' + ty)
        und = c.obj(('undefined bytes',))

        def f(*ts):
            if all(t is und for t in ts):
                return c.BOT
            src = [c.ufdef.get(t.fp) if isinstance(t, Term) else None for t in ts]
            if all(u is not None and u[0].startswith('piece:') for u in src):
                w = [tuple(map(int, u[0].split(':')[1:])) for u in src]
                d0, t0 = w[0][0], w[0][2]
                if all(src[k][1] == src[0][1] and w[k][0] == d0 + parts[k][0] // 8 and w[k][1] == parts[k][1] // 8 for k in range(len(w))):
                    return src[0][1][0] if size == t0 and d0 == 0 else c.uf('piece:%d:%d:%d' % (d0, size, t0), *src[0][1])
            r = 0
            for (sh, w, _), t in zip(parts, ts):
                if t is und:
                    continue         # bytes that are undefined (padding) do not spoil the others
                if not isinstance(t, Term) or t.const is None or t.const.denominator != 1:
                    return c.uf('pack:' + ','.join(str(q[1] // 8) for q in parts), *ts)
                r |= (int(t.const) & ((1 << w) - 1)) << sh
            if ty == 'double' and r:
                raise Unsupported('wide load of double parts')
            if r >> (8 * size - 1):
                r -= 1 << (8 * size)
            return c.const(r)
        self.ncalls += 1
        return c.apply('asm#%d#%d' % (id(self), self.ncalls), f, *[c.defined(x[2], und) for x in parts])

    def split(self, base, off, cuts=None):
        """break a cell into pieces; cuts: interior byte positions (default: everywhere)"""
        sz, v = self.mem[(base, off)]
        isint = self.isint(base, off)
        at = [0] + sorted(x for x in (range(1, sz) if cuts is None else set(cuts)) if 0 < x < sz) + [sz]
        if len(at) == 2:
            return True
        del self.mem[(base, off)]
        for d, e in zip(at, at[1:]):
            k = (base, off + d)
            self.mem[k] = (e - d, self.piece(v, d, e - d, sz, isint))
            self.sizes[k] = e - d
            self.celltype[k] = 'i%d' % (8 * (e - d))
        return True

    def gload(self, g, off, size):
        G = self.mod['globals'].get(g)
        if not G or not G.get('constant') or 'init' not in G:
            return None
        return self.gconst(G['init'], off, size)

    def gconst(self, init, off, size):
        c = self.c
        if init[0] == 'agg':
            # homogeneous arrays only
            es = init[1]
            if es and es[0][0] == 'agg' and len(es) == 1:
                return self.gconst(es[0], off, size)
            if es and all(e[0] in ('null', 'g', 'cgep') for e in es):
                return self.opval(es[off // 8]) if off % 8 == 0 and size == 8 and off // 8 < len(es) else None
            if es and es[0][0] == 'c':
                w = max(1, es[0][2] // 8)
                if off % w == 0 and size == w and off // w < len(es):
                    return self.opval(es[off // w])
            if es and es[0][0] == 'f':
                if off % 8 == 0 and off // 8 < len(es):
                    return self.opval(es[off // 8])
            return None
        if init[0] in ('c', 'f') and off == 0:
            return self.opval(init)
        if init[0] == 'zero':
            return c.zero
        return None

    def store(self, p, v, size, vty=''):
        c = self.c
        targets = []

        def walk(n, cond):
            if n is c.BOT:
                return
            if isinstance(n, Term):
                targets.append((n, cond))
                return
            for w, ch in ((0, n.lo), (1, n.eq), (2, n.hi)):
                g = [c.zero, c.zero, c.zero]
                g[w] = c.one
                walk(ch, self.land(cond, c.mk(n.top, *g)))
        walk(p, c.one)
        by = {}
        for t, cd in targets:
            by[t.i] = (t, c.ite(by[t.i][1], c.one, cd) if t.i in by else cd)
        for t, cd in by.values():
            c.regptr(t)
            if t.fp not in c.ptr:
                raise Unsupported('store to constant address')
            base, off = c.ptr[t.fp]
            over = [k for k in ((base, off - d) for d in range(1 - size, 17)) if k in self.mem and off < k[1] + self.mem[k][0]]
            for k in over:
                if not (k[1] >= off and k[1] + self.mem[k][0] <= off + size):
                    self.split(k[0], k[1], (off - k[1], off + size - k[1]))
            over = sorted(k for k in ((base, off + d) for d in range(size)) if k in self.mem)
            if cd is c.one:
                for k in over:
                    del self.mem[k]
            elif over and (over != [(base, off)] or self.mem[(base, off)][0] != size):
                # guarded store over several cells: piece by piece
                isint = vty.startswith('i')
                o = off
                while o < off + size:
                    old = self.mem.get((base, o))
                    if old is not None:
                        n, ov = old
                    else:
                        n = min([k[1] for k in over if k[1] > o] + [off + size]) - o
                        ov = c.BOT if base in self.allocas else self.piece(c.uf('load', t), o - off, n, size, True)
                    self.mem[(base, o)] = (n, c.ite(cd, self.piece(v, o - off, n, size, isint), ov))
                    self.sizes[(base, o)] = n
                    self.celltype.setdefault((base, o), 'i%d' % (8 * n))
                    o += n
                continue
            old = self.mem.get((base, off))
            self.sizes[(base, off)] = size
            self.celltype[(base, off)] = vty
            if cd is c.one:
                self.mem[(base, off)] = (size, v)
            else:
                ov = old[1] if old is not None else (c.BOT if base in self.allocas else c.uf('load', t))
                self.mem[(base, off)] = (size, c.ite(cd, v, ov))

    def memcpy(self, dst, src, n):
        c = self.c
        size = None
        if not (isinstance(n, Term) and n.const is not None):
            ls = [t for t in c.leaves(n) if t is not c.BOT]
            if not ls or any(not isinstance(t, Term) or t.const is None or t.const > 4096 for t in ls):
                raise Unsupported('memcpy of %s bytes' % c.show(n))
            size, sizes, n = n, {int(t.const) for t in ls}, max(int(t.const) for t in ls)
        else:
            n = int(n.const)
        if size is not None or not (isinstance(dst, Term) and isinstance(src, Term)):
            # conditional addresses or size: copy in the common partition of the possible sources
            cuts, ty = set(sizes) if size is not None else set(), {}
            for t in list(c.leaves(src)) + (list(c.leaves(dst)) if size is not None else []):
                if t is c.BOT:
                    continue
                c.regptr(t)
                if t.fp not in c.ptr:
                    raise Unsupported('memcpy ptr')
                sb, so = c.ptr[t.fp]
                for d in range(n):
                    e = self.mem.get((sb, so + d))
                    if e is not None:
                        cuts |= {d, d + e[0]}
                        ty.setdefault(d, self.celltype.get((sb, so + d), ''))
            cuts |= {d for d in range(0, n, 8) if not any(d < x < d + 8 or d - 8 < x < d for x in cuts)} | {0, n}
            at = sorted(x for x in cuts if 0 <= x <= n)
            todo = []
            for d, e in zip(at, at[1:]):
                v = self.load(c.add(src, c.const(d)), e - d, 'i64' if e - d == 8 else 'i%d' % (8 * (e - d)))
                if size is not None and d >= min(sizes):
                    v = c.ite(c.cmp('gt', size, c.const(d)), v, self.load(c.add(dst, c.const(d)), e - d, 'i64' if e - d == 8 else 'i%d' % (8 * (e - d))))
                todo.append((d, e - d, v))
            for d, sz, v in todo:
                self.store(c.add(dst, c.const(d)), v, sz, ty.get(d, ''))
            return
        c.regptr(dst), c.regptr(src)
        if dst.fp not in c.ptr or src.fp not in c.ptr:
            raise Unsupported('memcpy ptr')
        db, do = c.ptr[dst.fp]
        sb, so = c.ptr[src.fp]
        for k in [k for k in self.mem if k[0] == sb and k[1] < so + n and k[1] + self.mem[k][0] > so and not (k[1] >= so and k[1] + self.mem[k][0] <= so + n)]:
            self.split(k[0], k[1], (so - k[1], so + n - k[1]))
        cells = [(k[1], self.mem[k]) for k in self.mem if k[0] == sb and so <= k[1] < so + n]
        if sb in self.allocas:
            have = set(o for off, (sz, v) in cells for o in range(off, off + sz))
            for off, (sz, v) in cells:
                self.store(c.pointer(db, do + off - so), v, sz, self.celltype.get((sb, off), ''))
            # undefined bytes are copied as well
            for o in [k[1] - do + so for k in list(self.mem) if k[0] == db and do <= k[1] < do + n and (db, sb) != (sb, db)]:
                if o not in have and all(q not in have for q in range(o, o + self.mem[(db, o - so + do)][0])):
                    k = (db, o - so + do)
                    self.mem[k] = (self.mem[k][0], c.BOT)
        else:
            have = {off: x for off, x in cells}
            o = so
            while o < so + n:
                if o in have:
                    sz, v = have[o]
                else:
                    nxt = min([x for x in have if x > o] + [so + n]) - o
                    sz = 8 if nxt >= 8 else (4 if nxt >= 4 else 1)
                    r = None
                    if sb.startswith('@'):
                        r = self.gload(sb[1:], o, sz)
                        if r is None and sz == 8:
                            sz = 4
                            r = self.gload(sb[1:], o, sz)
                    v = r if r is not None else c.uf('load', c.pointer(sb, o))
                self.store(c.pointer(db, do + o - so), v, sz, self.celltype.get((sb, o), ''))
                o += sz

    # -- instructions
    def step(self, ins):
        c = self.c
        op = ins['op']
        i = ins['id']
        ty = ins['ty']
        if op in ('br', 'ret', 'switch', 'unreachable', 'resume'):
            return None
        if op == 'getelementptr':
            self.val[i] = self.gep(ins)
            return None
        if op in ('call', 'invoke'):
            return self.call(ins)
        if op == 'alloca':
            b = 'alloca%d%s' % (i, self.suffix)
            self.allocas.add(b)
            self.val[i] = c.pointer(b, 0)
            return None
        if op == 'landingpad':
            self.val[i] = c.BOT
            return None
        if op == 'extractvalue':
            a = self.agg.get(ins['ops'][0][1]) if ins['ops'][0][0] == 'v' else None
            if a is None:
                v = self.opval(ins['ops'][0])
                key = 'extract%s' % ins['idx']
                self.val[i] = c.apply(key, lambda t: c.uf(key, t), v)
            else:
                self.val[i] = a.get(tuple(ins['idx']), c.BOT)
            return None
        if op == 'insertvalue':
            o = ins['ops'][0]
            a = dict(self.agg.get(o[1], {})) if o[0] == 'v' else {}
            a[tuple(ins['idx'])] = self.opval(ins['ops'][1])
            self.agg[i] = a
            # aggregate as a value: hash of its fields
            vals = [a[k] for k in sorted(a)]
            nm = 'agg%s' % (sorted(a),)
            self.val[i] = c.apply(nm, lambda *t: c.uf(nm, *t), *vals)
            return None
        if op == 'load':
            self.val[i] = self.load(self.opval(ins['ops'][0]), ins['size'], ty)
            return None
        if op == 'store':
            self.store(self.opval(ins['ops'][1]), self.opval(ins['ops'][0]), ins['size'], ins.get('vty', ''))
            return None
        a = [self.opval(o) for o in ins['ops']]
        i1 = ty == 'i1'
        if op in ('fadd', 'add'):
            v = c.add(*a)
        elif op in ('fsub', 'sub'):
            v = c.sub(*a)
        elif op in ('fmul', 'mul'):
            v = c.mul(*a)
        elif op == 'fdiv':
            v = c.div(*a)
        elif op == 'fneg':
            v = c.neg(a[0])
        elif op == 'shl':
            v = c.apply('shl', lambda x, y: c.t_mul(x, c.const(1 << int(y.const))) if y.const is not None and 0 <= y.const < 64 else c.uf(op, x, y), *a)
        elif op in ('and', 'or', 'xor') and i1:
            x, y = c.ob(a[0]), c.ob(a[1])
            v = {'and': lambda: self.land(x, y), 'or': lambda: c.ite(x, c.one, y),
                 'xor': lambda: c.ite(x, self.lnot(y), y)}[op]()
        elif op in ('and', 'or', 'xor', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            v = self.intop(op, a, ty)
        elif op == 'zext':
            v = a[0]
        elif op == 'sext':
            v = c.neg(a[0]) if self.opty(ins['ops'][0]) == 'i1' else a[0]
        elif op in ('trunc',):
            if ty == 'i1':
                v = c.ob(self.intop('and', [a[0], c.one], 'i8'))
            elif any(isinstance(t, Term) and c.ufdef.get(t.fp, ('',))[0].startswith('pack:') for t in c.leaves(a[0])):
                v = self.piece(a[0], 0, int(ty[1:]) // 8, 8, True)
            elif ty in ('i8', 'i16'):
                v = c.apply('trunc' + ty, lambda t: t if t.const is not None or t.fp in c.small else c.uf('trunc' + ty, t), a[0])
            else:
                v = a[0]
        elif op == 'fptrunc' and not self.opts.get('floats'):
            v = c.apply('fptrunc', lambda t: t if t.const is not None else c.uf('round_to_float', t), a[0])
        elif op in ('fpext', 'fptrunc', 'sitofp', 'uitofp', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            v = a[0]
        elif op in ('fptosi', 'fptoui'):
            v = self.ufn('fptoint', a)
        elif op == 'select':
            v = c.ite(c.ob(a[0]), a[1], a[2])
        elif op in ('icmp', 'fcmp'):
            c.fmode = op == 'fcmp'
            self.uint = op == 'icmp' and any((self.opty(o) or '').startswith('i') for o in ins['ops'])
            c.imode = self.uint
            v = self.compare(ins['pred'], a)
            c.fmode = c.imode = False
        else:
            raise Unsupported('instruction %s' % op)
        self.val[i] = v
        return None

    def opty(self, o):
        if o[0] == 'v':
            n = o[1]
            if n < len(self.fn['params']):
                return self.fn['params'][n]['ty']
            for b in self.fn['blocks']:
                for x in b:
                    if x['id'] == n:
                        return x['ty']
        return None

    def ufn(self, name, a):
        c = self.c
        return c.apply('uf:' + name, lambda *t: c.uf(name, *t), *a)

    def intop(self, op, a, ty):
        c = self.c
        bits = int(ty[1:]) if ty.startswith('i') and ty[1:].isdigit() else 64

        def f(x, y):
            if op == 'lshr' and x.const is None and y.const is not None and y.const % 8 == 0 and c.ufdef.get(x.fp, ('',))[0].startswith('pack:'):
                q = int(y.const) // 8
                return self.piece(x, q, bits // 8 - q, bits // 8, True)
            if x.const is not None and y.const is not None and x.const.denominator == 1 and y.const.denominator == 1:
                p, q = int(x.const), int(y.const)
                mask = (1 << bits) - 1
                if op == 'and':
                    r = p & q
                elif op == 'or':
                    r = p | q
                elif op == 'xor':
                    r = p ^ q
                elif op == 'lshr':
                    r = (p & mask) >> q
                elif op == 'ashr':
                    r = p >> q
                elif q == 0:
                    return c.BOT
                elif op == 'udiv':
                    r = (p & mask) // (q & mask)
                elif op == 'urem':
                    r = (p & mask) % (q & mask)
                elif op == 'sdiv':
                    r = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
                else:
                    r = abs(p) % abs(q) * (1 if p >= 0 else -1)
                return c.const(r)
            if op in ('and', 'or', 'xor'):
                if op == 'and' and (x.const == 0 or y.const == 0):
                    return c.zero
                if op in ('or', 'xor') and x.const == 0:
                    return y
                if op in ('or', 'xor') and y.const == 0:
                    return x
                if repr(x.fp) > repr(y.fp):
                    x, y = y, x
            if op in ('udiv', 'sdiv', 'lshr', 'ashr') and y.const is not None:
                q = int(y.const) if op in ('udiv', 'sdiv') else 1 << int(y.const)
                return c.uf('idiv', x, c.const(q))
            return c.uf(op, x, y)
        return c.apply('int:%s%d' % (op, bits), f, *a)

    def compare(self, pred, a):
        c = self.c
        p = pred
        if p in ('true', 'false'):
            return c.one if p == 'true' else c.zero
        if p in ('ord', 'uno'):
            return c.one if p == 'ord' else c.zero        # values are numbers (no NaN)
        if p[0] in 'ou' and p[1:] in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') and len(p) == 3:
            if p[0] == 'u' and p[1:] in ('lt', 'le', 'gt', 'ge'):
                # unsigned integer or unordered float compare; with a constant bound decompose
                r = self.ucmp(p[1:], a)
                return r
            return c.cmp(p[1:], a[0], a[1])
        if p[0] == 's' and len(p) == 3:
            return c.cmp(p[1:], a[0], a[1])
        if p in ('eq', 'ne'):
            return c.cmp(p, a[0], a[1])
        raise Unsupported('predicate ' + p)

    def ucmp(self, p, a):
        c = self.c
        r = c.cmp(p, a[0], a[1])
        if not self.uint:
            return r
        # integers: a negative number stands for one above all nonnegative ones
        na, nb = c.cmp('lt', a[0], c.zero), c.cmp('lt', a[1], c.zero)
        if na is c.zero and nb is c.zero:
            return r
        low = c.one if p in ('lt', 'le') else c.zero
        return c.ite(na, c.ite(nb, r, c.one if low is c.zero else c.zero), c.ite(nb, low, r))

    def call(self, ins):
        c = self.c
        i = ins['id']
        callee = ins.get('callee')
        if callee is None:
            v = self.opval(ins['callee_v']) if ins['callee_v'][0] != 'other' else c.BOT
            ls = [t for t in c.leaves(v) if t is not c.BOT]
            b = c.ptr.get(ls[0].fp) if len(ls) == 1 and isinstance(ls[0], Term) else None
            if b and b[1] == 0 and b[0][0] == '@' and b[0][1:] in self.mod['functions']:
                callee = b[0][1:]
        if callee is None:
            return self.effect('indirect', [v] + [self.opval(o) for o in ins['ops']], ins)
        if callee.startswith(PFX):
            base = callee
            if any(base.startswith(x) for x in ('llvm.lifetime', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.dbg', 'llvm.invariant',
                                                'llvm.prefetch', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.donothing', 'llvm.trap')):
                if 'trap' in base:
                    return 'dead'
                return None
            a = [self.opval(o) for o in ins['ops']]
            if base.startswith('llvm.memcpy') or base.startswith('llvm.memmove'):
                self.memcpy(a[0], a[1], a[2])
                return None
            if base.startswith('llvm.memset'):
                self.memset(a[0], a[1], a[2])
                return None
            if base.startswith('llvm.sqrt'):
                self.val[i] = c.apply('sqrt', c.t_sqrt, a[0])
                return None
            if base.startswith('llvm.fabs'):
                self.val[i] = c.apply('fabs', c.t_fabs, a[0])
                return None
            if base.startswith('llvm.abs.'):
                self.val[i] = c.apply('fabs', c.t_fabs, a[0])
                return None
            if base.startswith('llvm.fmuladd') or base.startswith('llvm.fma.'):
                self.val[i] = c.add(c.mul(a[0], a[1]), a[2])
                return None
            c.fmode = base.startswith(('llvm.minnum', 'llvm.maxnum', 'llvm.minimum', 'llvm.maximum'))
            if base.startswith(('llvm.minnum', 'llvm.smin', 'llvm.umin', 'llvm.minimum')):
                self.uint = 'umin' in base
                self.val[i] = c.ite(self.ucmp('lt', a), a[0], a[1])
                c.fmode = False
                return None
            if base.startswith(('llvm.maxnum', 'llvm.smax', 'llvm.umax', 'llvm.maximum')):
                self.uint = 'umax' in base
                self.val[i] = c.ite(self.ucmp('gt', a), a[0], a[1])
                c.fmode = False
                return None
            c.fmode = False
            if base.startswith('llvm.expect'):
                self.val[i] = a[0]
                return None
            self.val[i] = self.ufn(base.split('.')[1], a)
            return None
        if callee in ('sqrt', 'sqrtf'):
            self.val[i] = c.apply('sqrt', c.t_sqrt, self.opval(ins['ops'][0]))
            return None
        if callee in ('fabs', 'fabsf'):
            self.val[i] = c.apply('fabs', c.t_fabs, self.opval(ins['ops'][0]))
            return None
        a = None
        dem = self.mod['functions'].get(callee, {}).get('dem', callee)
        ign = self.opts.get('ignore')
        if ign and ign(dem):
            if ins['ty'] != 'void':
                self.val[i] = c.uf('ignored', c.const(0))
            return None
        if callee == '__assert_fail' or callee == '_ZSt9terminatev' or callee == 'abort':
            return 'dead'
        if callee == '__cxa_throw':
            if ins.get('caught'):
                raise Unsupported('an exception that the library handles itself')
            if ins['ops'][1][0] == 'g':
                self.thrown = ins['ops'][1][1]
                return 'throw'
            v = self.opval(ins['ops'][1])
            ls = [t for t in c.leaves(v) if t is not c.BOT]
            if not all(isinstance(t, Term) and t.fp in c.ptr for t in ls):
                raise Unsupported('exception of unknown type')
            for t in ls:
                cd = self.land(self.cond, c.apply('is%d' % t.i, lambda u: c.one if u is t else c.zero, v))
                if cd is not c.zero:
                    self.finals.append((cd, c.obj(('exit', c.ptr[t.fp][0].lstrip('@'))), self.tr, self.mem))
            return 'dead'
        if ins.get('noreturn'):
            if ins.get('caught'):
                raise Unsupported('an exception that the library handles itself')
            self.thrown = dem
            return 'throw'
        a = [self.opval(o) for o in ins['ops']]
        for rx, spec in self.opts.get('summary', ()):
            if rx.search(dem):
                c.contract_calls += 'ref_' not in dem
                return self.summary(rx.pattern, spec(dem), a)
        if callee in PURE1 | PURE2 or ins.get('readnone') or callee.startswith('pure_') or self.opts.get('pure', lambda n, d: False)(callee, dem):
            v = self.ufn(self.opts.get('rename', {}).get(callee, callee), a)
            if callee.startswith('pure_nn_'):
                def g(t):
                    t.nonneg = True
                    return t
                v = c.apply('nn', g, v)
            if ins['ty'] == 'i1':
                v = c.ob(v)
            if ins['ty'] != 'void':
                self.val[i] = v
            return None
        if callee.startswith('cst_'):
            # constant extern providers: distinct opaque value per function
            self.val[i] = c.atomterm(callee)
            return None
        if callee in ('_Znwm', '_Znam'):
            b = 'allocah%d' % self.root.nheap
            self.root.nheap += 1
            self.allocas.add(b)
            self.val[i] = c.pointer(b, 0)
            return None
        if callee in ('_ZdlPv', '_ZdlPvm', '_ZdaPv'):
            return None
        if self.opts.get('calls') and not callee.startswith('eff_') and 'blocks' in self.mod['functions'].get(callee, {}):
            return self.subcall(callee, a, ins)
        return self.effect(self.opts.get('rename', {}).get(callee, callee), a, ins)

    def subcall(self, callee, a, ins):
        """call of a function that was not inlined: analysed in place, in the caller's state"""
        c = self.c
        if self.depth > 30:
            raise Unsupported('depth of calls at %s' % self.mod['functions'][callee]['dem'])
        sub = Func(c, self.mod, callee, self.opts, parent=self, args=a).run()
        thrown = [f for f in sub.finals if isinstance(f[1], Obj) and f[1].key[0] == 'exit']
        rets = [f for f in sub.finals if f not in thrown]
        if thrown and ins.get('caught'):
            raise Unsupported('an exception that the library handles itself')
        self.finals += thrown
        if not rets:
            return 'dead'
        es = [(None, cd, m, q, r) for cd, r, q, m in rets]
        self.mem, self.tr = self.merge(es)
        own = '~' + sub.suffix[1:]
        self.mem = dict((k, v) for k, v in self.mem.items() if not str(k[0]).endswith(own))
        cond = c.zero
        for e in es:
            cond = c.ite(cond, c.one, e[1])
        self.cond = cond
        if ins['ty'] != 'void':
            v = c.BOT
            for e in es:
                v = c.ite(e[1], e[4], v)
            self.val[ins['id']] = v
            if len(sub.retagg) == len(rets):
                ag = {}
                for k in sub.retagg[0][1]:
                    x = c.BOT
                    for cd, g in sub.retagg:
                        x = c.ite(cd, g.get(k, c.BOT), x)
                    ag[k] = x
                self.agg[ins['id']] = ag
        return None

    def summary(self, name, spec, a):
        """call of a function with a contract of its own: an unknown function of the numbers its arguments point to.
        spec: (n results written to argument 0, counts of doubles read from the other arguments, first symmetric argument or None,
        number of leading results that are copies of the leading inputs)"""
        c = self.c
        nout, ins, sym, copies = spec
        vals = []
        for p, n in zip(a[1:], ins):
            vals += [self.load(c.add(p, c.const(8 * k)), 8, 'double') for k in range(n)]

        def f(k):
            def g(*ts):
                gs, pos = [], 0
                for n in ins:
                    gs.append(ts[pos:pos + n])
                    pos += n
                if sym is not None:
                    gs[sym:] = sorted(gs[sym:], key=lambda q: [str(t.fp) for t in q])
                return c.uf('%s#%d' % (name, k), *[t for q in gs for t in q])
            return g
        for k in range(nout):
            r = f(k)
            self.store(c.add(a[0], c.const(8 * k)), vals[k] if k < copies else c.apply('sum:%s#%d' % (name, k), r, *vals), 8, 'double')
        return None

    def memset(self, p, v, n):
        c = self.c
        if not (isinstance(n, Term) and n.const is not None and isinstance(v, Term)):
            raise Unsupported('memset')
        n = int(n.const)
        o = 0
        while o < n:
            sz = 8 if n - o >= 8 else (4 if n - o >= 4 else 1)
            val = c.zero if v.const == 0 else c.uf('bytes', v)
            self.store(c.add(p, c.const(o)), val, sz)
            o += sz

    def effect(self, name, a, ins):
        """externally visible call: appended to the guarded call sequence"""
        c = self.c
        if not name.startswith('eff_') and not self.opts.get('allow_effect', lambda n: False)(name):
            raise Unsupported('call to %s in %s' % (self.mod['functions'].get(name, {}).get('dem', name), self.fn['dem']))
        ret_ty = ins['ty']
        self.ncalls += 1

        def f(tr, *ts):
            return c.obj(tr.key + ((name,) + tuple(t.fp if isinstance(t, Term) else t.key for t in ts),))
        g = c.apply('eff', f, self.tr, *a) if not a else c.apply('eff:%s' % name, f, self.tr, *a)
        if ret_ty != 'void':
            nm = 'res:%s' % name

            def r(tr, *ts):
                # the value returned by the k-th call of this function with these arguments
                key = (name,) + tuple(t.fp for t in ts)
                k = sum(1 for e in tr.key[1:] if e == key)
                return c.uf(nm, c.const(k), *ts)
            v = c.apply(nm, r, self.tr, *a)
            if ret_ty == 'i1':
                v = c.ob(v)
            self.val[ins['id']] = v
        self.tr = g
        return None


def compare(ctx, fp, fr, outs='all'):
    """compare the analyses of two functions; list of differences"""
    res = []
    for what, x, y in (('result', fp.ret, fr.ret), ('call sequence', fp.trace, fr.trace)):
        d = ctx.diff(x, y)
        if d is not None:
            res.append((what,) + d)
    # function-local statics and their guards, and memory owned by diagnostics, are not part of the observable result
    keys = set(k for k in set(fp.out) | set(fr.out) if not str(k[0]).startswith(('@_ZGV', '@_ZZ', 'dyn:ignored(')))
    if outs != 'all':
        keys = set(k for k in keys if k[0] in outs)
    for k in sorted(keys, key=str):
        x = fp.out.get(k)
        y = fr.out.get(k)
        if x is None:
            x = fp.initial(k, 8)
        if y is None:
            y = fr.initial(k, 8)
        d = ctx.diff(x, y)
        if d is not None:
            res.append(('memory %s+%d' % k,) + d)
    for what, path, x, y in res:
        # values cut into bytes are not modelled further: no difference is claimed on their account
        if any('piece:' in t or 'pack:' in t or 'allocah' in t for t in [ctx.show(x), ctx.show(y)] + [ctx.atoms[a].desc for a, _ in path]):
            raise Unsupported('bytes of a value')
    return res


def explain(ctx, diff):
    what, path, x, y = diff
    w = {-1: '<0', 0: '=0', 1: '>0'}
    cond = " and ".join("%s %s" % (ctx.atoms[a].desc[:int(os.environ.get("VG_DL","120"))], w[s]) for a, s in path)
    if isinstance(x, Obj) and isinstance(y, Obj) and what == 'call sequence':
        ev = lambda e: '%s(%s)' % (e[0], ', '.join(ctx.show(ctx.terms[a]) if a in ctx.terms else str(a) for a in e[1:])) if isinstance(e, tuple) else str(e)
        k = next((k for k, (p, q) in enumerate(zip(x.key, y.key)) if p != q), min(len(x.key), len(y.key)))
        return '%s differs%s: call %d is %s ; required %s' % (what, (' when ' + cond) if cond else '', k, ev(x.key[k]) if k < len(x.key) else 'missing', ev(y.key[k]) if k < len(y.key) else 'none')
    return '%s differs%s: library gives %s ; required %s' % (what, (' when ' + cond) if cond else '', ctx.show(x), ctx.show(y))
