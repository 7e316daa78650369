"""Abstract scalars.

A scalar abstract value is one of
  * a Python int                        (a constant; booleans are 0 / 1)
  * a Lin                               (a linear form over value atoms)
  * a Node                              (a decision diagram whose terminals are ints / Lins)

An atom stands for a program input, or for a value the domain cannot expand (a remainder,
a relational predicate, the result of an opaque operation).  Atoms have lazily created bits,
which are the variables of the decision diagrams, so masks, shifts, byte splits and comparisons
with constants all have a canonical form.  Everything is hash-consed: equality of abstract
values is identity of the normal form.  No solver is involved anywhere.
"""
from fractions import Fraction
import random
import time


class Undecided(Exception):
    """The abstraction has no answer here."""


# --------------------------------------------------------------------------- nodes
class Node:
    __slots__ = ('var', 'lo', 'hi', 'h')

    def __init__(self, var, lo, hi):
        self.var = var
        self.lo = lo
        self.hi = hi
        self.h = hash((var, _k(lo), _k(hi)))

    def __hash__(self):
        return self.h

    def __repr__(self):
        return 'DD(%s)' % show(self, 3)


def _k(x):
    return x if type(x) is int else id(x) if type(x) is Node else x


_unique = {}
_memo = {}
VARS = []        # var index -> ('bit', atom, k) | ('pred', key)
_predvar = {}


def mk(var, lo, hi):
    if lo is hi or (type(lo) is not Node and type(hi) is not Node and type(lo) is type(hi) and lo == hi):
        return lo
    key = (var, _k(lo), _k(hi))
    n = _unique.get(key)
    if n is None:
        n = Node(var, lo, hi)
        _unique[key] = n
        METER.left -= 1
        if METER.left < 0:
            METER.tick()
    return n


class Meter:
    """bounds the work on one abstract execution and on the whole check: beyond them the answer is `undecided`"""
    STEP = 20000

    def __init__(self):
        self.left = self.STEP
        self.deadline = None        # of the whole check
        self.until = None           # of the current execution
        self.seconds = 120
        self.memory = 6 << 30       # bytes
        self.nodes = 0
        self.nlimit = 3000000       # new diagram nodes per execution
        self.over = None
        self.seen = 0

    def begin(self):
        now = time.monotonic()
        self.until = now + self.seconds
        self.nodes = 0
        self.left = self.STEP
        if self.over and not self.over.startswith('check'):
            self.over = None
        self.look()

    def end(self):
        self.until = None
        if self.over and not self.over.startswith('check'):
            self.over = None

    def look(self):
        if self.over:
            raise Undecided(self.over)
        now = time.monotonic()
        if now > self.seen + 0.5:
            self.seen = now
            if rss() > self.memory:
                self.over = 'check: out of memory'
        if self.over:
            pass
        elif self.deadline is not None and now > self.deadline:
            self.over = 'check: out of time'
        elif self.until is not None and now > self.until:
            self.over = 'out of time'
        elif self.until is not None and self.nodes > self.nlimit:
            self.over = 'diagrams too large'
        if self.over:
            raise Undecided(self.over)

    def tick(self):
        self.left = self.STEP
        self.nodes += self.STEP
        if rss() > self.memory:
            self.over = 'check: out of memory'
            raise Undecided(self.over)
        self.look()


def rss():
    with open('/proc/self/statm') as f:
        return int(f.read().split()[1]) * 4096


METER = Meter()


class Lin:
    """const + sum(coef * atom); terms sorted by atom id."""
    __slots__ = ('c', 't', 'h')

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self.h = hash((c, t))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return type(o) is Lin and self.h == o.h and self.c == o.c and self.t == o.t

    def __ne__(self, o):
        return not self.__eq__(o)

    def __repr__(self):
        out = []
        for a, k in self.t:
            nm = ATOMS[a].name
            out.append(nm if k == 1 else '%s*%s' % (k, nm))
        if self.c or not out:
            out.append(str(self.c))
        return '+'.join(out)


def _num(x):
    if isinstance(x, Fraction):
        if x.denominator == 1:
            return int(x)
    return x


def lin(c, terms):
    t = tuple(sorted((a, _num(k)) for a, k in terms.items() if k != 0))
    c = _num(c)
    if not t:
        if isinstance(c, Fraction):
            raise Undecided('fractional constant')
        return c
    return Lin(c, t)


# --------------------------------------------------------------------------- atoms
class Atom:
    __slots__ = ('id', 'name', 'lo', 'hi', 'kind', 'args', '_bits', 'unk', 'bases')

    def width(self):
        if self.lo >= 0:
            return max(1, self.hi.bit_length())
        m = max(self.hi, -self.lo - 1)
        return m.bit_length() + 1

    def bits(self):
        """own two's complement / unsigned bits, LSB first."""
        if self._bits is None:
            w = self.width()
            bs = [None] * w
            for k in range(w - 1, -1, -1):
                bs[k] = mk(newvar(('bit', self.id, k)), 0, 1)
            self._bits = tuple(bs)
        return self._bits

    def __repr__(self):
        return self.name


ATOMS = []
_atomkey = {}


def newvar(info):
    VARS.append(info)
    return len(VARS) - 1


def atom(name, lo, hi, kind='in', args=(), key=None, unk=False, bits=None):
    """intern an atom; returns the atom."""
    key = key if key is not None else (kind, name, args)
    a = _atomkey.get(key)
    if a is not None:
        return a
    a = Atom()
    a.id = len(ATOMS)
    a.name = name
    a.lo = lo
    a.hi = hi
    a.kind = kind
    a.args = args
    a._bits = bits
    a.unk = unk
    a.bases = None
    ATOMS.append(a)
    _atomkey[key] = a
    return a


def A(a):
    if a.lo == a.hi:
        return a.lo
    return Lin(0, ((a.id, 1),))


def var(name, lo, hi):
    """an input atom as a scalar."""
    return A(atom(name, lo, hi))


def uvar(name, w):
    return var(name, 0, (1 << w) - 1)


_unk = [0]


def fresh_unknown(why, lo=0, hi=(1 << 64) - 1):
    _unk[0] += 1
    return A(atom('?%d:%s' % (_unk[0], why), lo, hi, kind='unk', key=('unk', _unk[0]), unk=True))


def pred(key):
    v = _predvar.get(key)
    if v is None:
        v = newvar(('pred', key))
        _predvar[key] = v
    return mk(v, 0, 1)


def domain(x):
    """constraint that a (single-atom) scalar lies in its range, as a condition."""
    if type(x) is int:
        return 1
    a = ATOMS[x.t[0][0]]
    w = a.width()
    if a.lo == 0 and a.hi == (1 << w) - 1:
        return 1
    if a.lo < 0 and a.lo == -(1 << (w - 1)) and a.hi == (1 << (w - 1)) - 1:
        return 1
    return band(bits_cmp_const(a, 'le', a.hi), bnot(bits_cmp_const(a, 'le', a.lo - 1)))


# --------------------------------------------------------------------------- DD algebra
def isnode(x):
    return type(x) is Node


def apply1(name, f, a):
    if type(a) is not Node:
        return f(a)
    key = (name, id(a))
    r = _memo.get(key)
    if r is None:
        r = ite_var(a.var, apply1(name, f, a.lo), apply1(name, f, a.hi))
        _memo[key] = (r, a)
        return r
    return r[0]


def ite_var(v, lo, hi):
    """node with test v; lo/hi may contain smaller variables (results of arbitrary ops)."""
    if lo is hi:
        return lo
    tl = topvar(lo)
    th = topvar(hi)
    if v < tl and v < th:
        return mk(v, lo, hi)
    return ite(mk(v, 0, 1), hi, lo)


INF = 1 << 60


def topvar(x):
    return x.var if type(x) is Node else INF


def cof(x, v):
    if type(x) is Node and x.var == v:
        return x.lo, x.hi
    return x, x


def apply2(name, f, a, b):
    if type(a) is not Node and type(b) is not Node:
        return f(a, b)
    key = (name, _k(a), _k(b))
    r = _memo.get(key)
    if r is not None:
        return r[0]
    v = min(topvar(a), topvar(b))
    a0, a1 = cof(a, v)
    b0, b1 = cof(b, v)
    r = ite_var(v, apply2(name, f, a0, b0), apply2(name, f, a1, b1))
    _memo[key] = (r, a, b)
    return r


def bnot(a):
    if type(a) is int and a == 0:
        return 1
    if type(a) is int:
        return 0
    key = ('not', id(a))
    r = _memo.get(key)
    if r is None:
        r = mk(a.var, bnot(a.lo), bnot(a.hi))
        _memo[key] = (r, a)
        return r
    return r[0]


def band(a, b):
    if type(a) is int:
        return b if a else 0
    if type(b) is int:
        return a if b else 0
    if a is b:
        return a
    if id(a) > id(b):
        a, b = b, a
    key = ('and', id(a), id(b))
    r = _memo.get(key)
    if r is not None:
        return r[0]
    v = min(a.var, b.var)
    a0, a1 = cof(a, v)
    b0, b1 = cof(b, v)
    r = mk(v, band(a0, b0), band(a1, b1))
    _memo[key] = (r, a, b)
    return r


def bor(a, b):
    if type(a) is int:
        return 1 if a else b
    if type(b) is int:
        return 1 if b else a
    if a is b:
        return a
    if id(a) > id(b):
        a, b = b, a
    key = ('or', id(a), id(b))
    r = _memo.get(key)
    if r is not None:
        return r[0]
    v = min(a.var, b.var)
    a0, a1 = cof(a, v)
    b0, b1 = cof(b, v)
    r = mk(v, bor(a0, b0), bor(a1, b1))
    _memo[key] = (r, a, b)
    return r


def bxor(a, b):
    return ite(a, bnot(b), b)


def biff(a, b):
    return ite(a, b, bnot(b))


def ite(c, a, b):
    """c ? a : b with arbitrary terminals."""
    if type(c) is int:
        return a if c else b
    if a is b or (type(a) is not Node and type(b) is not Node and type(a) is type(b) and a == b):
        return a
    key = ('ite', id(c), _k(a), _k(b))
    r = _memo.get(key)
    if r is not None:
        return r[0]
    v = min(c.var, topvar(a), topvar(b))
    c0, c1 = cof(c, v)
    a0, a1 = cof(a, v)
    b0, b1 = cof(b, v)
    r = mk(v, ite(c0, a0, b0), ite(c1, a1, b1))
    _memo[key] = (r, c, a, b)
    return r


def restrict(f, c):
    """f simplified on the care set c (agrees with f wherever c holds)."""
    if type(f) is not Node or type(c) is int:
        return f
    key = ('restr', id(f), id(c))
    r = _memo.get(key)
    if r is not None:
        return r[0]
    if c.var < f.var:
        if type(c.lo) is int and c.lo == 0:
            r = restrict(f, c.hi)
        elif type(c.hi) is int and c.hi == 0:
            r = restrict(f, c.lo)
        else:
            r = restrict(f, bor(c.lo, c.hi))
    else:
        c0, c1 = cof(c, f.var)
        if type(c0) is int and c0 == 0:
            r = restrict(f.hi, c1)
        elif type(c1) is int and c1 == 0:
            r = restrict(f.lo, c0)
        else:
            r = mk(f.var, restrict(f.lo, c0), restrict(f.hi, c1))
    _memo[key] = (r, f, c)
    return r


def size(f, limit=100000):
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if type(x) is Node and id(x) not in seen:
            seen.add(id(x))
            if len(seen) > limit:
                return len(seen)
            st.append(x.lo)
            st.append(x.hi)
    return len(seen)


def terminals(f):
    """[(terminal, condition)]"""
    if type(f) is not Node:
        return [(f, 1)]
    key = ('terms', id(f))
    r = _memo.get(key)
    if r is not None:
        return r[0]
    acc = {}
    for sub, sign in ((f.lo, 0), (f.hi, 1)):
        lit = mk(f.var, 1, 0) if sign == 0 else mk(f.var, 0, 1)
        for t, c in terminals(sub):
            kk = (type(t) is int, t)
            acc[kk] = bor(acc.get(kk, 0), band(lit, c))
    r = [(t, c) for (_, t), c in acc.items()]
    _memo[key] = (r, f)
    return r


def termset(f):
    seen = set()
    out = set()
    st = [f]
    while st:
        x = st.pop()
        if type(x) is Node:
            if id(x) not in seen:
                seen.add(id(x))
                st.append(x.lo)
                st.append(x.hi)
        else:
            out.add(x)
    return out


def support(f):
    seen = set()
    out = set()
    st = [f]
    while st:
        x = st.pop()
        if type(x) is Node and id(x) not in seen:
            seen.add(id(x))
            out.add(x.var)
            st.append(x.lo)
            st.append(x.hi)
    return out


def show(f, depth=4):
    if type(f) is not Node:
        return str(f)
    if depth == 0:
        return '...'
    i = VARS[f.var]
    nm = '%s.%d' % (ATOMS[i[1]].name, i[2]) if i[0] == 'bit' else str(i[1])
    return '(%s ? %s : %s)' % (nm, show(f.hi, depth - 1), show(f.lo, depth - 1))


# --------------------------------------------------------------------------- linear arithmetic
def _ladd(a, b):
    ta = type(a)
    tb = type(b)
    if ta is int and tb is int:
        return a + b
    if ta is int:
        if a == 0:
            return b
        return Lin(_num(b.c + a), b.t)
    if tb is int:
        if b == 0:
            return a
        return Lin(_num(a.c + b), a.t)
    d = dict(a.t)
    for k, v in b.t:
        d[k] = d.get(k, 0) + v
    return lin(a.c + b.c, d)


def _lscale(a, k):
    if type(a) is int:
        r = a * k
        return _num(r) if isinstance(r, Fraction) else r
    if k == 0:
        return 0
    return lin(a.c * k, {x: v * k for x, v in a.t})


def _lsub(a, b):
    return _ladd(a, _lscale(b, -1))


def add(a, b):
    return apply2('add', _ladd, a, b)


def sub(a, b):
    return apply2('sub', _lsub, a, b)


def scale(a, k):
    return apply1(('scale', k), lambda x: _lscale(x, k), a)


def _lmul(a, b):
    if type(a) is int:
        return _lscale(b, a)
    if type(b) is int:
        return _lscale(a, b)
    k = tuple(sorted([a, b], key=lambda z: (z.t, z.c)))
    (l1, h1), (l2, h2) = interval(a), interval(b)
    ps = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
    return A(atom('(%r*%r)' % k, min(ps), max(ps), kind='mul', args=k))


def mul(a, b):
    return apply2('mul', _lmul, a, b)


def interval(x):
    if type(x) is int:
        return (x, x)
    if type(x) is Node:
        lo = hi = None
        for t in termset(x):
            l, h = interval(t)
            lo = l if lo is None else min(lo, l)
            hi = h if hi is None else max(hi, h)
        return lo, hi
    lo = hi = x.c
    for a, k in x.t:
        at = ATOMS[a]
        if k > 0:
            lo += k * at.lo
            hi += k * at.hi
        else:
            lo += k * at.hi
            hi += k * at.lo
    return lo, hi


# --------------------------------------------------------------------------- bits
def bits_cmp_const(a, op, k):
    """condition (atom a) <= k   or == k, from the atom's bits."""
    bs = a.bits()
    w = len(bs)
    if a.lo < 0:
        # signed: flip sign bit
        if op == 'le':
            if k < -(1 << (w - 1)):
                return 0
            if k >= (1 << (w - 1)) - 1:
                return 1
        u = (k + (1 << (w - 1)))
        bs = bs[:-1] + (bnot(bs[-1]),)
        if op == 'eq' and not (0 <= u < (1 << w)):
            return 0
        k = u
    else:
        if op == 'le':
            if k < 0:
                return 0
            if k >= (1 << w) - 1:
                return 1
        elif not (0 <= k < (1 << w)):
            return 0
    if op == 'eq':
        c = 1
        for i in range(w):
            c = band(c, bs[i] if (k >> i) & 1 else bnot(bs[i]))
        return c
    c = 1
    for i in range(w):
        if (k >> i) & 1:
            c = bor(bnot(bs[i]), c)
        else:
            c = band(bnot(bs[i]), c)
    return c


def _le0(x):
    """x <= 0 for a terminal."""
    if type(x) is int:
        return 1 if x <= 0 else 0
    lo, hi = interval(x)
    if hi <= 0:
        return 1
    if lo > 0:
        return 0
    if len(x.t) == 1:
        (a, k), = x.t
        at = ATOMS[a]
        # k*a + c <= 0
        if k > 0:
            q = -x.c / Fraction(k)
            n = q.numerator // q.denominator
            if n >= at.hi:
                return 1
            if n < at.lo:
                return 0
            return bits_cmp_const(at, 'le', n)
        q = Fraction(-x.c) / k      # a >= q
        n = -((-q.numerator) // q.denominator)
        if n <= at.lo:
            return 1
        if n > at.hi:
            return 0
        return bnot(bits_cmp_const(at, 'le', n - 1))
    d = _small(x)
    if d is not None:
        return apply1('le0', _le0, d)
    # normalise: integer coefs, gcd 1; use not(le0(1-x)) form so that x<=0 and x>0 share a variable
    x = _intnorm(x)
    if x.t[0][1] < 0:
        # x <= 0  <=>  not (1 - x <= 0)
        y = _ladd(_lscale(x, -1), 1)
        return bnot(pred(('le0', y)))
    return pred(('le0', x))


def _intnorm(x):
    from math import gcd
    den = 1
    for _, k in x.t:
        if isinstance(k, Fraction):
            den = den * k.denominator // gcd(den, k.denominator)
    if isinstance(x.c, Fraction):
        den = den * x.c.denominator // gcd(den, x.c.denominator)
    if den != 1:
        x = lin(x.c * den, {a: k * den for a, k in x.t})
    g = 0
    for _, k in x.t:
        g = gcd(g, abs(k))
    if g > 1:
        # sum(g*k'*a) + c <= 0  <=> sum(k'a) <= floor(-c/g)
        c = -((-x.c) // g)
        x = lin(c, {a: k // g for a, k in x.t})
    return x


def _eq0(x):
    if type(x) is int:
        return 1 if x == 0 else 0
    lo, hi = interval(x)
    if lo > 0 or hi < 0:
        return 0
    if len(x.t) == 1:
        (a, k), = x.t
        at = ATOMS[a]
        q = Fraction(-x.c) / k
        if q.denominator != 1:
            return 0
        n = q.numerator
        if n < at.lo or n > at.hi:
            return 0
        return bits_cmp_const(at, 'eq', n)
    d = _small(x)
    if d is not None:
        return apply1('eq0', _eq0, d)
    # integer normalisation for equality
    from math import gcd
    den = 1
    for k in [k for _, k in x.t] + [x.c]:
        if isinstance(k, Fraction):
            den = den * k.denominator // gcd(den, k.denominator)
    if den != 1:
        x = lin(x.c * den, {a: k * den for a, k in x.t})
    g = 0
    for _, k in x.t:
        g = gcd(g, abs(k))
    if x.c % g:
        return 0
    if g > 1:
        x = lin(x.c // g, {a: k // g for a, k in x.t})
    if x.t[0][1] < 0:
        x = _lscale(x, -1)
    d = _byteeq(x)
    if d is not None:
        return d
    return pred(('eq0', x))


def _byteeq(x):
    """a = b, bit by bit, when one of the two atoms is built from bits"""
    if x.c != 0 or len(x.t) != 2 or abs(x.t[0][1]) != 1 or x.t[0][1] != -x.t[1][1]:
        return None
    p = ATOMS[x.t[0][0]]
    q = ATOMS[x.t[1][0]]
    if p.kind != 'bits' and q.kind != 'bits':
        return None
    n = max(p.width(), q.width())
    if p.lo < 0 or q.lo < 0:
        n += 1
    u = _ext(tuple(p.bits()), n, p.lo < 0)
    v = _ext(tuple(q.bits()), n, q.lo < 0)
    r = 1
    for a, b in zip(u, v):
        r = band(r, biff(a, b))
        if type(r) is int and r == 0:
            return 0
        if size(r, 3000) >= 3000:
            return None
    return r


def _small(x):
    """expand a Lin over atoms with few bits (<= 6 in total) into a diagram of constants."""
    n = 0
    for a, _ in x.t:
        at = ATOMS[a]
        if at.hi - at.lo > 15:
            return None
        n += at.width()
        if n > 7:
            return None
    r = x.c
    for a, k in x.t:
        r = add(r, scale(expand(a), k))
    return r


def expand(aid):
    """atom as a diagram of constants."""
    at = ATOMS[aid]
    bs = at.bits()
    key = ('expand', aid)
    r = _memo.get(key)
    if r is not None:
        return r[0]
    acc = 0
    w = len(bs)
    for i, b in enumerate(bs):
        wgt = (1 << i) if not (at.lo < 0 and i == w - 1) else -(1 << i)
        acc = add(acc, ite(b, wgt, 0))
    _memo[key] = (acc,)
    return acc


def eq(a, b):
    return apply1('eq0', _eq0, sub(a, b))


def le(a, b):
    return apply1('le0', _le0, sub(a, b))


def lt(a, b):
    return apply1('le0', _le0, add(sub(a, b), 1))


def to_bits(x, w):
    """x mod 2^w as w conditions, LSB first."""
    if type(x) is int:
        return tuple((x >> i) & 1 for i in range(w))
    if type(x) is Node:
        key = ('tobits', id(x), w)
        r = _memo.get(key)
        if r is None:
            b0 = to_bits(x.lo, w)
            b1 = to_bits(x.hi, w)
            c = mk(x.var, 0, 1)
            r = (tuple(ite(c, p, q) for p, q in zip(b1, b0)), x)
            _memo[key] = r
        return r[0]
    key = ('ltobits', x, w)
    r = _memo.get(key)
    if r is not None:
        return r
    r = _lin_bits(x, w)
    _memo[key] = r
    # reading the same bits back gives the same linear form
    lo, hi = interval(x)
    if 0 <= lo and hi < 1 << w and any(type(b) is Node for b in r):
        cut = _cutw(r, False)
        fk = ('frombits', tuple(_k(b) for b in cut), False)
        if fk not in _memo:
            _memo[fk] = (x, cut)
    return r


def _ext(bs, w, signed):
    if len(bs) >= w:
        return bs[:w]
    top = bs[-1] if signed else 0
    return bs + (top,) * (w - len(bs))


def _lin_bits(x, w):
    if len(x.t) == 1:
        (a, k), = x.t
        at = ATOMS[a]
        if k == 1 and x.c == 0:
            if at.kind == 'wrap' and at.args[0] >= w and w <= 64:
                # low bits of a wrapped sum: keep the wrap atom's own bits
                return _ext(at.bits(), w, at.lo < 0)
            return _ext(at.bits(), w, at.lo < 0)
        if isinstance(k, int) and isinstance(x.c, int):
            if k > 0 and (k & (k - 1)) == 0:
                s = k.bit_length() - 1
                bs = _ext(at.bits(), w, at.lo < 0)
                bs = ((0,) * s + bs)[:w]
                return _addc(bs, x.c, w)
            if k == -1:
                # c - a = c + ~a + 1
                bs = tuple(bnot(b) for b in _ext(at.bits(), w, at.lo < 0))
                return _addc(bs, x.c + 1, w)
    d = _small(x)
    if d is not None:
        return to_bits(d, w)
    # opaque bits of a multi-atom form (reduced mod 2^w)
    y = _reduce(x, w)
    if type(y) is int:
        return to_bits(y, w)
    at = atom('bits%d(%r)' % (w, y), 0, (1 << w) - 1, kind='wrap', args=(w, False, y))
    lo, hi = interval(x)
    bs = at.bits()
    if lo >= 0 and hi < (1 << w):
        m = max(1, hi.bit_length()) if isinstance(hi, int) else w
        bs = bs[:m] + (0,) * (w - m)
    return bs


def _addc(bs, c, w):
    """bits + constant mod 2^w."""
    c &= (1 << w) - 1
    if c == 0:
        return bs
    out = []
    carry = 0
    for i in range(w):
        k = (c >> i) & 1
        b = bs[i]
        if k:
            out.append(bnot(bxor(b, carry)))
            carry = bor(b, carry)
        else:
            out.append(bxor(b, carry))
            carry = band(b, carry)
    return tuple(out)


def _reduce(x, w):
    """integer form of x modulo 2^w with small coefficients (ring homomorphism)."""
    m = 1 << w
    h = m >> 1
    d = {}
    c = x.c
    for a, k in x.t:
        at = ATOMS[a]
        if isinstance(k, Fraction):
            return x
        if at.kind == 'wrap' and at.args[0] >= w:
            y = at.args[2]
            if type(y) is int:
                c += k * y
            else:
                c += k * y.c
                for b, q in y.t:
                    d[b] = d.get(b, 0) + k * q
        elif at.kind == 'bits' and at.lo < 0 and len(at.args) >= w:
            y = from_bits(at.args[:w])
            if type(y) is Lin and len(y.t) == 1:
                c += k * y.c
                b, q = y.t[0]
                d[b] = d.get(b, 0) + k * q
            else:
                d[a] = d.get(a, 0) + k
        else:
            d[a] = d.get(a, 0) + k
    if isinstance(c, Fraction) or any(isinstance(v, Fraction) for v in d.values()):
        return x
    f = lambda v: (v + h) % m - h
    return lin(f(c), {a: f(k) for a, k in d.items()})


def _cutw(bs, signed):
    n = len(bs)
    if signed:
        while n > 1 and bs[n - 1] is bs[n - 2]:
            n -= 1
    else:
        while n > 0 and type(bs[n - 1]) is int and bs[n - 1] == 0:
            n -= 1
    return bs[:n]


def from_bits(bs, signed=False):
    """scalar whose two's complement (signed) / unsigned bits are bs."""
    bs = tuple(bs)
    if all(type(b) is int for b in bs):
        v = sum(b << i for i, b in enumerate(bs))
        if signed and bs and bs[-1]:
            v -= 1 << len(bs)
        return v
    cut = _cutw(bs, signed)
    if not (signed and type(cut[-1]) is not int):
        if signed and type(cut[-1]) is int and cut[-1] == 0:
            cut = _cutw(cut, False)
            signed = False
    key = ('frombits', tuple(_k(b) for b in cut), signed)
    r = _memo.get(key)
    if r is not None:
        return r[0]
    r = _from_bits(cut, signed)
    _memo[key] = (r, cut)
    return r


def _from_bits(cut, signed):
    # an existing atom with exactly these bits?
    b = next(x for x in cut if type(x) is Node)
    sup0 = VARS[b.var]
    for b in reversed(cut):
        if type(b) is Node:
            i = VARS[b.var]
            if i[0] == 'bit':
                at = ATOMS[i[1]]
                own = _cutw(at.bits(), at.lo < 0)
                if (at.lo < 0) == signed and len(own) == len(cut) and all(p is q or p == q and type(p) is int and type(q) is int for p, q in zip(own, cut)):
                    return A(at)
            break
    # scaled atom (shift left by constant)?
    sh = 0
    while type(cut[sh]) is int and cut[sh] == 0:
        sh += 1
    if sh and not signed:
        inner = from_bits(cut[sh:])
        if type(inner) is Lin:
            return _lscale(inner, 1 << sh)
        if type(inner) is Node:
            return scale(inner, 1 << sh)
    # few variables: a diagram of constants
    sup = set()
    for b in cut:
        sup |= support(b)
        if len(sup) > 6:
            break
    if len(sup) <= 6:
        acc = 0
        n = len(cut)
        for i, b in enumerate(cut):
            wgt = (1 << i) if not (signed and i == n - 1) else -(1 << i)
            acc = add(acc, ite(b, wgt, 0))
        return acc
    n = len(cut)
    if signed:
        lo, hi = -(1 << (n - 1)), (1 << (n - 1)) - 1
    else:
        lo, hi = 0, (1 << n) - 1
        k = 0
    a = atom('bits[%d]#%d' % (n, len(ATOMS)), lo, hi, kind='bits', args=cut, key=('bits', tuple(_k(b) for b in cut), signed), bits=tuple(cut))
    return A(a)


def bitop(op, a, b, w, signed):
    if type(a) is int and type(b) is int:
        r = a & b if op == 'and' else a | b if op == 'or' else a ^ b
        return norm_int(r, w, signed)
    if op == 'and' and (type(a) is int) != (type(b) is int):
        # masks of low bits: exact arithmetic forms
        v, m = (b, a) if type(a) is int else (a, b)
        m &= (1 << w) - 1
        lo, hi = bounds(v)
        if 0 <= lo and hi < 1 << (w - 1 if signed else w):
            if m & (m + 1) == 0 and m and _multiples(v, m + 1):
                return rem(v, m + 1)
            n = (1 << w) - m            # m = -n
            if m and n & (n - 1) == 0 and _multiples(v, n):
                return sub(v, rem(v, n))
    x = to_bits(a, w)
    y = to_bits(b, w)
    f = band if op == 'and' else bor if op == 'or' else bxor
    return from_bits(tuple(f(p, q) for p, q in zip(x, y)), signed)


def _multiples(x, n):
    """every symbolic part of x is a multiple of n"""
    return all(type(t) is int or all(isinstance(k, int) and k % n == 0 for _, k in t.t) for t in (termset(x) if type(x) is Node else [x]))


def bounds(x):
    if type(x) is int:
        return x, x
    if type(x) is Node:
        r = [bounds(t) for t in termset(x)]
        return min(a for a, _ in r), max(b for _, b in r)
    return interval(x)


def norm_int(v, w, signed):
    v &= (1 << w) - 1
    if signed and v >> (w - 1):
        v -= 1 << w
    return v


def shl(a, k, w, signed):
    bs = to_bits(a, w)
    return from_bits(((0,) * k + bs)[:w], signed)


def shr(a, k, w, signed):
    bs = to_bits(a, w)
    top = bs[-1] if signed else 0
    return from_bits(bs[k:] + (top,) * min(k, w), signed)


def inv(a, w, signed):
    return from_bits(tuple(bnot(b) for b in to_bits(a, w)), signed)


def wrap(x, w, signed):
    """x (a mathematical integer) reduced to a w-bit integer."""
    def f(t):
        if type(t) is int:
            return norm_int(t, w, signed)
        lo, hi = interval(t)
        tlo, thi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        if tlo <= lo and hi <= thi:
            return t
        y = _reduce(t, w)
        if type(y) is int:
            return norm_int(y, w, signed)
        if len(y.t) == 1:
            return from_bits(to_bits(y, w), signed)
        lo, hi = interval(y)
        if tlo <= lo and hi <= thi:
            return y
        # canonical: the w-bit word of y, then reinterpret
        return from_bits(to_bits(y, w), signed)
    return apply1(('wrap', w, signed), f, x)


def rem(x, m):
    """x mod m for non-negative x, constant m > 0."""
    def f(t):
        if type(t) is int:
            return t % m
        lo, hi = interval(t)
        if 0 <= lo and hi < m:
            return t
        if m & (m - 1) == 0:
            s = m.bit_length() - 1
            y = _reduce(t, s) if s else 0
            if type(y) is int:
                return y % m
            # only the low bits of each atom matter
            if len(y.t) == 1:
                return from_bits(to_bits(y, s))
            if y.c:
                r0 = rem(Lin(0, y.t), m)
                if type(r0) is Node:
                    return apply1(('remadd', y.c, m), lambda q: (q + y.c) % m, r0)
            a = atom('(%r mod %d)' % (y, m), 0, m - 1, kind='rem', args=(y, m))
            return expand(a.id) if m <= 16 else A(a)
        y = lin(t.c % m, {a: (k % m if isinstance(k, int) else k) for a, k in t.t})
        if type(y) is int:
            return y % m
        a = atom('(%r mod %d)' % (y, m), 0, m - 1, kind='rem', args=(y, m))
        return A(a)
    return apply1(('rem', m), f, x)


def div(x, m):
    """floor(x / m) for non-negative x, constant m > 0."""
    if type(x) is int:
        return x // m
    if m == 1:
        return x

    def f(t):
        if type(t) is int:
            return t // m
        lo, hi = interval(t)
        if 0 <= lo and hi < m:
            return 0
        if len(t.t) == 1 and m & (m - 1) == 0 and t.c == 0 and t.t[0][1] == 1:
            s = m.bit_length() - 1
            w = ATOMS[t.t[0][0]].width()
            return None
        return None
    return scale(sub(x, rem(x, m)), Fraction(1, m))


# --------------------------------------------------------------------------- evaluation of normal forms
class Env:
    """An assignment of the input atoms; everything else is computed from its definition."""

    def __init__(self, vals, funcs=None, rnd=None):
        self.v = dict(vals)
        self.funcs = funcs or {}
        self.rnd = rnd
        self.nodes = {}

    def atom(self, aid):
        r = self.v.get(aid)
        if r is None:
            r = self._atom(aid)
            self.v[aid] = r
        return r

    def _atom(self, aid):
        a = ATOMS[aid]
        if a.kind == 'in':
            return a.lo if self.rnd is None else pick(a, self.rnd)
        if a.kind == 'rem':
            return int(self.val(a.args[0]) % a.args[1])
        if a.kind == 'wrap':
            w, s, y = a.args
            return norm_int(int(self.val(y)), w, s)
        if a.kind == 'mul':
            return self.val(a.args[0]) * self.val(a.args[1])
        if a.kind == 'bits':
            n = len(a.args)
            v = 0
            for i, b in enumerate(a.args):
                if self.val(b):
                    v += -(1 << i) if a.lo < 0 and i == n - 1 else (1 << i)
            return v
        if a.kind == 'app':
            f = self.funcs.get(a.args[0])
            if f is not None:
                return f(self, *a.args[1:])
            return a.lo if self.rnd is None else pick(a, self.rnd)
        if a.kind == 'unk':
            return a.lo if self.rnd is None else pick(a, self.rnd)
        raise Undecided('cannot evaluate ' + a.name)

    def var(self, v):
        i = VARS[v]
        if i[0] == 'bit':
            return (int(self.atom(i[1])) >> i[2]) & 1
        k = i[1]
        if k[0] == 'le0':
            return 1 if self.val(k[1]) <= 0 else 0
        if k[0] == 'eq0':
            return 1 if self.val(k[1]) == 0 else 0
        f = self.funcs.get(k[0])
        if f is not None:
            return f(self, *k[1:])
        key = ('p', v)
        if key not in self.v:
            self.v[key] = self.rnd.randint(0, 1) if self.rnd else 0
        return self.v[key]

    def val(self, x):
        while type(x) is Node:
            x = x.hi if self.var(x.var) else x.lo
        if type(x) is Lin:
            r = x.c
            for a, k in x.t:
                r += k * self.atom(a)
            return _num(r)
        return x


def pick(a, rnd):
    lo, hi = a.lo, a.hi
    c = rnd.random()
    if c < 0.15:
        return lo
    if c < 0.3:
        return hi
    if c < 0.6:
        return rnd.randint(lo, min(hi, lo + 40))
    if c < 0.8:
        w = rnd.randint(0, max(1, hi.bit_length()))
        return max(lo, min(hi, rnd.getrandbits(w) if w else 0))
    return rnd.randint(lo, hi)


def base_atoms(x, acc=None, seen=None):
    """ids of the input atoms a scalar / condition depends on, and whether an unknown occurs."""
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    unk = False
    st = [x]
    while st:
        y = st.pop()
        if type(y) is Node:
            if id(y) in seen:
                continue
            seen.add(id(y))
            st.append(y.lo)
            st.append(y.hi)
            i = VARS[y.var]
            if i[0] == 'bit':
                unk |= _atom_bases(i[1], acc, seen, st)
            else:
                k = i[1]
                if k[0] == 'unk':
                    unk = True
                for z in k[1:]:
                    if type(z) in (Lin, Node):
                        st.append(z)
        elif type(y) is Lin:
            if y in seen:
                continue
            seen.add(y)
            for a, _ in y.t:
                unk |= _atom_bases(a, acc, seen, st)
    return acc, unk


def _atom_bases(aid, acc, seen, st):
    a = ATOMS[aid]
    if ('a', aid) in seen:
        return a.unk
    seen.add(('a', aid))
    if a.kind in ('in', 'app', 'unk'):
        acc.add(aid)
    for z in a.args:
        if type(z) in (Lin, Node):
            st.append(z)
        elif type(z) is tuple:
            for q in z:
                if type(q) in (Lin, Node):
                    st.append(q)
    return a.unk


def witness(cond, rnd, care=1, tries=400, funcs=None):
    """An Env of the input atoms under which `cond` (and `care`) hold when every predicate is
    evaluated by its definition, or None."""
    c = band(cond, care)
    if type(c) is int and c == 0:
        return None
    bases, _ = base_atoms(c)
    for n in range(tries):
        vals = {}
        bitreq = {}
        x = c
        # random satisfying path of the diagram
        while type(x) is Node:
            i = VARS[x.var]
            ch = []
            if not (type(x.lo) is int and x.lo == 0):
                ch.append(0)
            if not (type(x.hi) is int and x.hi == 0):
                ch.append(1)
            pickv = rnd.choice(ch)
            if i[0] == 'bit':
                bitreq.setdefault(i[1], {})[i[2]] = pickv
            x = x.hi if pickv else x.lo
        ok = True
        for b in bases:
            a = ATOMS[b]
            v = pick(a, rnd) if a.kind != 'app' else None
            req = bitreq.get(b)
            if a.kind == 'app' and funcs and a.args[0] in funcs:
                continue
            if v is None:
                v = pick(a, rnd)
            if req:
                w = a.width()
                if a.lo < 0:
                    u = v & ((1 << w) - 1)
                else:
                    u = v
                for k, bv in req.items():
                    u = (u | (1 << k)) if bv else (u & ~(1 << k))
                if a.lo < 0 and u >> (w - 1):
                    u -= 1 << w
                v = u
                if not (a.lo <= v <= a.hi):
                    ok = False
                    break
            vals[b] = v
        if not ok:
            continue
        e = Env(vals, funcs, rnd)
        try:
            if e.val(c) == 1:
                return e
        except Undecided:
            continue
    return None


def clear_memo():
    _memo.clear()


def rename(c, src, dst):
    """condition over the bits of atom src, restated for atom dst (same width)"""
    s = ATOMS[src.t[0][0]].id
    d = ATOMS[dst.t[0][0]].bits()

    def go(x):
        if type(x) is not Node:
            return x
        i = VARS[x.var]
        if i[0] == 'bit' and i[1] == s:
            v = d[i[2]]
        else:
            v = mk(x.var, 0, 1)
        return ite(v, go(x.hi), go(x.lo))
    return go(c)
