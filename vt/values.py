"""Abstract values other than scalars.  All are immutable."""
from . import dd
from .dd import Node, Lin, Undecided

SCALARS = (int, Lin, Node)


class Agg:
    """struct / tuple / enum value.  For payload-free variants `v` may be a symbolic scalar."""
    __slots__ = ('v', 'f')

    def __init__(self, v, f):
        self.v = v
        self.f = f

    def __eq__(self, o):
        return type(o) is Agg and same(self.v, o.v) and len(self.f) == len(o.f) and all(same(a, b) for a, b in zip(self.f, o.f))

    def __hash__(self):
        return hash((self.v, len(self.f)))

    def __repr__(self):
        return '<%s%s>' % (self.v, ' ' + ', '.join(map(repr, self.f)) if self.f else '')


UNIT = Agg(0, ())


class Sum:
    """enum value whose variant is a (symbolic) scalar; alts: variant -> payload tuple"""
    __slots__ = ('t', 'alts')

    def __init__(self, t, alts):
        self.t = t
        self.alts = alts

    def __eq__(self, o):
        return type(o) is Sum and same(self.t, o.t) and self.alts.keys() == o.alts.keys() and all(
            len(self.alts[k]) == len(o.alts[k]) and all(same(a, b) for a, b in zip(self.alts[k], o.alts[k])) for k in self.alts)

    def __hash__(self):
        return hash(tuple(sorted(self.alts)))

    def __repr__(self):
        return 'Sum(%s: %s)' % (dd.show(self.t, 1), ' | '.join('%s%r' % (k, list(v)) for k, v in sorted(self.alts.items())))


class Clo:
    __slots__ = ('ty', 'fn', 'f')

    def __init__(self, ty, fn, f):
        self.ty = ty
        self.fn = fn
        self.f = f

    def __eq__(self, o):
        return type(o) is Clo and self.ty == o.ty and all(same(a, b) for a, b in zip(self.f, o.f))

    def __hash__(self):
        return hash((self.ty, len(self.f)))

    def __repr__(self):
        return 'Clo%s%r' % (self.fn, self.f)


class FnVal:
    """function item / pointer: callee record {d, a, k, i}"""
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return type(o) is FnVal and self.c['d'] == o.c['d'] and self.c['i'] == o.c['i'] and self.c['a'] == o.c['a']

    def __hash__(self):
        return hash((self.c['d'], self.c['i']))

    def __repr__(self):
        return 'fn ' + self.c['d']


class Run:
    """A stretch of a sequence whose length is symbolic: `len` elements of the named source
    starting at offset `off` of that source.

    byte: generic element (scalar): an atom standing for an arbitrary element;
    cls:  condition on that generic element which every element satisfies;
    info: e.g. ('dec', n): the decimal rendering of the scalar n; ('fill', v): all elements are v.
    """
    __slots__ = ('name', 'off', 'len', 'byte', 'cls', 'info')

    def __init__(self, name, len, byte=None, cls=1, off=0, info=None):
        self.name = name
        self.off = off
        self.len = len
        self.byte = byte
        self.cls = cls
        self.info = info

    def __eq__(self, o):
        if type(o) is not Run or self.name != o.name or not same(self.len, o.len):
            return False
        if self.info and self.info[0] == 'fill':
            return o.info == self.info
        return same(self.off, o.off)

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return 'Run(%s,%r,%r)' % (self.name, self.off, self.len)


def fill(v, n):
    return Run('fill%d' % v, n, byte=v, info=('fill', v))


class Seq:
    """array / slice / Vec / String contents"""
    __slots__ = ('e', '_flat')

    def __init__(self, e):
        self.e = e
        self._flat = None

    def flat(self):
        """no Run elements"""
        if self._flat is None:
            self._flat = not any(type(x) is Run for x in self.e)
        return self._flat

    def __eq__(self, o):
        return type(o) is Seq and len(self.e) == len(o.e) and all(same(a, b) for a, b in zip(self.e, o.e))

    def __hash__(self):
        return hash(len(self.e))

    def __repr__(self):
        if self.e and all(type(x) is int and 0 <= x < 256 for x in self.e) and len(self.e) > 2:
            return repr(bytes(self.e))
        return 'Seq[%s]' % ', '.join(map(repr, self.e))


class Ref:
    """pointer to a place; r=(start, len) for slices and str; vt: concrete type behind a trait object"""
    __slots__ = ('a', 'p', 'r', 'vt')

    def __init__(self, a, p=(), r=None, vt=None):
        self.a = a
        self.p = p
        self.r = r
        self.vt = vt

    def __eq__(self, o):
        return type(o) is Ref and self.a == o.a and self.p == o.p and same_t(self.r, o.r)

    def __hash__(self):
        return hash((self.a, self.p))

    def __repr__(self):
        return '&%s%s%s' % (self.a, ''.join('.%s' % (x,) for x in self.p), list(self.r) if self.r else '')


class Opaque:
    __slots__ = ('why',)

    def __init__(self, why):
        self.why = why

    def __eq__(self, o):
        return type(o) is Opaque and self.why == o.why

    def __hash__(self):
        return hash(self.why)

    def __repr__(self):
        return 'Opaque(%s)' % self.why


class It:
    """iterator object: kind + fields"""
    __slots__ = ('k', 'f')

    def __init__(self, k, *f):
        self.k = k
        self.f = f

    def __eq__(self, o):
        return type(o) is type(self) and self.k == o.k and len(self.f) == len(o.f) and all(same(a, b) for a, b in zip(self.f, o.f))

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return 'It.%s%r' % (self.k, self.f)


class Obj(It):
    """library object with model-defined contents (Cursor, BufReader, File, Formatter, ...)"""
    __slots__ = ()

    def __repr__(self):
        return 'Obj.%s%r' % (self.k, self.f)


def same(a, b):
    if a is b:
        return True
    ta = type(a)
    if ta is Node or ta is not type(b):
        return False
    return a == b


def same_t(a, b):
    if a is b:
        return True
    if type(a) is not tuple or type(b) is not tuple or len(a) != len(b):
        return False
    return all(same(x, y) for x, y in zip(a, b))


class NoMerge(Exception):
    pass


def merge_val(g, a, b):
    """g ? a : b"""
    if a is b:
        return a
    ta = type(a)
    tb = type(b)
    if ta in SCALARS and tb in SCALARS:
        return merge_scalar(g, a, b)
    if ta is Sum or tb is Sum:
        return merge_sum(g, a, b)
    if ta is not tb:
        raise NoMerge()
    if ta is Agg:
        if type(a.v) is int and type(b.v) is int and a.v == b.v and len(a.f) == len(b.f):
            return Agg(a.v, tuple(merge_val(g, x, y) for x, y in zip(a.f, b.f)))
        if not a.f and not b.f:
            return Agg(merge_scalar(g, a.v, b.v), ())
        return merge_sum(g, a, b)
    if ta is Clo:
        if a.ty == b.ty and len(a.f) == len(b.f):
            return Clo(a.ty, a.fn, tuple(merge_val(g, x, y) for x, y in zip(a.f, b.f)))
        raise NoMerge()
    if ta is Seq:
        return merge_seq(g, a, b)
    if ta in (It, Obj):
        if a.k == b.k and len(a.f) == len(b.f):
            return ta(a.k, *tuple(merge_any(g, x, y) for x, y in zip(a.f, b.f)))
        raise NoMerge()
    if a == b:
        return a
    if ta is Ref and a.a == b.a and a.p == b.p and a.r and b.r and a.vt == b.vt:
        r = []
        for x, y in zip(a.r, b.r):
            z = x if same(x, y) else agree(x, y)
            if z is None:
                raise NoMerge()
            r.append(z)
        return Ref(a.a, a.p, tuple(r), a.vt)
    raise NoMerge()


def merge_sum(g, a, b):
    t1, x = alts(a)
    t2, y = alts(b)
    out = {}
    for k in set(x) | set(y):
        if k in x and k in y:
            if len(x[k]) != len(y[k]):
                raise NoMerge()
            out[k] = tuple(merge_val(g, p, q) for p, q in zip(x[k], y[k]))
        else:
            out[k] = x[k] if k in x else y[k]
    return Sum(merge_scalar(g, t1, t2), out)


def alts(a):
    if type(a) is Sum:
        return a.t, a.alts
    if type(a) is Agg and type(a.v) is int:
        return a.v, {a.v: a.f}
    raise NoMerge()


def merge_any(g, x, y):
    if type(x) in (str, tuple, type(None), bool) or type(y) in (str, tuple, type(None), bool):
        if type(x) is type(y) and x == y:
            return x
        raise NoMerge()
    return merge_val(g, x, y)


def merge_seq(g, a, b):
    if a.flat() and b.flat() and len(a.e) == len(b.e):
        return Seq(tuple(merge_val(g, x, y) for x, y in zip(a.e, b.e)))
    # same structure up to a stretch of constant bytes of different length
    i = 0
    n = min(len(a.e), len(b.e))
    while i < n and same(a.e[i], b.e[i]):
        i += 1
    j = 0
    while j < n - i and same(a.e[-1 - j], b.e[-1 - j]):
        j += 1
    x = a.e[i:len(a.e) - j]
    y = b.e[i:len(b.e) - j]
    if not x and not y:
        return a
    if len(a.e) == len(b.e) and not any(type(e) is Run for e in x + y):
        return Seq(a.e[:i] + tuple(merge_val(g, p, q) for p, q in zip(x, y)) + a.e[len(a.e) - j:])
    k1 = fill_of(x)
    k2 = fill_of(y)
    if k1 is None or k2 is None or (k1[0] is not None and k2[0] is not None and k1[0] != k2[0]):
        raise NoMerge()
    v = k1[0] if k1[0] is not None else k2[0]
    ln = merge_scalar(g, k1[1], k2[1])
    return Seq(a.e[:i] + (fill(v, ln),) + a.e[len(a.e) - j:])


def fill_of(x):
    v = None
    n = 0
    for e in x:
        if type(e) is int:
            w, k = e, 1
        elif type(e) is Run and e.info and e.info[0] == 'fill':
            w, k = e.info[1], e.len
        else:
            return None
        if v is not None and v != w:
            return None
        v = w
        n = dd.add(n, k)
    return v, n


CARE = [None]      # conditions of the two states that are being joined


def agree(a, b):
    """one of the two, when it is the value of both wherever the other holds"""
    if CARE[0] is None or Node in (type(a), type(b)) or type(a) is int and type(b) is int:
        return None
    d = dd.sub(a, b)
    if type(d) is not dd.Lin or len(d.t) != 1:
        return None
    n = dd.bnot(dd.eq(a, b))
    x = dd.band(CARE[0][0], n)
    if type(x) is int and x == 0:
        return b
    x = dd.band(CARE[0][1], n)
    if type(x) is int and x == 0:
        return a
    return None


def merge_scalar(g, a, b):
    if same(a, b):
        return a
    r = agree(a, b)
    if r is not None:
        return r
    r = dd.ite(g, a, b)
    if type(r) is Node and dd.size(r, 200) > 64:
        la, ha = dd.interval(a)
        lb, hb = dd.interval(b)
        lo, hi = min(la, lb), max(ha, hb)
        if lo >= 0 and hi < (1 << 64):
            w = max(1, hi.bit_length())
            x = dd.to_bits(a, w)
            y = dd.to_bits(b, w)
            return dd.from_bits(tuple(dd.ite(g, p, q) for p, q in zip(x, y)))
    return r
