"""Library models: str, String, char, formatting."""
from . import dd
from .dd import Undecided, Lin, Node
from .models import model, NA, NONE, some, ok, err, canon
from .values import Agg, Sum, UNIT, Clo, FnVal, Run, Seq, Ref, Opaque, It, Obj, same, SCALARS, fill
from .interp import PanicExc, seqlen, Cx, Infeasible
from .m_core import seqref, eq_seq, possible, INTS
from .m_seq import vload


# ------------------------------------------------------------------ characters
def white(b):
    """char::is_whitespace as a condition"""
    if type(b) is int:
        return 1 if chr(b).isspace() and b not in (0x1c, 0x1d, 0x1e, 0x1f) else 0
    r = dd.band(dd.le(9, b), dd.le(b, 13))
    r = dd.bor(r, dd.eq(b, 32))
    lo, hi = dd.interval(b)
    if hi >= 0x80:
        for x in [0x85, 0xa0, 0x1680] + list(range(0x2000, 0x200b)) + [0x2028, 0x2029, 0x202f, 0x205f, 0x3000]:
            r = dd.bor(r, dd.eq(b, x))
    return r


def rng(b, lo, hi):
    return dd.band(dd.le(lo, b), dd.le(b, hi))


def isdigit(b):
    return rng(b, 48, 57)


def isupper(b):
    return rng(b, 65, 90)


def islower(b):
    return rng(b, 97, 122)


def isalpha(b):
    return dd.bor(isupper(b), islower(b))


def asciiws(b):
    r = dd.eq(b, 32)
    for x in (9, 10, 12, 13):
        r = dd.bor(r, dd.eq(b, x))
    return r


def onlyascii(f, py=None):
    def g(b):
        if type(b) is int and b >= 128:
            if py is None:
                raise Undecided('non-ASCII character class')
            return 1 if py(chr(b)) else 0
        if type(b) is not int and dd.interval(b)[1] >= 128:
            raise Undecided('non-ASCII character class')
        return f(b)
    return g


CLASS = {
    'is_ascii_digit': isdigit, 'is_ascii_alphabetic': isalpha, 'is_ascii_alphanumeric': lambda b: dd.bor(isalpha(b), isdigit(b)),
    'is_ascii_uppercase': isupper, 'is_ascii_lowercase': islower, 'is_ascii_whitespace': asciiws,
    'is_ascii_hexdigit': lambda b: dd.bor(isdigit(b), dd.bor(rng(b, 65, 70), rng(b, 97, 102))),
    'is_ascii_punctuation': lambda b: dd.bor(dd.bor(rng(b, 33, 47), rng(b, 58, 64)), dd.bor(rng(b, 91, 96), rng(b, 123, 126))),
    'is_ascii_graphic': lambda b: rng(b, 33, 126), 'is_ascii_control': lambda b: dd.bor(rng(b, 0, 31), dd.eq(b, 127)),
    'is_ascii': lambda b: dd.le(b, 127),
}
CHARCLASS = {
    'is_whitespace': white, 'is_alphabetic': onlyascii(isalpha, str.isalpha), 'is_numeric': onlyascii(isdigit, str.isnumeric),
    'is_alphanumeric': onlyascii(lambda b: dd.bor(isalpha(b), isdigit(b)), str.isalnum),
    'is_control': onlyascii(lambda b: dd.bor(rng(b, 0, 31), dd.eq(b, 127))), 'is_uppercase': onlyascii(isupper, str.isupper),
    'is_lowercase': onlyascii(islower, str.islower),
}


def reg_class():
    for nm, fn in CLASS.items():
        for t in ('char', 'u8', 'methods'):
            def g(cx, args, c, f, fn=fn):
                v = args[0]
                if type(v) is Ref:
                    v = cx.deref(v)
                return fn(v)
            model('%s::%s' % (t, nm))(g)
    for nm, fn in CHARCLASS.items():
        for t in ('char', 'methods'):
            def g(cx, args, c, f, fn=fn):
                v = args[0]
                if type(v) is Ref:
                    v = cx.deref(v)
                return fn(v)
            model('%s::%s' % (t, nm))(g)


reg_class()


@model('char::is_digit')
def _isdig(cx, args, c, f):
    from .m_core import digit_val
    return digit_val(args[0], cx.conc(args[1]))[0]


@model('char::to_digit')
def _todig(cx, args, c, f):
    from .m_core import digit_val
    k, v = digit_val(args[0], cx.conc(args[1]))
    return some(cx.simp(v)) if cx.decide(k) else NONE


@model('char::from_digit')
def _fromdig(cx, args, c, f):
    n = args[0]
    r = cx.conc(args[1])
    if not cx.decide(dd.lt(n, r)):
        return NONE
    return some(dd.ite(dd.le(n, 9), dd.add(n, 48), dd.add(n, 87)))


@model('char::len_utf8')
def _lenutf8(cx, args, c, f):
    b = args[0]
    return dd.ite(dd.le(b, 0x7f), 1, dd.ite(dd.le(b, 0x7ff), 2, dd.ite(dd.le(b, 0xffff), 3, 4)))


@model('char::to_ascii_lowercase', 'u8::to_ascii_lowercase')
def _tal(cx, args, c, f):
    b = cx.load(args[0])
    return dd.ite(isupper(b), dd.add(b, 32), b)


@model('char::to_ascii_uppercase', 'u8::to_ascii_uppercase')
def _tau(cx, args, c, f):
    b = cx.load(args[0])
    return dd.ite(islower(b), dd.sub(b, 32), b)


@model('char::from_u32')
def _fu32(cx, args, c, f):
    b = args[0]
    k = dd.bor(dd.le(b, 0xd7ff), rng(b, 0xe000, 0x10ffff))
    return some(b) if cx.decide(k) else NONE


def chars_of(e, top=None):
    """[(char value | Run, first element, one past last element)] (only the first `top`)"""
    out = []
    i = 0
    n = len(e)
    while i < n and (top is None or len(out) < top):
        b = e[i]
        if type(b) is Run or type(b) is not int or b < 0x80:
            if type(b) is not int and type(b) is not Run and dd.interval(b)[1] > 0x7f:
                raise Undecided('symbolic non-ASCII byte in text')
            out.append((b, i, i + 1))
            i += 1
            continue
        k = 2 if b < 0xe0 else 3 if b < 0xf0 else 4
        try:
            s = bytes(e[i:i + k]).decode('utf8')
        except Exception:
            raise Undecided('non-UTF-8 text')
        out.append((ord(s), i, i + k))
        i += k
    return out


# ------------------------------------------------------------------ string views
def vanished(cx, x):
    """a run known to be empty on this path"""
    if type(x.len) is int:
        return x.len == 0
    if dd.interval(x.len)[0] > 0:
        return False
    c = dd.band(cx.st.pc, dd.bnot(dd.eq(x.len, 0)))
    return type(c) is int and c == 0


class View:
    """a &str with its elements and their offsets"""

    def __init__(self, cx, r):
        r = seqref(cx, r)
        self.r = r
        whole = cx.get(r.a, r.p)
        self.e = cx.cut(whole, r.r[0], r.r[1])
        self.len = r.r[1]
        if whole.flat() or all(type(x) is not Run for x in self.e):
            self.off = range(len(self.e) + 1)
            return
        self.off = []
        es = []
        p = 0
        for x in self.e:
            if type(x) is not Run or not vanished(cx, x):
                es.append(x)
                self.off.append(p)
            p = dd.add(p, x.len if type(x) is Run else 1)
        self.e = tuple(es)
        self.off.append(p)

    def sub(self, i, j):
        """reference to elements i..j"""
        return Ref(self.r.a, self.r.p, (dd.add(self.r.r[0], self.off[i]), dd.sub(self.off[j], self.off[i])))


class Pat:
    """a pattern: set of characters or a literal"""

    def __init__(self, cx, v, ty):
        P = cx.I.P
        self.lit = None
        self.fn = None
        self.clo = None
        if type(v) in SCALARS:
            self.fn = lambda ch: dd.eq(ch, v)
            self.one = v
            return
        if type(v) is Ref:
            t = ty
            while t is not None and P.kind(t) == 'ref':
                t = P.ty(t)['e']
            k = P.kind(t) if t is not None else None
            isstr = k == 'str' or (k == 'adt' and P.tys(t).endswith('String'))
            w = cx.deref(v)
            if type(w) is Seq:
                if isstr or (t is None):
                    self.lit = w
                    return
                self.fn = lambda ch: or_all(dd.eq(ch, x) for x in w.e)
                return
            v = w
        if type(v) is Seq:
            es = v.e
            self.fn = lambda ch: or_all(dd.eq(ch, x) for x in es)
            return
        if type(v) in (Clo, FnVal):
            cache = {}
            self.clo = v

            def g(ch):
                k = ch if type(ch) is int else id(ch) if type(ch) is Node else ch
                if k not in cache:
                    cache[k] = (pure(cx, v, [ch]), ch)
                return cache[k][0]
            self.fn = g
            return
        raise Undecided('pattern %s' % type(v).__name__)

    def single(self):
        return self.fn is not None


def or_all(it):
    r = 0
    for x in it:
        r = dd.bor(r, x)
    return r


class Stateful(Undecided):
    """a pattern closure that changes its captured variables"""


def changed(h0, h1):
    for k, x in h0.items():
        y = h1.get(k)
        if y is not x and not (type(y) is type(x) and y == x):
            return True
    return False


def pure(cx, f, args, care=1):
    """boolean result of a side-effect free callable as a condition (no path split)"""
    st = cx.st
    I = cx.I
    work = [[]]
    res = 0
    while work:
        log = work.pop()
        c2 = Cx(I, st.copy(), log, work, cx.fn, cx.base)
        c2.st.pc = dd.band(st.pc, care)
        v, f2 = c2.apply(f, args)
        if c2.st.ev is not st.ev:
            raise Undecided('pattern with side effects')
        if f2 is not f and f2 != f or changed(st.h, c2.st.h):
            raise Stateful('pattern with state')
        if v == 0 and type(v) is int:
            continue
        res = dd.bor(res, dd.band(c2.st.pc, v))
    return dd.restrict(res, dd.band(st.pc, care))


def char_at(cx, pat, ch):
    """condition that a character (or every element of a run) is in the pattern's set.
    For a run: 1 (all), 0 (none) or raises."""
    if type(ch) is Run:
        if ch.info and ch.info[0] == 'fill':
            return pat.fn(ch.info[1])
        if ch.byte is None:
            raise Undecided('character test on opaque run')
        k = pat.fn(ch.byte)
        k = dd.restrict(k, dd.band(cx.st.pc, ch.cls) if False else ch.cls)
        if type(k) is not int:
            raise Undecided('run %s straddles a character class' % ch.name)
        return k
    return pat.fn(ch)


def nonempty(cx, x):
    """run known to have at least one element on this path?"""
    return not cx.decide(dd.eq(x.len, 0))


class Space:
    """whitespace pattern"""
    lit = None

    @staticmethod
    def fn(ch):
        return white(ch)


class AsciiSpace:
    lit = None

    @staticmethod
    def fn(ch):
        return asciiws(ch)


def lit_at(cx, e, i, lit):
    """does the literal occur at element position i?  condition; second: end element index"""
    n = len(lit.e)
    j = i
    r = 1
    k = 0
    while k < n:
        if j >= len(e):
            return 0, j
        x = e[j]
        q = lit.e[k]
        if type(x) is Run or type(q) is Run:
            if type(x) is Run and type(q) is Run and x == q:
                j += 1
                k += 1
                continue
            if type(x) is Run:
                if x.info and x.info[0] == 'fill' and type(q) is int and x.info[1] != q:
                    return 0, j
                if dd.interval(x.len)[0] == 0 and possible_any(x, lit.e[k:], e[j + 1:]) and cx.decide(dd.eq(x.len, 0)):
                    j += 1
                    continue
                if possible_any(x, lit.e[k:], e[j + 1:], 0):
                    raise Undecided('literal match inside an opaque run')
                return 0, j
            raise Undecided('pattern with runs')
        r = dd.band(r, dd.eq(x, q))
        if type(r) is int and r == 0:
            return 0, j
        j += 1
        k += 1
    return r, j


def possible_any(run, lit, rest, empty=1):
    """could lit match starting at the first element of run (followed by rest)?"""
    if empty and lo0(run) and can_match(lit, rest):
        return True
    for t in range(1, len(lit) + 1):
        if type(lit[t - 1]) is int and not possible(run, lit[t - 1]):
            return False
        if can_match(lit[t:], rest):
            return True
    return False


def lo0(run):
    return run.len == 0 if type(run.len) is int else dd.interval(run.len)[0] == 0


def can_match(lit, e):
    if not lit:
        return True
    if not e:
        return False
    x = e[0]
    if type(x) is Run:
        return possible_any(x, lit, e[1:])
    if type(lit[0]) is Run:
        return True
    k = dd.eq(x, lit[0])
    return not (type(k) is int and k == 0) and can_match(lit[1:], e[1:])


def inside_possible(run, lit):
    """could the literal start somewhere inside the run?"""
    return possible(run, lit.e[0]) if lit.e and type(lit.e[0]) is int else True


def find(cx, v, pat):
    """first match: (i, j) element positions or None"""
    e = v.e
    if pat.lit is not None:
        lit = pat.lit
        if len(lit.e) == 1 and type(lit.e[0]) is not Run:
            return find(cx, v, CharPat(lit.e[0]))
        if not lit.e:
            return 0, 0
        for i in range(len(e)):
            if type(e[i]) is Run:
                if inside_possible(e[i], lit):
                    raise Undecided('literal search in opaque run')
                continue
            k, j = lit_at(cx, e, i, lit)
            if cx.decide(k):
                return i, j
        return None
    cs = chars_of(e)
    if getattr(pat, 'clo', None) is not None and cs:
        try:
            pure(cx, pat.clo, [dd.var('any character', 0, 127)], dd.domain(dd.var('any character', 0, 127)))
        except Stateful:
            return find_seq(cx, e, pat.clo)
    for ch, i, j in cs:
        k = char_at(cx, pat, ch)
        if type(ch) is Run:
            if k and nonempty(cx, ch):
                parted(v, i, 1, dd.sub(ch.len, 1))
                return i, i + 1
            continue
        if cx.decide(k):
            return i, j
    return None


def parted(v, i, a, b):
    """element i of the view, a run, is seen as two runs of lengths a and b"""
    x = v.e[i]
    assert x.info is None or x.info[0] == "fill"
    v.e = tuple(v.e[:i]) + (Run(x.name, a, x.byte, x.cls, x.off, x.info), Run(x.name, b, x.byte, x.cls, dd.add(x.off, a), x.info)) + tuple(v.e[i + 1:])
    v.off = v.off[:i + 1] + [dd.add(v.off[i], a)] + v.off[i + 1:]


def find_seq(cx, e, f):
    """search with a closure that keeps state between characters"""
    for ch, i, j in chars_of(e):
        if type(ch) is Run:
            # no element of the run may match or change the state
            if ch.byte is None:
                raise Undecided('character test on opaque run')
            try:
                k = pure(cx, f, [ch.byte], ch.cls)
            except Stateful:
                raise Undecided('run %s changes the state of a search' % ch.name)
            k = dd.restrict(k, ch.cls)
            if type(k) is not int or k:
                raise Undecided('run %s straddles a search' % ch.name)
            continue
        v, f = cx.apply(f, [ch])
        if cx.decide(v):
            return i, j
    return None


def rfind(cx, v, pat):
    e = v.e
    if pat.lit is not None:
        lit = pat.lit
        if len(lit.e) == 1 and type(lit.e[0]) is not Run:
            return rfind(cx, v, CharPat(lit.e[0]))
        if not lit.e:
            return len(e), len(e)
        for i in range(len(e) - 1, -1, -1):
            if type(e[i]) is Run:
                if inside_possible(e[i], lit):
                    raise Undecided('literal search in opaque run')
                continue
            k, j = lit_at(cx, e, i, lit)
            if cx.decide(k):
                return i, j
        return None
    for ch, i, j in reversed(chars_of(e)):
        k = char_at(cx, pat, ch)
        if type(ch) is Run:
            if k and nonempty(cx, ch):
                parted(v, i, dd.sub(ch.len, 1), 1)
                return i + 1, i + 2
            continue
        if cx.decide(k):
            return i, j
    return None


class CharPat:
    lit = None

    def __init__(self, v):
        self.v = v

    def fn(self, ch):
        return dd.eq(ch, self.v)


def mkpat(cx, c, v, k=0):
    """pattern from a value and the k-th generic type argument"""
    M = cx.I.M
    ts = [x for x in c['a'] if type(x) is int]
    ty = ts[-1] if ts else None
    return Pat(cx, v, ty)


# ------------------------------------------------------------------ str methods
@model('str::split_once')
def _split_once(cx, args, c, f):
    v = View(cx, args[0])
    m = find(cx, v, mkpat(cx, c, args[1]))
    if m is None:
        return NONE
    return some(Agg(0, (v.sub(0, m[0]), v.sub(m[1], len(v.e)))))


@model('str::rsplit_once')
def _rsplit_once(cx, args, c, f):
    v = View(cx, args[0])
    m = rfind(cx, v, mkpat(cx, c, args[1]))
    if m is None:
        return NONE
    return some(Agg(0, (v.sub(0, m[0]), v.sub(m[1], len(v.e)))))


@model('str::find')
def _find(cx, args, c, f):
    v = View(cx, args[0])
    m = find(cx, v, mkpat(cx, c, args[1]))
    return NONE if m is None else some(v.off[m[0]])


@model('str::rfind')
def _rfind(cx, args, c, f):
    v = View(cx, args[0])
    m = rfind(cx, v, mkpat(cx, c, args[1]))
    return NONE if m is None else some(v.off[m[0]])


@model('str::contains')
def _contains(cx, args, c, f):
    v = View(cx, args[0])
    return 1 if find(cx, v, mkpat(cx, c, args[1])) is not None else 0


def starts(cx, v, pat):
    """(matched on this path, end element)"""
    if pat.lit is not None:
        if not pat.lit.e:
            return True, 0
        k, j = lit_at(cx, v.e, 0, pat.lit)
        return cx.decide(k), j
    i0 = 0
    cs = chars_of(v.e)
    for ch, i, j in cs:
        if type(ch) is Run:
            if nonempty(cx, ch):
                if char_at(cx, pat, ch):
                    raise Undecided('prefix inside a run')
                return False, 0
            continue
        return cx.decide(char_at(cx, pat, ch)), j
    return False, 0


def ends(cx, v, pat):
    if pat.lit is not None:
        n = len(pat.lit.e)
        if n == 0:
            return True, len(v.e)
        if n > len(v.e):
            if v.e and any(type(x) is Run for x in v.e):
                tail = v.e
                if not all(type(x) is Run and not possible(x, pat.lit.e[-1]) for x in v.e[-1:]):
                    raise Undecided('suffix in run')
            return False, 0
        i = len(v.e) - n
        last = v.e[-1]
        if type(last) is Run:
            if type(pat.lit.e[-1]) is int and not possible(last, pat.lit.e[-1]) and nonempty(cx, last):
                return False, 0
            raise Undecided('suffix in run')
        r = 1
        for x, q in zip(v.e[i:], pat.lit.e):
            if type(x) is Run:
                if type(q) is int and not possible(x, q):
                    lo, _ = dd.interval(x.len)
                    if lo >= 1:
                        return False, 0
                raise Undecided('suffix in run')
            r = dd.band(r, dd.eq(x, q))
        return cx.decide(r), i
    for ch, i, j in reversed(chars_of(v.e)):
        if type(ch) is Run:
            if nonempty(cx, ch):
                if char_at(cx, pat, ch):
                    raise Undecided('suffix inside a run')
                return False, 0
            continue
        return cx.decide(char_at(cx, pat, ch)), i
    return False, 0


@model('str::starts_with')
def _starts_with(cx, args, c, f):
    v = View(cx, args[0])
    return 1 if starts(cx, v, mkpat(cx, c, args[1]))[0] else 0


@model('str::ends_with')
def _ends_with(cx, args, c, f):
    v = View(cx, args[0])
    return 1 if ends(cx, v, mkpat(cx, c, args[1]))[0] else 0


@model('str::strip_prefix')
def _strip_prefix(cx, args, c, f):
    v = View(cx, args[0])
    m, j = starts(cx, v, mkpat(cx, c, args[1]))
    return some(v.sub(j, len(v.e))) if m else NONE


@model('str::strip_suffix')
def _strip_suffix(cx, args, c, f):
    v = View(cx, args[0])
    m, i = ends(cx, v, mkpat(cx, c, args[1]))
    return some(v.sub(0, i)) if m else NONE


def trim_start(cx, e, pat):
    """number of leading elements matched"""
    n = 0
    if pat.lit is not None:
        if not pat.lit.e:
            return 0
        while True:
            k, j = lit_at(cx, e, n, pat.lit)
            if not cx.decide(k):
                return n
            n = j
    for ch, i, j in chars_of(e):
        k = char_at(cx, pat, ch)
        if type(ch) is Run:
            if not k and nonempty(cx, ch):
                return i
            n = j
            continue
        if not cx.decide(k):
            return i
        n = j
    return n


def trim_end(cx, e, pat):
    """number of elements kept"""
    n = len(e)
    if pat.lit is not None:
        m = len(pat.lit.e)
        if m == 0:
            return n
        while n >= m:
            r = 1
            for x, q in zip(e[n - m:n], pat.lit.e):
                if type(x) is Run:
                    if type(q) is int and not possible(x, q) and dd.interval(x.len)[0] >= 1:
                        r = 0
                        break
                    raise Undecided('trim inside run')
                r = dd.band(r, dd.eq(x, q))
            if not cx.decide(r):
                return n
            n -= m
        return n
    for ch, i, j in reversed(chars_of(e)):
        k = char_at(cx, pat, ch)
        if type(ch) is Run:
            if not k and nonempty(cx, ch):
                return j
            n = i
            continue
        if not cx.decide(k):
            return j
        n = i
    return n


@model('str::trim', 'str::trim_start', 'str::trim_end', 'str::trim_left', 'str::trim_right', 'str::trim_ascii',
       'str::trim_matches', 'str::trim_start_matches', 'str::trim_end_matches', 'str::trim_left_matches', 'str::trim_right_matches')
def _trim(cx, args, c, f):
    v = View(cx, args[0])
    n = canon(c['d']).split('::')[1]
    pat = mkpat(cx, c, args[1]) if len(args) > 1 else (AsciiSpace if n == 'trim_ascii' else Space)
    i = 0
    j = len(v.e)
    if 'end' not in n and 'right' not in n:
        i = trim_start(cx, v.e, pat)
    if 'start' not in n and 'left' not in n:
        j = i + trim_end(cx, v.e[i:], pat)
    return v.sub(i, j)


@model('str::split_whitespace')
def _sws(cx, args, c, f):
    return It('ws', seqref(cx, args[0]))


@model('str::split_ascii_whitespace')
def _saws(cx, args, c, f):
    return It('aws', seqref(cx, args[0]))


@model('str::split', 'str::split_terminator', 'str::split_inclusive')
def _split(cx, args, c, f):
    ts = [x for x in c['a'] if type(x) is int]
    n = canon(c['d']).split('::')[1]
    return It(n, some(seqref(cx, args[0])), args[1], ts[-1] if ts else -1)


@model('str::splitn')
def _splitn(cx, args, c, f):
    ts = [x for x in c['a'] if type(x) is int]
    return It('splitn', some(seqref(cx, args[0])), args[2], ts[-1] if ts else -1, args[1])


@model('str::rsplit')
def _rsplit(cx, args, c, f):
    ts = [x for x in c['a'] if type(x) is int]
    return It('rsplit', some(seqref(cx, args[0])), args[1], ts[-1] if ts else -1)


@model('str::lines')
def _lines(cx, args, c, f):
    return It('lines', seqref(cx, args[0]))


@model('str::chars')
def _chars(cx, args, c, f):
    return It('chars', seqref(cx, args[0]))


@model('str::char_indices')
def _charidx(cx, args, c, f):
    return It('charidx', seqref(cx, args[0]), 0)


@model('str::bytes')
def _bytes(cx, args, c, f):
    return It('cloned', It('sl', seqref(cx, args[0])))


@model('Chars::as_str', 'CharIndices::as_str')
def _charsasstr(cx, args, c, f):
    it = cx.deref(args[0])
    return it.f[0]


@model('str::matches', 'str::match_indices')
def _matches(cx, args, c, f):
    ts = [x for x in c['a'] if type(x) is int]
    return It(canon(c['d']).split('::')[1], some(seqref(cx, args[0])), args[1], ts[-1] if ts else -1, 0)


@model('str::eq_ignore_ascii_case', 'slice::eq_ignore_ascii_case')
def _eic(cx, args, c, f):
    a = cx.load(seqref(cx, args[0]))
    b = cx.load(seqref(cx, args[1]))
    if not a.flat() or not b.flat():
        raise Undecided('case folding of run')

    def low(x):
        return dd.ite(isupper(x), dd.add(x, 32), x)
    return eq_seq(cx, Seq(tuple(low(x) for x in a.e)), Seq(tuple(low(x) for x in b.e)))


@model('str::to_lowercase', 'str::to_ascii_lowercase')
def _lower(cx, args, c, f):
    a = cx.load(seqref(cx, args[0]))
    if not a.flat():
        raise Undecided('case folding of run')
    return Seq(tuple(dd.ite(isupper(x), dd.add(x, 32), x) for x in a.e))


@model('str::to_uppercase', 'str::to_ascii_uppercase')
def _upper(cx, args, c, f):
    a = cx.load(seqref(cx, args[0]))
    if not a.flat():
        raise Undecided('case folding of run')
    return Seq(tuple(dd.ite(islower(x), dd.sub(x, 32), x) for x in a.e))


@model('str::replace')
def _replace(cx, args, c, f):
    v = View(cx, args[0])
    pat = mkpat(cx, c, args[1])
    w = cx.deref(args[2])
    out = ()
    r = v.r
    while True:
        v = View(cx, r)
        m = find(cx, v, pat)
        if m is None or m == (0, 0):
            return Seq(out + v.e)
        out = out + v.e[:m[0]] + w.e
        r = v.sub(m[1], len(v.e))


@model('str::is_char_boundary')
def _icb(cx, args, c, f):
    v = View(cx, args[0])
    for x in v.e:
        if type(x) is int and x >= 0x80:
            raise Undecided('char boundary')
    return dd.le(args[1], v.len)


# ------------------------------------------------------------------ String
@model('String::push')
def _spush(cx, args, c, f):
    r, v = vload(cx, args[0])
    ch = args[1]
    if type(ch) is int:
        e = tuple(chr(ch).encode('utf8'))
    elif dd.interval(ch)[1] < 128:
        e = (ch,)
    else:
        raise Undecided('push of symbolic char')
    cx.store(r, Seq(v.e + e))
    return UNIT


@model('String::pop')
def _spop(cx, args, c, f):
    r, v = vload(cx, args[0])
    cs = chars_of(v.e)
    if not cs:
        return NONE
    ch, i, j = cs[-1]
    if type(ch) is Run:
        raise Undecided('pop of run')
    cx.store(r, Seq(v.e[:i]))
    return some(ch)


@model('String::from_utf8', 'str::from_utf8', 'converts::from_utf8')
def _fu8(cx, args, c, f):
    v = args[0]
    s = v if type(v) is Seq else cx.load(seqref(cx, v))
    for e in s.e:
        if type(e) is Run:
            if e.byte is None:
                raise Undecided('UTF-8 check of opaque run')
            k = dd.restrict(dd.le(e.byte, 127), e.cls)
            if not (type(k) is int and k == 1):
                raise Undecided('UTF-8 check of run')
    bs = s.e
    if all(type(e) is int for e in bs):
        try:
            bytes(bs).decode('utf8')
            return ok(v)
        except UnicodeDecodeError:
            return err(Opaque('Utf8Error'))
    k = 1
    for e in bs:
        if type(e) is not Run:
            k = dd.band(k, dd.le(e, 127))
    if cx.decide(k):
        return ok(v)
    raise Undecided('non-ASCII symbolic bytes')


@model('String::from_utf8_lossy')
def _fu8l(cx, args, c, f):
    r = _fu8(cx, args, c, f)
    if r.v == 0:
        v = r.f[0]
        return Agg(0, (v,))       # Cow::Borrowed
    raise Undecided('lossy')


@model('Add::add', 'AddAssign::add_assign')
def _add(cx, args, c, f):
    n = canon(c['d'])
    if n == 'Add::add' and type(args[0]) is Seq:
        w = cx.deref(args[1])
        return Seq(args[0].e + w.e)
    if n == 'AddAssign::add_assign' and type(args[0]) is Ref:
        v = cx.load(args[0])
        if type(v) is Seq:
            w = cx.deref(args[1])
            cx.store(args[0], Seq(v.e + w.e))
            return UNIT
    return NA


# ------------------------------------------------------------------ formatting
def render(cx, v, spec, ty, how):
    """elements of the formatted value"""
    P = cx.I.P
    t = ty
    while type(v) is Ref:
        v = cx.load(v)
        if t is not None and P.kind(t) in ('ref', 'ptr'):
            t = P.ty(t)['e']
    if spec is not None and any(spec):
        if type(v) is int and how in ('display', 'lower_hex'):
            fl, wd, pr = spec
            s = str(v) if how == 'display' else '%x' % v
            if wd is not None and type(wd) is int and not pr:
                zero = fl is not None and (fl >> 24) & 1
                s = s.rjust(wd, '0' if zero else ' ')
                return tuple(s.encode())
        return (Run('fmt', A_len('fmt%d' % id(v)), info=('opaque', v)),)
    if type(v) is Seq and how == 'display':
        return v.e
    if type(v) in SCALARS:
        tn = P.tys(t) if t is not None else ''
        if tn == 'char':
            return (v,) if type(v) is not int else tuple(chr(v).encode('utf8'))
        if tn == 'bool':
            if type(v) is int:
                return tuple(b'true' if v else b'false')
            return tuple(b'true' if cx.decide(v) else b'false')
        if how in ('display', 'debug'):
            return dec_run(v)
        if how == 'lower_hex':
            if type(v) is int:
                return tuple(('%x' % v).encode())
            return (Run('hex:%r' % (v,), A_len('hexlen:%r' % (v,)), info=('hex', v)),)
    return None


_digit = None


def dec_run(v):
    if type(v) is int:
        return tuple(str(v).encode())
    global _digit
    if _digit is None:
        _digit = dd.var('digit', 0, 127)
    return (Run('dec:%s' % (repr(v) if type(v) is Lin else id(v)), dd.var('declen:%s' % (repr(v) if type(v) is Lin else id(v)), 1, 39),
                byte=_digit, cls=isdigit(_digit), info=('dec', v)),)


def A_len(name):
    return dd.var('len:' + name, 0, 1 << 20)


@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex')
def _arg(cx, args, c, f):
    M = cx.I.M
    how = canon(c['d']).split('new_')[1]
    ts = [x for x in c['a'] if type(x) is int]
    return Obj('arg', args[0], ts[-1] if ts else -1, how)


def fmt_one(cx, a, spec):
    if type(a) is not Obj or a.k != 'arg':
        raise Undecided('format argument')
    ty = a.f[1] if a.f[1] >= 0 else None
    e = render(cx, a.f[0], spec, ty, a.f[2])
    if e is not None:
        return e
    # a workspace type: use its own formatting code
    P = cx.I.P
    t = ty
    r = a.f[0]
    while t is not None and P.kind(t) in ('ref', 'ptr') and type(cx.load(r)) is Ref:
        r = cx.load(r)
        t = P.ty(t)['e']
    if t is not None:
        tr = {'display': 'std::fmt::Display', 'debug': 'std::fmt::Debug'}.get(a.f[2])
        fid = P.byname.get('<%s as %s>::fmt' % (P.tys(t), tr))
        if fid is not None and P.fns[fid]['body'] is not None and P.fns[fid]['c'] in cx.I.ws:
            fm = cx.tmp(Obj('formatter', Seq(())))
            cx.run(fid, [r, fm])
            out = cx.load(fm).f[0].e
            return out
    v = cx.deref(a.f[0])
    return (Run('fmt:%r' % (v,), A_len('fmt:%r' % (v,)), info=('opaque',)),)


@model('Arguments::new')
def _fmtnew(cx, args, c, f):
    tmpl = cx.deref(args[0])
    av = cx.deref(args[1])
    t = tmpl.e
    out = ()
    i = 0
    nxt = 0
    while True:
        b = t[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out += tuple(t[i:i + b])
            i += b
        elif b == 0x80:
            n = t[i] | t[i + 1] << 8
            i += 2
            out += tuple(t[i:i + n])
            i += n
        elif b >= 0xc0:
            fl = wd = pr = None
            if b & 1:
                fl = t[i] | t[i + 1] << 8 | t[i + 2] << 16 | t[i + 3] << 24
                i += 4
            if b & 2:
                wd = t[i] | t[i + 1] << 8
                i += 2
            if b & 4:
                pr = t[i] | t[i + 1] << 8
                i += 2
            if b & 8:
                nxt = t[i] | t[i + 1] << 8
                i += 2
            out += fmt_one(cx, av.e[nxt], (fl, wd, pr) if b & 7 else None)
            nxt += 1
        else:
            raise Undecided('format template')
    return Obj('fmt', Seq(out))


@model('Arguments::from_str', 'Arguments::new_const', 'Arguments::from_str_nonconst')
def _fmtstr(cx, args, c, f):
    return Obj('fmt', cx.deref(args[0]))


@model('Arguments::as_str', 'Arguments::as_statically_known_str')
def _fmtas(cx, args, c, f):
    return NONE


@model('fmt::format', 'format::format_inner', 'format::format')
def _format(cx, args, c, f):
    return args[0].f[0]


@model('io::_eprint', 'stdio::_eprint')
def _eprint(cx, args, c, f):
    cx.event('stderr', args[0].f[0])
    return UNIT


@model('io::_print', 'stdio::_print')
def _print(cx, args, c, f):
    cx.event('stdout', args[0].f[0])
    return UNIT


@model('Formatter::write_str', 'Formatter::pad', 'Formatter::write_fmt', 'Formatter::write_char', 'Write::write_str', 'Write::write_char')
def _fwrite(cx, args, c, f):
    r = args[0]
    v = cx.load(r)
    while type(v) is Ref:
        r = v
        v = cx.load(v)
    x = args[1]
    if type(x) is Obj and x.k == 'fmt':
        e = x.f[0].e
    elif type(x) is Ref:
        e = cx.deref(x).e
    else:
        e = (x,)
    if type(v) is Obj and v.k == 'formatter':
        cx.store(r, Obj('formatter', Seq(v.f[0].e + e)))
    elif type(v) is Seq:
        cx.store(r, Seq(v.e + e))
    else:
        return NA
    return ok(UNIT)


@model('Display::fmt', 'Debug::fmt', 'LowerHex::fmt')
def _dfmt(cx, args, c, f):
    if f is not None and f['c'] in cx.I.ws:
        return NA
    v = cx.deref(args[0])
    M = cx.I.M
    n = canon(c['d'])
    e = render(cx, v, None, M.targ(c, 0), {'D': 'display', 'L': 'lower_hex'}[n[0]] if n != 'Debug::fmt' else 'debug')
    if e is None:
        e = (Run('fmt:%r' % (v,), A_len('fmt:%r' % (v,)), info=('opaque',)),)
    r = args[1]
    w = cx.load(r)
    if type(w) is not Obj:
        raise Undecided('formatter')
    cx.store(r, Obj('formatter', Seq(w.f[0].e + e)))
    return ok(UNIT)


@model('ToString::to_string', 'SpecToString::spec_to_string')
def _tostring(cx, args, c, f):
    M = cx.I.M
    t = M.targ(c, 0)
    e = fmt_one(cx, Obj('arg', args[0], t if t is not None else -1, 'display'), None)
    return Seq(e)
