"""Library models: iterators."""
from . import dd
from .dd import Undecided, Lin, Node
from .models import model, NA, NONE, some, ok, err, canon
from .values import Agg, Sum, UNIT, Clo, FnVal, Run, Seq, Ref, Opaque, It, Obj, same, SCALARS
from .interp import Limits, PanicExc, seqlen
from .m_core import seqref, eq_val, cmp_val
from .m_str import View, Pat, find, rfind, chars_of, char_at, nonempty, Space, AsciiSpace, trim_end

BUDGET = 5000


def pair(a, b):
    return Agg(0, (a, b))


# ------------------------------------------------------------------ conversion
def to_it(cx, v, ty=None):
    """iterator for a value (IntoIterator)"""
    P = cx.I.P
    if type(v) is It:
        return v
    n = P.tys(ty) if ty is not None else ''
    if type(v) is Seq:
        return It('vec', v)
    if type(v) is Ref:
        if v.r is None:
            w = cx.load(v)
            if type(w) is It:
                return It('byref', v)
            if type(w) is Ref:
                return to_it(cx, w)
            if type(w) is Seq:
                return It('sl', seqref(cx, v))
            if type(w) is Agg and n.startswith('&') and 'std::option::Option<' in n:
                i, pl = cx.variant(w)
                return It('opt', some(Ref(v.a, v.p + (('v', 1), 0))) if i == 1 else NONE)
            if type(w) is Agg:
                return It('byref', v)
            raise Undecided('iteration over reference to %s' % type(w).__name__)
        return It('sl', v)
    if n.startswith('std::ops::Range<'):
        return It('range', v.f[0], v.f[1])
    if n.startswith('std::ops::RangeInclusive<') and type(v) is Agg:
        return It('range', v.f[0], dd.add(v.f[1], 1))
    if n.startswith('std::ops::RangeFrom<'):
        return It('rangefrom', v.f[0])
    if n.startswith('std::option::Option<'):
        return It('opt', v)
    if n.startswith('std::result::Result<'):
        i, pl = cx.variant(v)
        return It('opt', some(pl[0]) if i == 0 else NONE)
    if type(v) is Agg and ty is not None:
        return It('user', v, ty)
    raise Undecided('iteration over %s %s' % (type(v).__name__, n))


def user_next(cx, ty):
    P = cx.I.P
    s = P.tys(ty)
    fid = P.byname.get('<%s as std::iter::Iterator>::next' % s)
    if fid is None:
        import re
        e = re.sub(r"<'[^>]*>", '', s)
        for n, i in P.byname.items():
            if n.endswith(' as std::iter::Iterator>::next') and re.sub(r"<'[^>]*>", '', n) == '<%s as std::iter::Iterator>::next' % e:
                fid = i
                break
    if fid is None or P.fns[fid]['body'] is None:
        raise Undecided('iterator type ' + s)
    return fid


def inner_next(cx, it, k=0):
    """next of the inner iterator in field k: (item, it')"""
    x, n = it_next(cx, it.f[k])
    return x, It(it.k, *(it.f[:k] + (n,) + it.f[k + 1:]))


def setf(it, k, v):
    return It(it.k, *(it.f[:k] + (v,) + it.f[k + 1:]))


# ------------------------------------------------------------------ next
def it_next(cx, it):
    """(item or None, iterator')"""
    if type(it) is Ref:
        v = cx.load(it)
        x, n = it_next(cx, v)
        cx.store(it, n)
        return x, it
    if type(it) is Agg or type(it) is not It:
        raise Undecided('next of %s' % type(it).__name__)
    f = NEXT.get(it.k)
    if f is None:
        raise Undecided('iterator ' + it.k)
    return f(cx, it)


def n_sl(cx, it):
    r = it.f[0]
    if cx.decide(dd.eq(r.r[1], 0)):
        return None, it
    s, n = r.r
    x = Ref(r.a, r.p + (('e', s),))
    return x, It('sl', Ref(r.a, r.p, (cx.simp(dd.add(s, 1)), cx.simp(dd.sub(n, 1)))))


def n_vec(cx, it):
    e = it.f[0].e
    while e and type(e[0]) is Run:
        x = e[0]
        n = cx.simp(x.len)
        if cx.decide(dd.eq(n, 0)):
            e = e[1:]
            continue
        if x.info and x.info[0] == 'fill':
            return x.info[1], It('vec', Seq((Run(x.name, dd.sub(n, 1), x.byte, x.cls, dd.add(x.off, 1), x.info),) + e[1:]))
        raise Undecided('element of opaque run')
    if not e:
        return None, It('vec', Seq(()))
    return e[0], It('vec', Seq(e[1:]))


def n_range(cx, it):
    a, b = it.f
    if not cx.decide(dd.lt(a, b)):
        return None, it
    return a, It('range', cx.simp(dd.add(a, 1)), b)


def n_rangefrom(cx, it):
    return it.f[0], It('rangefrom', dd.add(it.f[0], 1))


def n_map(cx, it):
    x, it = inner_next(cx, it)
    if x is None:
        return None, it
    v, f = cx.apply(it.f[1], [x])
    return v, setf(it, 1, f)


def n_inspect(cx, it):
    x, it = inner_next(cx, it)
    if x is None:
        return None, it
    v, f = cx.apply(it.f[1], [cx.tmp(x)])
    return x, setf(it, 1, f)


def n_filter(cx, it):
    for _ in range(max(BUDGET, Limits.loop)):
        x, it = inner_next(cx, it)
        if x is None:
            return None, it
        v, f = cx.apply(it.f[1], [cx.tmp(x)])
        it = setf(it, 1, f)
        if cx.decide(v):
            return x, it
    raise Undecided('iteration budget')


def n_filter_map(cx, it):
    for _ in range(max(BUDGET, Limits.loop)):
        x, it = inner_next(cx, it)
        if x is None:
            return None, it
        v, f = cx.apply(it.f[1], [x])
        it = setf(it, 1, f)
        i, pl = cx.variant(v)
        if i == 1:
            return pl[0], it
    raise Undecided('iteration budget')


def n_flat(cx, it):
    # fields: inner, front (Option), closure or None, item type
    for _ in range(max(BUDGET, Limits.loop)):
        if it.f[1] is not NONE and it.f[1].v == 1:
            x, fr = it_next(cx, it.f[1].f[0])
            if x is not None:
                return x, setf(it, 1, some(fr))
            it = setf(it, 1, NONE)
        x, it = inner_next(cx, it)
        if x is None:
            return None, it
        if it.f[2] is not None:
            x, f = cx.apply(it.f[2], [x])
            it = setf(it, 2, f)
        it = setf(it, 1, some(to_it(cx, x, it.f[3])))
    raise Undecided('iteration budget')


def n_enum(cx, it):
    x, it = inner_next(cx, it)
    if x is None:
        return None, it
    n = it.f[1]
    return pair(n, x), setf(it, 1, dd.add(n, 1))


def n_skip(cx, it):
    n = it.f[1]
    while not (type(n) is int and n == 0):
        if cx.decide(dd.eq(n, 0)):
            break
        x, it = inner_next(cx, it)
        n = cx.simp(dd.sub(n, 1))
        if x is None:
            return None, setf(it, 1, 0)
    it = setf(it, 1, 0)
    return inner_next(cx, it)


def n_take(cx, it):
    n = it.f[1]
    if cx.decide(dd.eq(n, 0)):
        return None, it
    x, it = inner_next(cx, it)
    return x, setf(it, 1, dd.sub(n, 1))


def n_skip_while(cx, it):
    if it.f[2]:
        return inner_next(cx, it)
    for _ in range(max(BUDGET, Limits.loop)):
        x, it = inner_next(cx, it)
        if x is None:
            return None, it
        v, f = cx.apply(it.f[1], [cx.tmp(x)])
        it = setf(it, 1, f)
        if not cx.decide(v):
            return x, setf(it, 2, 1)
    raise Undecided('iteration budget')


def n_take_while(cx, it):
    if it.f[2]:
        return None, it
    x, it = inner_next(cx, it)
    if x is None:
        return None, it
    v, f = cx.apply(it.f[1], [cx.tmp(x)])
    it = setf(it, 1, f)
    if cx.decide(v):
        return x, it
    return None, setf(it, 2, 1)


def n_map_while(cx, it):
    x, it = inner_next(cx, it)
    if x is None:
        return None, it
    v, f = cx.apply(it.f[1], [x])
    it = setf(it, 1, f)
    i, pl = cx.variant(v)
    return (pl[0] if i == 1 else None), it


def n_scan(cx, it):
    x, it = inner_next(cx, it)
    if x is None:
        return None, it
    t = cx.tmp(it.f[2])
    v, f = cx.apply(it.f[1], [t, x])
    it = setf(setf(it, 1, f), 2, cx.load(t))
    i, pl = cx.variant(v)
    return (pl[0] if i == 1 else None), it


def n_chain(cx, it):
    # fields a, b, a_done
    if not it.f[2]:
        x, it = inner_next(cx, it, 0)
        if x is not None:
            return x, it
        it = setf(it, 2, 1)
    return inner_next(cx, it, 1)


def n_zip(cx, it):
    x, it = inner_next(cx, it, 0)
    if x is None:
        return None, it
    y, it = inner_next(cx, it, 1)
    if y is None:
        return None, it
    return pair(x, y), it


def n_rev(cx, it):
    x, n = it_back(cx, it.f[0])
    return x, It('rev', n)


def n_cloned(cx, it):
    x, it = inner_next(cx, it)
    if x is None:
        return None, it
    return cx.load(x), it


def n_fuse(cx, it):
    if it.f[1]:
        return None, it
    x, it = inner_next(cx, it)
    return x, (setf(it, 1, 1) if x is None else it)


def n_peek(cx, it):
    p = it.f[1]
    if p.v == 1:
        it = setf(it, 1, NONE)
        i, pl = cx.variant(p.f[0])
        return (pl[0] if i == 1 else None), it
    return inner_next(cx, it)


def n_step(cx, it):
    # inner, step-1, first
    if it.f[2]:
        return inner_next(cx, setf(it, 2, 0))
    for _ in range(cx.conc(it.f[1])):
        x, it = inner_next(cx, it)
        if x is None:
            return None, it
    return inner_next(cx, it)


def n_chars(cx, it):
    r = it.f[0]
    if cx.decide(dd.eq(r.r[1], 0)):
        return None, it
    v = View(cx, r)
    k = 0
    while k < len(v.e) and type(v.e[k]) is Run:
        x = v.e[k]
        if cx.decide(dd.eq(x.len, 0)):
            k += 1
            continue
        if x.info and x.info[0] == 'fill':
            return x.info[1], It('chars', Ref(r.a, r.p, (cx.simp(dd.add(r.r[0], 1)), cx.simp(dd.sub(r.r[1], 1)))))
        if x.byte is not None:
            return run_elem(cx, x), It('chars', Ref(r.a, r.p, (cx.simp(dd.add(r.r[0], 1)), cx.simp(dd.sub(r.r[1], 1)))))
        raise Undecided('characters of an opaque run')
    if k >= len(v.e):
        return None, it
    ch, i, j = chars_of(v.e[k:k + 4], 1)[0]
    return ch, It('chars', v.sub(k + j, len(v.e)))


def run_elem(cx, x):
    """the first element of a run, as a fresh scalar of the run's class"""
    o = x.off
    nm = '%s[%s]' % (x.name, o if type(o) is int else repr(o))
    lo, hi = dd.interval(x.byte)
    b = dd.var(nm, lo, hi)
    if type(x.cls) is int:
        return b
    # the class is a condition on the generic atom: rename it
    c = dd.rename(x.cls, x.byte, b)
    cx.assume(c)
    return b


def b_chars(cx, it):
    r = it.f[0]
    if cx.decide(dd.eq(r.r[1], 0)):
        return None, it
    v = View(cx, r)
    cs = chars_of(v.e)
    ch, i, j = cs[-1]
    if type(ch) is Run:
        raise Undecided('last character of a run')
    return ch, It('chars', v.sub(0, i))


def n_charidx(cx, it):
    r, off = it.f
    x, n = n_chars(cx, It('chars', r))
    if x is None:
        return None, it
    r2 = n.f[0]
    d = dd.sub(r.r[1], r2.r[1])
    return pair(off, x), It('charidx', r2, dd.add(off, d))


def words(cx, it, pat):
    v = View(cx, it.f[0])
    e = v.e
    cs = chars_of(e)
    i = 0
    start = None
    for n, (ch, a, b) in enumerate(cs):
        k = char_at(cx, pat, ch)
        if type(ch) is Run:
            if start is None:
                if k:
                    continue
                if not nonempty(cx, ch):
                    continue
                start = a
            else:
                if not k:
                    continue
                if not nonempty(cx, ch):
                    continue
                return v.sub(start, a), It(it.k, v.sub(b, len(e)))
            continue
        if cx.decide(k):
            if start is not None:
                return v.sub(start, a), It(it.k, v.sub(b, len(e)))
        elif start is None:
            start = a
    if start is None:
        return None, It(it.k, v.sub(len(e), len(e)))
    return v.sub(start, len(e)), It(it.k, v.sub(len(e), len(e)))


def n_ws(cx, it):
    return words(cx, it, Space)


def n_aws(cx, it):
    return words(cx, it, AsciiSpace)


def n_split(cx, it):
    o = it.f[0]
    if o.v == 0:
        return None, it
    v = View(cx, o.f[0])
    pat = Pat(cx, it.f[1], it.f[2] if it.f[2] >= 0 else None)
    m = find(cx, v, pat)
    n = len(v.e)
    if m is None:
        if it.k in ('split_terminator', 'split_inclusive') and cx.decide(dd.eq(v.len, 0)):
            return None, setf(it, 0, NONE)
        return v.sub(0, n), setf(it, 0, NONE)
    i, j = m
    if it.k == 'split_inclusive':
        return v.sub(0, j), setf(it, 0, some(v.sub(j, n)))
    return v.sub(0, i), setf(it, 0, some(v.sub(j, n)))


def n_rsplit(cx, it):
    o = it.f[0]
    if o.v == 0:
        return None, it
    v = View(cx, o.f[0])
    pat = Pat(cx, it.f[1], it.f[2] if it.f[2] >= 0 else None)
    m = rfind(cx, v, pat)
    n = len(v.e)
    if m is None:
        return v.sub(0, n), setf(it, 0, NONE)
    i, j = m
    return v.sub(j, n), setf(it, 0, some(v.sub(0, i)))


def n_matches(cx, it):
    o = it.f[0]
    if o.v == 0:
        return None, it
    v = View(cx, o.f[0])
    m = find(cx, v, Pat(cx, it.f[1], it.f[2] if it.f[2] >= 0 else None))
    if m is None:
        return None, setf(it, 0, NONE)
    i, j = m
    if i == j:
        raise Undecided('matches of an empty pattern')
    x = v.sub(i, j)
    if it.k == 'match_indices':
        x = pair(dd.add(it.f[3], v.off[i]), x)
    return x, setf(setf(it, 0, some(v.sub(j, len(v.e)))), 3, dd.add(it.f[3], v.off[j]))


def n_splitn(cx, it):
    o = it.f[0]
    if o.v == 0:
        return None, it
    n = cx.conc(it.f[3])
    if n == 0:
        return None, it
    v = View(cx, o.f[0])
    if n == 1:
        return v.sub(0, len(v.e)), setf(setf(it, 0, NONE), 3, 0)
    x, i2 = n_split(cx, It('split', *it.f[:3]))
    return x, It('splitn', i2.f[0], it.f[1], it.f[2], n - 1)


def n_lines(cx, it):
    r = it.f[0]
    v = View(cx, r)
    if cx.decide(dd.eq(v.len, 0)):
        return None, it
    from .m_str import CharPat
    m = find(cx, v, CharPat(10))
    n = len(v.e)
    if m is None:
        return v.sub(0, n), It('lines', v.sub(n, n))
    i, j = m
    k = i
    if k and type(v.e[k - 1]) is not Run and cx.decide(dd.eq(v.e[k - 1], 13)):
        k -= 1
    return v.sub(0, k), It('lines', v.sub(j, n))


def n_slsplit(cx, it):
    o = it.f[0]
    if o.v == 0:
        return None, it
    v = View(cx, o.f[0])
    n = len(v.e)
    from .m_str import pure
    for i, x in enumerate(v.e):
        if type(x) is Run:
            if x.info and x.info[0] == 'fill':
                k = pure(cx, it.f[1], [cx.tmp(x.info[1])])
            elif x.byte is not None:
                k = dd.restrict(pure(cx, it.f[1], [cx.tmp(x.byte)], x.cls), x.cls)
            else:
                raise Undecided('split of an opaque run')
            if type(k) is not int:
                raise Undecided('run straddles the separator class')
            if k and nonempty(cx, x):
                raise Undecided('separator inside a run')
            continue
        k, f = cx.apply(it.f[1], [cx.tmp(x)])
        if cx.decide(k):
            return v.sub(0, i), setf(it, 0, some(v.sub(i + 1, n)))
    return v.sub(0, n), setf(it, 0, NONE)


def n_chunks(cx, it):
    r, n = it.f
    ln = cx.simp(r.r[1])
    if cx.decide(dd.eq(ln, 0)):
        return None, it
    if cx.decide(dd.lt(ln, n)):
        if it.k == 'chunks_exact':
            return None, it
        return r, It(it.k, Ref(r.a, r.p, (dd.add(r.r[0], ln), 0)), n)
    return Ref(r.a, r.p, (r.r[0], n)), It(it.k, Ref(r.a, r.p, (dd.add(r.r[0], n), cx.simp(dd.sub(ln, n)))), n)


def n_windows(cx, it):
    r, n = it.f
    if cx.decide(dd.lt(r.r[1], n)):
        return None, it
    return Ref(r.a, r.p, (r.r[0], n)), It(it.k, Ref(r.a, r.p, (dd.add(r.r[0], 1), dd.sub(r.r[1], 1))), n)


def n_opt(cx, it):
    i, pl = cx.variant(it.f[0])
    return (pl[0] if i == 1 else None), It('opt', NONE)


def n_repeat(cx, it):
    return it.f[0], it


def n_repeat_with(cx, it):
    v, f = cx.apply(it.f[0], [])
    return v, It('repeat_with', f)


def n_from_fn(cx, it):
    v, f = cx.apply(it.f[0], [])
    i, pl = cx.variant(v)
    return (pl[0] if i == 1 else None), It('from_fn', f)


def n_successors(cx, it):
    i, pl = cx.variant(it.f[0])
    if i == 0:
        return None, it
    t = cx.tmp(pl[0])
    v, f = cx.apply(it.f[1], [t])
    return pl[0], It('successors', v, f)


def n_user(cx, it):
    v, ty = it.f
    fid = user_next(cx, ty)
    t = cx.tmp(v)
    o = cx.run(fid, [t])
    i, pl = cx.variant(o)
    return (pl[0] if i == 1 else None), It('user', cx.load(t), ty)


def n_byref(cx, it):
    r = it.f[0]
    v = cx.load(r)
    if type(v) is It:
        x, n = it_next(cx, v)
        cx.store(r, n)
        return x, it
    raise Undecided('by-reference iteration over %s' % type(v).__name__)


def n_blines(cx, it):
    from .m_io import read_line
    t = it.f[0]
    ht = cx.tmp(t)
    buf = cx.tmp(Seq(()))
    res = read_line(cx, ht, buf)
    n = cx.load(ht)
    i, pl = cx.variant(res)
    if i == 1:
        return res, It('blines', n)
    if cx.decide(dd.eq(pl[0], 0)):
        return None, It('blines', n)
    e = list(cx.load(buf).e)
    if e and type(e[-1]) is not Run and cx.decide(dd.eq(e[-1], 10)):
        e.pop()
        if e and type(e[-1]) is not Run and cx.decide(dd.eq(e[-1], 13)):
            e.pop()
    return ok(Seq(tuple(e))), It('blines', n)


NEXT = {'sl': n_sl, 'vec': n_vec, 'range': n_range, 'rangefrom': n_rangefrom, 'map': n_map, 'inspect': n_inspect, 'filter': n_filter,
        'filter_map': n_filter_map, 'flat': n_flat, 'enum': n_enum, 'skip': n_skip, 'take': n_take, 'skip_while': n_skip_while,
        'take_while': n_take_while, 'map_while': n_map_while, 'scan': n_scan, 'chain': n_chain, 'zip': n_zip, 'rev': n_rev,
        'cloned': n_cloned, 'fuse': n_fuse, 'peek': n_peek, 'step': n_step, 'chars': n_chars, 'charidx': n_charidx, 'ws': n_ws,
        'aws': n_aws, 'split': n_split, 'split_terminator': n_split, 'split_inclusive': n_split, 'matches': n_matches, 'match_indices': n_matches, 'rsplit': n_rsplit, 'splitn': n_splitn,
        'lines': n_lines, 'slsplit': n_slsplit, 'chunks': n_chunks, 'chunks_exact': n_chunks, 'windows': n_windows, 'opt': n_opt,
        'repeat': n_repeat, 'repeat_with': n_repeat_with, 'from_fn': n_from_fn, 'successors': n_successors, 'user': n_user,
        'byref': n_byref, 'blines': n_blines}


# ------------------------------------------------------------------ next_back
def it_back(cx, it):
    k = it.k
    if k == 'sl':
        r = it.f[0]
        if cx.decide(dd.eq(r.r[1], 0)):
            return None, it
        s, n = r.r
        n1 = cx.simp(dd.sub(n, 1))
        return Ref(r.a, r.p + (('e', cx.simp(dd.add(s, n1))),)), It('sl', Ref(r.a, r.p, (s, n1)))
    if k == 'vec':
        e = it.f[0].e
        if not e:
            return None, it
        if type(e[-1]) is Run:
            raise Undecided('last element of a run')
        return e[-1], It('vec', Seq(e[:-1]))
    if k == 'range':
        a, b = it.f
        if not cx.decide(dd.lt(a, b)):
            return None, it
        b = cx.simp(dd.sub(b, 1))
        return b, It('range', a, b)
    if k == 'chars':
        return b_chars(cx, it)
    if k == 'rev':
        x, n = it_next(cx, it.f[0])
        return x, It('rev', n)
    if k == 'map':
        x, n = it_back(cx, it.f[0])
        it = setf(it, 0, n)
        if x is None:
            return None, it
        v, f = cx.apply(it.f[1], [x])
        return v, setf(it, 1, f)
    if k == 'filter':
        for _ in range(max(BUDGET, Limits.loop)):
            x, n = it_back(cx, it.f[0])
            it = setf(it, 0, n)
            if x is None:
                return None, it
            v, f = cx.apply(it.f[1], [cx.tmp(x)])
            it = setf(it, 1, f)
            if cx.decide(v):
                return x, it
    if k == 'cloned':
        x, n = it_back(cx, it.f[0])
        return (None if x is None else cx.load(x)), setf(it, 0, n)
    if k == 'chain':
        x, n = it_back(cx, it.f[1])
        it = setf(it, 1, n)
        if x is not None:
            return x, it
        x, n = it_back(cx, it.f[0])
        return x, setf(it, 0, n)
    if k == 'enum':
        # needs the remaining length
        ln = it_len(cx, it.f[0])
        x, n = it_back(cx, it.f[0])
        it = setf(it, 0, n)
        if x is None:
            return None, it
        return pair(dd.add(it.f[1], dd.sub(ln, 1)), x), it
    if k in ('ws', 'aws', 'split', 'lines', 'charidx', 'matches', 'match_indices'):
        xs, it2 = drain(cx, it)
        return it_back(cx, It('vec', Seq(tuple(xs))))
    if k == 'opt':
        return n_opt(cx, it)
    raise Undecided('next_back of ' + k)


def it_len(cx, it):
    k = it.k
    if k in ('sl',):
        return it.f[0].r[1]
    if k == 'vec':
        return seqlen(it.f[0])
    if k == 'range':
        a, b = it.f
        return cx.simp(dd.ite(dd.lt(a, b), dd.sub(b, a), 0))
    if k in ('map', 'enum', 'cloned', 'rev', 'inspect'):
        return it_len(cx, it.f[0])
    if k == 'chain':
        return dd.add(0 if it.f[2] else it_len(cx, it.f[0]), it_len(cx, it.f[1]))
    if k in ('take', 'skip'):
        n = it_len(cx, it.f[0])
        m = it.f[1]
        if k == 'take':
            return dd.ite(dd.lt(n, m), n, m)
        return dd.ite(dd.lt(n, m), 0, dd.sub(n, m))
    if k == 'chunks':
        n = it_len(cx, It('sl', it.f[0]))
        return dd.div(dd.add(n, dd.sub(it.f[1], 1)), cx.conc(it.f[1]))
    if k == 'chunks_exact':
        return dd.div(it.f[0].r[1], cx.conc(it.f[1]))
    raise Undecided('length of iterator ' + k)


def drain(cx, it):
    out = []
    for _ in range(max(BUDGET, Limits.loop)):
        x, it = it_next(cx, it)
        if x is None:
            return out, it
        out.append(x)
    raise Undecided('iteration budget')


# ------------------------------------------------------------------ receivers
def self_it(cx, v, c):
    """iterator value of a by-value receiver"""
    return to_it(cx, v, cx.I.M.targ(c, 0))


class Slot:
    """an iterator behind `&mut self`"""

    def __init__(self, cx, r, c):
        self.cx = cx
        ty = cx.I.M.targ(c, 0)
        while True:
            v = cx.load(r)
            if type(v) is Ref and v.r is None and type(cx.load(v)) in (It, Agg, Ref):
                r = v
                if ty is not None and cx.I.P.kind(ty) in ('ref', 'ptr'):
                    ty = cx.I.P.ty(ty)['e']
                continue
            break
        self.r = r
        self.raw = v
        self.ty = ty
        self.it = to_it(cx, v, ty)

    def save(self, it):
        if type(self.raw) is Agg:
            if it.k == 'range':
                n = self.cx.I.P.tys(self.ty)
                if n.startswith('std::ops::RangeInclusive<'):
                    self.cx.store(self.r, it)
                else:
                    self.cx.store(self.r, Agg(0, (it.f[0], it.f[1])))
            elif it.k == 'rangefrom':
                self.cx.store(self.r, Agg(0, (it.f[0],)))
            elif it.k == 'user':
                self.cx.store(self.r, it.f[0])
            else:
                self.cx.store(self.r, it)
        else:
            self.cx.store(self.r, it)


def optv(x):
    return NONE if x is None else some(x)


@model('IntoIterator::into_iter', 'array::IntoIter::new', 'IntoIter::new', 'Vec::into_iter', 'array::iter', 'Option::into_iter', 'Option::iter', 'array::iter_mut',
       'Option::iter_mut')
def _into(cx, args, c, f):
    if canon(c['d']) in ('Option::iter', 'Option::iter_mut'):
        w = cx.load(args[0])
        i, pl = cx.variant(w)
        return It('opt', some(Ref(args[0].a, args[0].p + (('v', 1), 0))) if i == 1 else NONE)
    v = args[0]
    if f is not None and f['c'] in cx.I.ws:
        return NA
    M = cx.I.M
    ty = M.targ(c, 0)
    if type(v) is Agg and canon(c['d']) == 'IntoIterator::into_iter':
        n = M.tname(ty)
        if not n.startswith(('std::option', 'std::result')):
            return v        # ranges and workspace iterators are their own iterators
    return to_it(cx, v, ty)


@model('Iterator::next')
def _next(cx, args, c, f):
    s = Slot(cx, args[0], c)
    x, it = it_next(cx, s.it)
    s.save(it)
    return optv(x)


@model('DoubleEndedIterator::next_back')
def _nback(cx, args, c, f):
    s = Slot(cx, args[0], c)
    x, it = it_back(cx, s.it)
    s.save(it)
    return optv(x)


@model('DoubleEndedIterator::rfind', 'DoubleEndedIterator::rfold', 'Iterator::rposition')
def _rf(cx, args, c, f):
    n = canon(c['d']).split('::')[1]
    if n == 'rfold':
        it = It('rev', self_it(cx, args[0], c))
        acc, fn = args[1], args[2]
        for _ in range(max(BUDGET, Limits.loop)):
            x, it = it_next(cx, it)
            if x is None:
                return acc
            acc, fn = cx.apply(fn, [acc, x])
    s = Slot(cx, args[0], c)
    it = s.it
    fn = args[1]
    i = it_len(cx, it) if n == 'rposition' else 0
    for _ in range(max(BUDGET, Limits.loop)):
        x, it = it_back(cx, it)
        s.save(it)
        if x is None:
            return NONE
        i = dd.sub(i, 1)
        v, fn = cx.apply(fn, [cx.tmp(x) if n == 'rfind' else x])
        if cx.decide(v):
            return some(x if n == 'rfind' else i)
    raise Undecided('iteration budget')


def adapter(name, build):
    @model(*name)
    def _a(cx, args, c, f):
        return build(cx, self_it(cx, args[0], c), args[1:], c)
    return _a


def reg_adapters():
    adapter(['Iterator::map'], lambda cx, it, a, c: It('map', it, a[0]))
    adapter(['Iterator::inspect'], lambda cx, it, a, c: It('inspect', it, a[0]))
    adapter(['Iterator::filter'], lambda cx, it, a, c: It('filter', it, a[0]))
    adapter(['Iterator::filter_map'], lambda cx, it, a, c: It('filter_map', it, a[0]))
    adapter(['Iterator::enumerate'], lambda cx, it, a, c: It('enum', it, 0))
    adapter(['Iterator::skip'], lambda cx, it, a, c: It('skip', it, a[0]))
    adapter(['Iterator::take'], lambda cx, it, a, c: It('take', it, a[0]))
    adapter(['Iterator::skip_while'], lambda cx, it, a, c: It('skip_while', it, a[0], 0))
    adapter(['Iterator::take_while'], lambda cx, it, a, c: It('take_while', it, a[0], 0))
    adapter(['Iterator::map_while'], lambda cx, it, a, c: It('map_while', it, a[0]))
    adapter(['Iterator::scan'], lambda cx, it, a, c: It('scan', it, a[1], a[0]))
    adapter(['Iterator::rev'], lambda cx, it, a, c: It('rev', it))
    adapter(['Iterator::cloned', 'Iterator::copied'], lambda cx, it, a, c: It('cloned', it))
    adapter(['Iterator::fuse'], lambda cx, it, a, c: It('fuse', it, 0))
    adapter(['Iterator::peekable'], lambda cx, it, a, c: It('peek', it, NONE))
    adapter(['Iterator::step_by'], lambda cx, it, a, c: It('step', it, dd.sub(a[0], 1), 1))
    adapter(['Iterator::chain'], lambda cx, it, a, c: It('chain', it, to_it(cx, a[0], cx.I.M.targ(c, 1)), 0))
    adapter(['Iterator::zip', 'iter::zip'], lambda cx, it, a, c: It('zip', it, to_it(cx, a[0], cx.I.M.targ(c, 1))))
    adapter(['Iterator::flat_map'], lambda cx, it, a, c: It('flat', it, NONE, a[0], cx.I.M.targ(c, 1)))
    adapter(['Iterator::flatten'], lambda cx, it, a, c: It('flat', it, NONE, None, None))


reg_adapters()


@model('Iterator::by_ref')
def _byref(cx, args, c, f):
    return args[0]


@model('iter::once')
def _once(cx, args, c, f):
    return It('opt', some(args[0]))


@model('iter::empty')
def _empty(cx, args, c, f):
    return It('opt', NONE)


@model('iter::repeat')
def _rep(cx, args, c, f):
    return It('repeat', args[0])


@model('iter::repeat_n')
def _repn(cx, args, c, f):
    return It('take', It('repeat', args[0]), args[1])


@model('iter::repeat_with')
def _repw(cx, args, c, f):
    return It('repeat_with', args[0])


@model('iter::from_fn')
def _ff(cx, args, c, f):
    return It('from_fn', args[0])


@model('iter::successors')
def _succ(cx, args, c, f):
    return It('successors', args[0], args[1])


@model('Peekable::peek', 'Peekable::peek_mut')
def _peek(cx, args, c, f):
    r = args[0]
    it = cx.load(r)
    while type(it) is Ref:
        r = it
        it = cx.load(r)
    if it.f[1].v == 0:
        x, it = inner_next(cx, it)
        it = setf(it, 1, some(optv(x)))
        cx.store(r, it)
    i, pl = cx.variant(it.f[1].f[0])
    if i == 0:
        return NONE
    return some(cx.tmp(pl[0]))


@model('Peekable::next_if', 'Peekable::next_if_eq')
def _nextif(cx, args, c, f):
    r = args[0]
    it = cx.load(r)
    while type(it) is Ref:
        r = it
        it = cx.load(r)
    if it.f[1].v == 0:
        x, it = inner_next(cx, it)
        it = setf(it, 1, some(optv(x)))
    i, pl = cx.variant(it.f[1].f[0])
    if i == 0:
        cx.store(r, it)
        return NONE
    t = cx.tmp(pl[0])
    if canon(c['d']).endswith('_eq'):
        k = eq_val(cx, t, args[1])
    else:
        k, _ = cx.apply(args[1], [t])
    if cx.decide(k):
        cx.store(r, setf(it, 1, NONE))
        return some(pl[0])
    cx.store(r, it)
    return NONE


# ------------------------------------------------------------------ consumers
@model('Iterator::for_each')
def _foreach(cx, args, c, f):
    it = self_it(cx, args[0], c)
    fn = args[1]
    for _ in range(max(BUDGET, Limits.loop)):
        x, it = it_next(cx, it)
        if x is None:
            return UNIT
        _v, fn = cx.apply(fn, [x])
    raise Undecided('iteration budget')


@model('Iterator::fold')
def _fold(cx, args, c, f):
    it = self_it(cx, args[0], c)
    acc, fn = args[1], args[2]
    for _ in range(max(BUDGET, Limits.loop)):
        x, it = it_next(cx, it)
        if x is None:
            return acc
        acc, fn = cx.apply(fn, [acc, x])
    raise Undecided('iteration budget')


@model('Iterator::reduce')
def _reduce(cx, args, c, f):
    it = self_it(cx, args[0], c)
    fn = args[1]
    acc, it = it_next(cx, it)
    if acc is None:
        return NONE
    for _ in range(max(BUDGET, Limits.loop)):
        x, it = it_next(cx, it)
        if x is None:
            return some(acc)
        acc, fn = cx.apply(fn, [acc, x])
    raise Undecided('iteration budget')


@model('Iterator::try_fold', 'Iterator::try_for_each')
def _tryfold(cx, args, c, f):
    M = cx.I.M
    s = Slot(cx, args[0], c)
    it = s.it
    each = canon(c['d']).endswith('each')
    acc, fn = (UNIT, args[1]) if each else (args[1], args[2])
    ts = [x for x in c['a'] if type(x) is int]
    rn = M.tname(ts[-1])
    opt = rn.startswith('std::option::Option<')
    if not opt and not rn.startswith('std::result::Result<'):
        return NA
    for _ in range(max(BUDGET, Limits.loop)):
        x, it = it_next(cx, it)
        s.save(it)
        if x is None:
            return some(acc) if opt else ok(acc)
        v, fn = cx.apply(fn, [x] if each else [acc, x])
        i, pl = cx.variant(v)
        if opt:
            if i == 0:
                return NONE
            acc = pl[0] if pl else UNIT
        else:
            if i == 1:
                return err(pl[0])
            acc = pl[0] if pl else UNIT
    raise Undecided('iteration budget')


def run_quant(cx, it, fn, want):
    """any/all over characters or bytes of runs: decided per class.  Returns (applicable, it')"""
    return None


@model('Iterator::any', 'Iterator::all')
def _anyall(cx, args, c, f):
    s = Slot(cx, args[0], c)
    it = s.it
    anyq = canon(c['d']).endswith('any')
    fn = args[1]
    # whole-run shortcut
    if it.k in ('chars', 'cloned', 'sl'):
        base = it.f[0].f[0] if it.k == 'cloned' and type(it.f[0]) is It and it.f[0].k == 'sl' else it.f[0] if it.k != 'cloned' else None
        if type(base) is Ref:
            v = View(cx, base)
            if any(type(x) is Run for x in v.e):
                return quant_view(cx, it, v, fn, anyq)
    for _ in range(max(BUDGET, Limits.loop)):
        x, it = it_next(cx, it)
        s.save(it)
        if x is None:
            return 0 if anyq else 1
        v, fn = cx.apply(fn, [x])
        if cx.decide(v):
            if anyq:
                return 1
        elif not anyq:
            return 0
    raise Undecided('iteration budget')


def quant_view(cx, it, v, fn, anyq):
    from .m_str import pure
    byref = it.k == 'sl'
    for x in v.e:
        if type(x) is Run:
            if x.byte is None:
                raise Undecided('quantifier over opaque run')
            k = pure(cx, fn, [cx.tmp(x.byte) if byref else x.byte], x.cls)
            k = dd.restrict(k, x.cls)
            if type(k) is not int:
                raise Undecided('run straddles a class')
            if bool(k) == anyq and nonempty(cx, x):
                return 1 if anyq else 0
            continue
        k, fn = cx.apply(fn, [cx.tmp(x) if byref else x])
        if cx.decide(k) == anyq:
            return 1 if anyq else 0
    return 0 if anyq else 1


@model('Iterator::find', 'Iterator::find_map', 'Iterator::position')
def _findit(cx, args, c, f):
    s = Slot(cx, args[0], c)
    it = s.it
    n = canon(c['d']).split('::')[1]
    fn = args[1]
    i = 0
    for _ in range(max(BUDGET, Limits.loop)):
        x, it = it_next(cx, it)
        s.save(it)
        if x is None:
            return NONE
        v, fn = cx.apply(fn, [cx.tmp(x) if n == 'find' else x])
        if n == 'find_map':
            k, pl = cx.variant(v)
            if k == 1:
                return some(pl[0])
        elif cx.decide(v):
            return some(x if n == 'find' else i)
        i += 1
    raise Undecided('iteration budget')


@model('Iterator::count', 'Iterator::last', 'ExactSizeIterator::len')
def _count(cx, args, c, f):
    n = canon(c['d']).split('::')[1]
    if n == 'len':
        return it_len(cx, cx.deref(args[0]))
    it = self_it(cx, args[0], c)
    if n == 'count' and it.k == 'chars':
        v = View(cx, it.f[0])
        m = 0
        for ch, i, j in chars_of(v.e):
            m = dd.add(m, ch.len if type(ch) is Run else 1)
        return m
    if n == 'count':
        try:
            return it_len(cx, it)
        except Undecided:
            pass
    k = 0
    last = None
    for _ in range(max(BUDGET, Limits.loop)):
        x, it = it_next(cx, it)
        if x is None:
            return k if n == 'count' else optv(last)
        k += 1
        last = x
    raise Undecided('iteration budget')


@model('Iterator::nth')
def _nth(cx, args, c, f):
    s = Slot(cx, args[0], c)
    it = s.it
    n = cx.conc(args[1])
    for _ in range(n + 1):
        x, it = it_next(cx, it)
        s.save(it)
        if x is None:
            return NONE
    return some(x)


@model('Iterator::sum', 'Iterator::product')
def _sum(cx, args, c, f):
    M = cx.I.M
    it = self_it(cx, args[0], c)
    ts = [x for x in c['a'] if type(x) is int]
    ii = cx.I.P.intinfo(ts[-1])
    if ii is None:
        return NA
    prod = canon(c['d']).endswith('product')
    acc = 1 if prod else 0
    from .interp import overflow
    for _ in range(max(BUDGET, Limits.loop)):
        x, it = it_next(cx, it)
        if x is None:
            return acc
        x = cx.deref(x)
        acc = dd.mul(acc, x) if prod else dd.add(acc, x)
        if cx.decide(overflow(acc, *ii)):
            raise PanicExc(('attempt to add with overflow', None))
        acc = cx.simp(acc)
    raise Undecided('iteration budget')


@model('Iterator::max', 'Iterator::min')
def _maxit(cx, args, c, f):
    it = self_it(cx, args[0], c)
    mx = canon(c['d']).endswith('max')
    xs, it = drain(cx, it)
    if not xs:
        return NONE
    acc = xs[0]
    for x in xs[1:]:
        a, b = cx.deref(acc), cx.deref(x)
        if type(a) not in SCALARS or type(b) not in SCALARS:
            raise Undecided('max of aggregates')
        if type(acc) is Ref:
            k = dd.le(a, b) if mx else dd.lt(b, a)
            if cx.decide(k):
                acc = x
        else:
            k = dd.le(a, b) if mx else dd.lt(b, a)
            acc = dd.ite(k, b, a)
    return some(acc)


@model('Iterator::max_by_key', 'Iterator::min_by_key')
def _maxkey(cx, args, c, f):
    it = self_it(cx, args[0], c)
    mx = 'max' in canon(c['d'])
    xs, it = drain(cx, it)
    fn = args[1]
    best = None
    for x in xs:
        k, fn = cx.apply(fn, [cx.tmp(x)])
        if best is None:
            best = (k, x)
            continue
        a, b = cx.deref(best[0]), cx.deref(k)
        if type(a) not in SCALARS:
            raise Undecided('max_by_key')
        if cx.decide(dd.le(a, b) if mx else dd.lt(b, a)):
            best = (k, x)
    return optv(None if best is None else best[1])


# ------------------------------------------------------------------ collect
def whole(it):
    """contents of an iterator whose items are exactly the elements of a sequence (runs kept)"""
    return None


def items_of(cx, it):
    """all items; runs kept when the iterator passes elements through unchanged"""
    if it.k == 'vec':
        return list(it.f[0].e)
    if it.k == 'cloned' and type(it.f[0]) is It and it.f[0].k == 'sl':
        r = it.f[0].f[0]
        return list(cx.cut(cx.get(r.a, r.p), r.r[0], r.r[1]))
    if it.k == 'chars':
        v = View(cx, it.f[0])
        return [ch for ch, i, j in chars_of(v.e)]
    if it.k == 'chain':
        return ([] if it.f[2] else items_of(cx, it.f[0])) + items_of(cx, it.f[1])
    if it.k == 'take' and it.f[0].k == 'repeat' and type(it.f[0].f[0]) is int:
        from .values import fill
        n = cx.simp(it.f[1])
        return [it.f[0].f[0]] * n if type(n) is int else [fill(it.f[0].f[0], n)]
    if it.k == 'rev':
        xs = items_of(cx, it.f[0])
        if not any(type(x) is Run for x in xs):
            return xs[::-1]
    return drain(cx, it)[0]


def encode(ch):
    if type(ch) is int:
        return tuple(chr(ch).encode('utf8'))
    if type(ch) is Run:
        return (ch,)
    if dd.interval(ch)[1] > 0x7f:
        raise Undecided('symbolic non-ASCII character')
    return (ch,)


def gather(cx, it, ty):
    """collect into the given type"""
    P = cx.I.P
    n = P.tys(ty)
    if n.startswith('std::vec::Vec<') or n.startswith('std::collections::VecDeque<'):
        return Seq(tuple(items_of(cx, it)))
    if n.startswith('std::boxed::Box<['):
        s = Seq(tuple(items_of(cx, it)))
        r = cx.tmp(s)
        return Ref(r.a, (), (0, seqlen(s)))
    if n.startswith('std::string::String'):
        out = ()
        for x in items_of(cx, it):
            if type(x) is Ref:
                w = cx.deref(x)
                out += w.e if type(w) is Seq else encode(w)
            elif type(x) is Seq:
                out += x.e
            else:
                out += encode(x)
        return Seq(out)
    if n.startswith('std::result::Result<') or n.startswith('std::option::Option<'):
        opt = n.startswith('std::option')
        inner = P.ty(ty)['variants'][1 if opt else 0]['f'][0][1]
        out = []
        for _ in range(max(BUDGET, Limits.loop)):
            x, it = it_next(cx, it)
            if x is None:
                break
            i, pl = cx.variant(x)
            if opt and i == 0:
                return NONE
            if not opt and i == 1:
                return err(pl[0])
            out.append(pl[0] if pl else UNIT)
        v = gather(cx, It('vec', Seq(tuple(out))), inner)
        return some(v) if opt else ok(v)
    if n == '()':
        drain(cx, it)
        return UNIT
    raise Undecided('collect into ' + n)


@model('Iterator::collect', 'FromIterator::from_iter')
def _collect(cx, args, c, f):
    M = cx.I.M
    if canon(c['d']).endswith('from_iter'):
        return gather(cx, to_it(cx, args[0], M.targ(c, 2)), M.targ(c, 0))
    return gather(cx, self_it(cx, args[0], c), M.targ(c, 1))


@model('Iterator::unzip')
def _unzip(cx, args, c, f):
    xs, _ = drain(cx, self_it(cx, args[0], c))
    return pair(Seq(tuple(x.f[0] for x in xs)), Seq(tuple(x.f[1] for x in xs)))


@model('Iterator::partition')
def _partition(cx, args, c, f):
    xs, _ = drain(cx, self_it(cx, args[0], c))
    fn = args[1]
    a, b = [], []
    for x in xs:
        k, fn = cx.apply(fn, [cx.tmp(x)])
        (a if cx.decide(k) else b).append(x)
    return pair(Seq(tuple(a)), Seq(tuple(b)))


@model('Extend::extend', 'Vec::extend')
def _extend(cx, args, c, f):
    M = cx.I.M
    r = args[0]
    v = cx.load(r)
    while type(v) is Ref:
        r = v
        v = cx.load(r)
    if type(v) is not Seq:
        return NA
    ts = [x for x in c['a'] if type(x) is int]
    it = to_it(cx, args[1], ts[-1])
    xs = items_of(cx, it)
    isstr = M.tname(M.targ(c, 0)).startswith('std::string::String')
    out = ()
    for x in xs:
        if isstr:
            if type(x) is Ref:
                w = cx.deref(x)
                out += w.e if type(w) is Seq else encode(w)
            elif type(x) is Seq:
                out += x.e
            else:
                out += encode(x)
        elif type(x) is Ref and type(cx.load(x)) in SCALARS:
            out += (cx.load(x),)
        else:
            out += (x,)
    v = cx.load(r)
    cx.store(r, Seq(v.e + out))
    return UNIT


@model('Iterator::eq', 'Iterator::ne')
def _iteq(cx, args, c, f):
    a, _ = drain(cx, self_it(cx, args[0], c))
    b, _ = drain(cx, to_it(cx, args[1], cx.I.M.targ(c, 1)))
    ne = canon(c['d']).endswith('ne')
    if len(a) != len(b):
        return 1 if ne else 0
    r = 1
    for x, y in zip(a, b):
        r = dd.band(r, eq_val(cx, x, y))
    return dd.bnot(r) if ne else r


@model('Iterator::size_hint')
def _sh(cx, args, c, f):
    raise Undecided('size_hint')


@model('RangeInclusive::new')
def _rinew(cx, args, c, f):
    return Agg(0, (args[0], args[1], 0))


@model('Range::contains', 'RangeInclusive::contains', 'RangeFrom::contains', 'RangeTo::contains', 'RangeBounds::contains', 'RangeToInclusive::contains')
def _rcontains(cx, args, c, f):
    v = cx.load(args[0])
    x = cx.deref(args[1])
    n = canon(c['d']).split('::')[0]
    if n == 'RangeBounds':
        n = cx.I.M.tname(cx.I.M.targ(c, 0)).split('<')[0].split('::')[-1]
    if n == 'Range':
        return dd.band(dd.le(v.f[0], x), dd.lt(x, v.f[1]))
    if n == 'RangeInclusive':
        return dd.band(dd.le(v.f[0], x), dd.le(x, v.f[1]))
    if n == 'RangeFrom':
        return dd.le(v.f[0], x)
    if n == 'RangeTo':
        return dd.lt(x, v.f[0])
    if n == 'RangeToInclusive':
        return dd.le(x, v.f[0])
    return NA


@model('RangeInclusive::start', 'RangeInclusive::end')
def _ristart(cx, args, c, f):
    r = args[0]
    return Ref(r.a, r.p + (0 if canon(c['d']).endswith('start') else 1,))


@model('Range::is_empty', 'RangeInclusive::is_empty')
def _rempty(cx, args, c, f):
    v = cx.load(args[0])
    if canon(c['d']).startswith('Range::'):
        return dd.bnot(dd.lt(v.f[0], v.f[1]))
    return dd.lt(v.f[1], v.f[0])
