"""Library models: Vec, slices, arrays."""
from . import dd
from .dd import Undecided, Lin, Node
from .models import model, NA, NONE, some, ok, err, canon
from .values import Agg, Sum, UNIT, Clo, FnVal, Run, Seq, Ref, Opaque, It, Obj, same, SCALARS, fill
from .interp import PanicExc, seqlen
from .m_core import seqref, eq_val, eq_seq, cmp_val


def vload(cx, r):
    v = cx.load(r)
    while type(v) is Ref and v.r is None:
        r = v
        v = cx.load(v)
    if type(v) is not Seq:
        raise Undecided('expected a sequence, got %s' % type(v).__name__)
    return r, v


@model('Vec::new', 'Vec::with_capacity', 'String::new', 'String::with_capacity', 'PathBuf::new')
def _new(cx, args, c, f):
    return Seq(())


@model('vec::from_elem')
def _fe(cx, args, c, f):
    n = cx.simp(args[1])
    v = args[0]
    if type(n) is int and n <= 4096:
        return Seq((v,) * n)
    if type(v) is int:
        return Seq((fill(v, n),))
    return Seq((v,) * cx.conc(n))


@model('Vec::push')
def _push(cx, args, c, f):
    r, v = vload(cx, args[0])
    cx.store(r, Seq(v.e + (args[1],)))
    return UNIT


@model('Vec::pop')
def _pop(cx, args, c, f):
    r, v = vload(cx, args[0])
    if not v.e:
        return NONE
    x = v.e[-1]
    if type(x) is Run:
        if cx.decide(dd.eq(x.len, 0)):
            cx.store(r, Seq(v.e[:-1]))
            return _pop(cx, args, c, f)
        raise Undecided('pop from opaque run')
    cx.store(r, Seq(v.e[:-1]))
    return some(x)


@model('Vec::len', 'slice::len', 'str::len', 'String::len', 'array::len')
def _len(cx, args, c, f):
    r = args[0]
    if type(r) is Ref and r.r is not None:
        return r.r[1]
    return seqlen(vload(cx, r)[1])


@model('Vec::is_empty', 'slice::is_empty', 'str::is_empty', 'String::is_empty')
def _isempty(cx, args, c, f):
    return dd.eq(_len(cx, args, c, f), 0)


@model('Vec::clear', 'String::clear')
def _clear(cx, args, c, f):
    cx.store(args[0], Seq(()))
    return UNIT


@model('Vec::reserve', 'String::reserve', 'Vec::shrink_to_fit', 'Vec::reserve_exact', 'String::shrink_to_fit')
def _reserve(cx, args, c, f):
    return UNIT


@model('Vec::capacity')
def _cap(cx, args, c, f):
    raise Undecided('capacity')


@model('Vec::truncate', 'String::truncate')
def _trunc(cx, args, c, f):
    r, v = vload(cx, args[0])
    n = args[1]
    ln = seqlen(v)
    if cx.decide(dd.lt(n, ln)):
        cx.store(r, Seq(cx.cut(v, 0, n)))
    return UNIT


@model('Vec::resize')
def _resize(cx, args, c, f):
    r, v = vload(cx, args[0])
    n = args[1]
    ln = seqlen(v)
    d = cx.simp(dd.sub(n, ln))
    if cx.decide(dd.le(0, d)):
        d = cx.simp(d)
        x = args[2]
        if type(d) is int and d <= 4096:
            cx.store(r, Seq(v.e + (x,) * d))
        elif type(x) is int:
            cx.store(r, Seq(v.e + (fill(x, d),)))
        else:
            raise Undecided('resize')
    else:
        cx.store(r, Seq(cx.cut(v, 0, n)))
    return UNIT


@model('Vec::remove')
def _remove(cx, args, c, f):
    r, v = vload(cx, args[0])
    n = cx.conc(args[1])
    if not v.flat():
        raise Undecided('remove with opaque runs')
    if n >= len(v.e):
        raise PanicExc(('removal index out of range', None))
    cx.store(r, Seq(v.e[:n] + v.e[n + 1:]))
    return v.e[n]


@model('Vec::swap_remove')
def _swapremove(cx, args, c, f):
    r, v = vload(cx, args[0])
    n = cx.conc(args[1])
    if not v.flat():
        raise Undecided('swap_remove with opaque runs')
    if n >= len(v.e):
        raise PanicExc(('swap_remove index out of range', None))
    x = v.e[n]
    e = list(v.e)
    e[n] = e[-1]
    e.pop()
    cx.store(r, Seq(tuple(e)))
    return x


@model('Vec::insert')
def _insert(cx, args, c, f):
    r, v = vload(cx, args[0])
    n = cx.simp(args[1])
    if type(n) is int and n == 0:
        cx.store(r, Seq((args[2],) + v.e))
        return UNIT
    if v.flat():
        n = cx.conc(n)
        if n > len(v.e):
            raise PanicExc(('insertion index out of range', None))
    a, b = cx.split_at(v.e, n)
    cx.store(r, Seq(a + (args[2],) + b))
    return UNIT


@model('Vec::extend_from_slice', 'Vec::append', 'String::push_str', 'Vec::extend_from_within', 'OsString::push')
def _efs(cx, args, c, f):
    r, v = vload(cx, args[0])
    n = canon(c['d'])
    if n == 'Vec::extend_from_within':
        return NA
    w = cx.deref(args[1])
    if type(w) is not Seq:
        raise Undecided('extend by %s' % type(w).__name__)
    cx.store(r, Seq(v.e + w.e))
    if n == 'Vec::append':
        cx.store(args[1], Seq(()))
    return UNIT


@model('slice::concat')
def _concat(cx, args, c, f):
    v = cx.load(seqref(cx, args[0]))
    out = ()
    for x in v.e:
        y = cx.deref(x) if type(x) is Ref else x
        out = out + y.e
    return Seq(out)


@model('slice::join')
def _join(cx, args, c, f):
    v = cx.load(seqref(cx, args[0]))
    s = cx.deref(args[1])
    if type(s) is not Seq:
        s = Seq((s,))
    out = ()
    for i, x in enumerate(v.e):
        y = cx.deref(x) if type(x) is Ref else x
        out = out + (s.e if i else ()) + y.e
    return Seq(out)


@model('slice::repeat', 'str::repeat')
def _repeat(cx, args, c, f):
    v = cx.load(seqref(cx, args[0]))
    n = cx.simp(args[1])
    if type(n) is not int and len(v.e) == 1 and type(v.e[0]) is int:
        return Seq((fill(v.e[0], n),))
    return Seq(v.e * cx.conc(n))


@model('slice::iter', 'slice::iter_mut', 'Vec::iter', 'Vec::iter_mut')
def _iter(cx, args, c, f):
    return It('sl', seqref(cx, args[0]))


@model('slice::first', 'slice::first_mut')
def _first(cx, args, c, f):
    r = seqref(cx, args[0])
    if cx.decide(dd.eq(r.r[1], 0)):
        return NONE
    return some(Ref(r.a, r.p + (('e', r.r[0]),)))


@model('slice::last', 'slice::last_mut')
def _last(cx, args, c, f):
    r = seqref(cx, args[0])
    if cx.decide(dd.eq(r.r[1], 0)):
        return NONE
    return some(Ref(r.a, r.p + (('e', cx.simp(dd.sub(dd.add(r.r[0], r.r[1]), 1))),)))


@model('slice::split_first')
def _sf(cx, args, c, f):
    r = seqref(cx, args[0])
    if cx.decide(dd.eq(r.r[1], 0)):
        return NONE
    return some(Agg(0, (Ref(r.a, r.p + (('e', r.r[0]),)), Ref(r.a, r.p, (dd.add(r.r[0], 1), dd.sub(r.r[1], 1))))))


@model('slice::split_last')
def _slast(cx, args, c, f):
    r = seqref(cx, args[0])
    if cx.decide(dd.eq(r.r[1], 0)):
        return NONE
    n = dd.sub(r.r[1], 1)
    return some(Agg(0, (Ref(r.a, r.p + (('e', dd.add(r.r[0], n)),)), Ref(r.a, r.p, (r.r[0], n)))))


def rng_of(cx, idx, ln, tname):
    """(start, end) of a range index value, and the kind of its failure"""
    if tname.startswith('std::ops::RangeFull'):
        return 0, ln
    if tname.startswith('std::ops::RangeFrom<'):
        return idx.f[0], ln
    if tname.startswith('std::ops::RangeToInclusive<'):
        return 0, dd.add(idx.f[0], 1)
    if tname.startswith('std::ops::RangeTo<'):
        return 0, idx.f[0]
    if tname.startswith('std::ops::RangeInclusive<'):
        if type(idx) is It and idx.k == 'range':
            return idx.f[0], idx.f[1]
        return idx.f[0], dd.add(idx.f[1], 1)
    if tname.startswith('std::ops::Range<'):
        if type(idx) is It and idx.k == 'range':
            return idx.f[0], idx.f[1]
        return idx.f[0], idx.f[1]
    return None


def index_common(cx, r, idx, it):
    """Ref or None when out of bounds"""
    if it == 'usize':
        if not cx.decide(dd.lt(idx, r.r[1])):
            return None
        return Ref(r.a, r.p + (('e', cx.simp(dd.add(r.r[0], idx))),))
    b = rng_of(cx, idx, r.r[1], it)
    if b is None:
        raise Undecided('index by ' + it)
    s, e = b
    if not cx.decide(dd.band(dd.le(s, e), dd.le(e, r.r[1]))):
        return None
    return Ref(r.a, r.p, (cx.simp(dd.add(r.r[0], s)), cx.simp(dd.sub(e, s))))


@model('Index::index', 'IndexMut::index_mut')
def _index(cx, args, c, f):
    M = cx.I.M
    it = M.tname(M.targ(c, 1))
    r = seqref(cx, args[0])
    x = index_common(cx, r, args[1], it)
    if x is None:
        raise PanicExc(('index out of bounds', None))
    return x


@model('slice::get', 'slice::get_mut', 'str::get')
def _get(cx, args, c, f):
    M = cx.I.M
    it = None
    for k in range(3):
        n = M.tname(M.targ(c, k))
        if n == 'usize' or n.startswith('std::ops::Range'):
            it = n
    # the element type may itself be usize: the index type is the last one
    last = [x for x in c['a'] if type(x) is int]
    if last:
        it = M.tname(last[-1])
    r = seqref(cx, args[0])
    x = index_common(cx, r, args[1], it)
    return NONE if x is None else some(x)


@model('slice::get_unchecked', 'slice::get_unchecked_mut')
def _getu(cx, args, c, f):
    x = _get(cx, args, c, f)
    if x is NONE:
        raise Undecided('unchecked index')
    return x.f[0]


@model('slice::split_at', 'str::split_at', 'slice::split_at_mut')
def _splitat(cx, args, c, f):
    r = seqref(cx, args[0])
    n = args[1]
    if not cx.decide(dd.le(n, r.r[1])):
        raise PanicExc(('split index out of bounds', None))
    a = Ref(r.a, r.p, (r.r[0], n))
    b = Ref(r.a, r.p, (cx.simp(dd.add(r.r[0], n)), cx.simp(dd.sub(r.r[1], n))))
    return Agg(0, (a, b))


@model('slice::copy_from_slice', 'slice::clone_from_slice')
def _cfs(cx, args, c, f):
    r = seqref(cx, args[0])
    s = seqref(cx, args[1])
    if not cx.decide(dd.eq(r.r[1], s.r[1])):
        raise PanicExc(('copy_from_slice: source slice length does not match destination slice length', None))
    cx.store(r, cx.load(s))
    return UNIT


@model('slice::fill')
def _fill(cx, args, c, f):
    r = seqref(cx, args[0])
    n = cx.simp(r.r[1])
    if type(n) is int:
        cx.store(r, Seq((args[1],) * n))
    else:
        cx.store(r, Seq((fill(args[1], n),)))
    return UNIT


@model('slice::reverse')
def _reverse(cx, args, c, f):
    r = seqref(cx, args[0])
    v = cx.load(r)
    if not v.flat():
        raise Undecided('reverse of opaque run')
    cx.store(r, Seq(tuple(reversed(v.e))))
    return UNIT


@model('slice::swap')
def _swap(cx, args, c, f):
    r = seqref(cx, args[0])
    v = cx.load(r)
    i = cx.conc(args[1])
    j = cx.conc(args[2])
    e = list(v.e)
    if not v.flat() or max(i, j) >= len(e):
        raise Undecided('swap')
    e[i], e[j] = e[j], e[i]
    cx.store(r, Seq(tuple(e)))
    return UNIT


@model('slice::contains')
def _contains(cx, args, c, f):
    v = cx.load(seqref(cx, args[0]))
    x = cx.load(args[1])
    r = 0
    for e in v.e:
        if type(e) is Run:
            if e.byte is not None and type(x) is int:
                from .m_core import possible
                if not possible(e, x):
                    continue
            raise Undecided('contains on opaque run')
        r = dd.bor(r, eq_val(cx, e, x))
    return r


@model('slice::starts_with', 'slice::ends_with')
def _sw(cx, args, c, f):
    v = cx.load(seqref(cx, args[0]))
    w = cx.load(seqref(cx, args[1]))
    if not v.flat() or not w.flat():
        raise Undecided('starts_with on opaque run')
    n = len(w.e)
    if n > len(v.e):
        return 0
    part = v.e[:n] if canon(c['d']).endswith('starts_with') else v.e[len(v.e) - n:]
    return eq_seq(cx, Seq(part), w)


@model('slice::is_ascii', 'str::is_ascii')
def _isascii(cx, args, c, f):
    v = cx.load(seqref(cx, args[0]))
    r = 1
    for e in v.e:
        if type(e) is Run:
            if e.byte is None:
                raise Undecided('is_ascii of opaque run')
            k = dd.restrict(dd.le(e.byte, 127), e.cls)
            if type(k) is int and k == 1:
                continue
            r = dd.band(r, dd.bor(dd.eq(e.len, 0), dd.pred(('runascii', e.name))))
        else:
            r = dd.band(r, dd.le(e, 127))
    return r


@model('Vec::into_boxed_slice', 'Vec::into_iter_noop')
def _ibs(cx, args, c, f):
    r = cx.tmp(args[0])
    return Ref(r.a, (), (0, seqlen(args[0])))


def insertion(cx, xs, less):
    """stable insertion sort; every comparison is decided on the path"""
    out = []
    for x in xs:
        j = len(out)
        while j > 0 and less(x, out[j - 1]):
            j -= 1
        out.insert(j, x)
    return out


@model('slice::sort', 'slice::sort_unstable', 'slice::sort_by', 'slice::sort_by_key', 'slice::sort_unstable_by', 'slice::sort_unstable_by_key', 'slice::sort_by_cached_key')
def _sortu(cx, args, c, f):
    r = seqref(cx, args[0])
    n = cx.simp(r.r[1])
    if type(n) is int and n <= 1:
        return UNIT
    v = cx.load(r)
    if not v.flat() or len(v.e) > 64:
        raise Undecided('sorting')
    m = canon(c['d']).split('::')[1]
    if m in ('sort', 'sort_unstable'):
        if all(type(x) is int for x in v.e):
            cx.store(r, Seq(tuple(sorted(v.e))))
            return UNIT
        for x in v.e:
            w = cx.deref(x) if type(x) is Ref else x
            if type(w) is Agg and not w.f or type(w) not in (Seq, Agg, int, dd.Lin, dd.Node):
                raise Undecided('sorting')
        xs = insertion(cx, list(v.e), lambda a, b: cx.conc(cmp_val(cx, a, b)) == 0)
    elif 'key' in m:
        fn = args[1]
        ks = []
        for x in v.e:
            k, fn = cx.apply(fn, [cx.tmp(x)])
            ks.append((k, x))
        xs = [x for _, x in insertion(cx, ks, lambda a, b: cx.conc(cmp_val(cx, a[0], b[0])) == 0)]
    else:
        fn = [args[1]]

        def less(a, b):
            o, fn[0] = cx.apply(fn[0], [cx.tmp(a), cx.tmp(b)])
            return cx.variant(o)[0] == 0
        xs = insertion(cx, list(v.e), less)
    cx.store(r, Seq(tuple(xs)))
    return UNIT


@model('Vec::dedup')
def _dedup(cx, args, c, f):
    v = cx.load(args[0])
    if type(v) is not Seq or not v.flat():
        raise Undecided('dedup')
    out = []
    for x in v.e:
        if not out or not cx.decide(eq_val(cx, out[-1], x)):
            out.append(x)
    cx.store(args[0], Seq(tuple(out)))
    return UNIT


@model('Vec::drain')
def _drain(cx, args, c, f):
    M = cx.I.M
    last = [x for x in c['a'] if type(x) is int]
    it = M.tname(last[-1])
    r, v = vload(cx, args[0])
    ln = seqlen(v)
    b = rng_of(cx, args[1], ln, it)
    if b is None:
        raise Undecided('drain')
    s, e = b
    if not cx.decide(dd.band(dd.le(s, e), dd.le(e, ln))):
        raise PanicExc(('drain range', None))
    pre = cx.cut(v, 0, s)
    mid = cx.cut(v, s, dd.sub(e, s))
    post = cx.cut(v, e, dd.sub(ln, e))
    cx.store(r, Seq(pre + post))
    return It('vec', Seq(mid))


@model('Vec::split_off')
def _splitoff(cx, args, c, f):
    r, v = vload(cx, args[0])
    ln = seqlen(v)
    if not cx.decide(dd.le(args[1], ln)):
        raise PanicExc(('split_off', None))
    a = cx.cut(v, 0, args[1])
    b = cx.cut(v, args[1], dd.sub(ln, args[1]))
    cx.store(r, Seq(a))
    return Seq(b)


@model('Vec::retain')
def _retain(cx, args, c, f):
    r, v = vload(cx, args[0])
    if not v.flat():
        raise Undecided('retain')
    out = []
    for i, x in enumerate(v.e):
        t = cx.tmp(x)
        k, _ = cx.apply(args[1], [t])
        if cx.decide(k):
            out.append(x)
    cx.store(r, Seq(tuple(out)))
    return UNIT


@model('String::into_bytes', 'String::into_boxed_str', 'String::from_utf8_unchecked', 'str::from_utf8_unchecked', 'Vec::into_vec', 'String::into_string',
       'PathBuf::into_os_string', 'str::as_ref')
def _identity(cx, args, c, f):
    return args[0]


@model('array::map')
def _amap(cx, args, c, f):
    out = []
    for x in args[0].e:
        v, _ = cx.apply(args[1], [x])
        out.append(v)
    return Seq(tuple(out))


@model('slice::split', 'slice::splitn')
def _slsplit(cx, args, c, f):
    if canon(c['d']) == 'slice::splitn':
        return NA
    return It('slsplit', some(seqref(cx, args[0])), args[1])


@model('slice::chunks', 'slice::chunks_exact', 'slice::windows')
def _chunks(cx, args, c, f):
    r = seqref(cx, args[0])
    return It(canon(c['d']).split('::')[1], r, args[1])
