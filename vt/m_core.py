"""Library models: memory, numbers, comparison, conversion, panics, intrinsics."""
from . import dd
from .dd import Undecided, Lin, Node
from .models import model, TABLE, NA, NONE, some, ok, err, canon
from .values import Agg, Sum, UNIT, Clo, FnVal, Run, Seq, Ref, Opaque, It, Obj, same, SCALARS, merge_val, NoMerge
from .interp import PanicExc, ExitExc, seqlen, split_bytes, join_bytes


# ------------------------------------------------------------------ panics
def panic_msg(cx, args):
    for a in args:
        if type(a) is Ref:
            try:
                v = cx.deref(a)
            except Undecided:
                continue
            if type(v) is Seq and v.e and all(type(x) is int for x in v.e):
                return bytes(v.e).decode('utf8', 'replace')
        if type(a) is Obj and a.k == 'fmt':
            return fmt_text(a.f[0])
    return 'panic'


def fmt_text(s):
    return ''.join(chr(e) if type(e) is int and e < 128 else '<%r>' % (e,) if type(e) is Run else '?' for e in s.e)


@model('panicking::panic', 'panicking::panic_fmt', 'rt::begin_panic', 'rt::panic_fmt', 'panicking::panic_nounwind',
       'panicking::panic_explicit', 'panicking::panic_display', 'panicking::unreachable_display', 'panicking::panic_str_2015',
       'rt::begin_panic_fmt', 'panicking::assert_failed', 'panicking::panic_bounds_check', 'panicking::assert_failed_inner',
       'option::unwrap_failed', 'option::expect_failed', 'result::unwrap_failed', 'index::slice_index_fail',
       'str::slice_error_fail', 'panicking::panic_nounwind_fmt', 'panicking::panic_str')
def _panic(cx, args, c, f):
    nm = canon(c['d'])
    m = panic_msg(cx, args)
    raise PanicExc((m if m != 'panic' else nm, None))


@model('process::exit')
def _exit(cx, args, c, f):
    cx.event('exit', cx.simp(args[0]))
    raise ExitExc((cx.simp(args[0]), None))


@model('process::abort')
def _abort(cx, args, c, f):
    raise ExitExc((134, None))


# ------------------------------------------------------------------ mem
@model('mem::swap')
def _swap(cx, args, c, f):
    a = cx.load(args[0])
    b = cx.load(args[1])
    cx.store(args[0], b)
    cx.store(args[1], a)
    return UNIT


@model('mem::replace', 'ptr::replace')
def _replace(cx, args, c, f):
    a = cx.load(args[0])
    cx.store(args[0], args[1])
    return a


@model('mem::take')
def _take(cx, args, c, f):
    a = cx.load(args[0])
    if type(a) is Seq:
        cx.store(args[0], Seq(()))
    elif type(a) in SCALARS:
        cx.store(args[0], 0)
    elif type(a) in (Agg, Sum) and 'Option<' in cx.I.M.tname(cx.I.M.targ(c, 0)):
        cx.store(args[0], NONE)
    else:
        return NA
    return a


@model('ptr::read', 'ptr::read_volatile', 'ptr::read_unaligned', 'mut_ptr::read', 'const_ptr::read')
def _ptr_read(cx, args, c, f):
    return cx.load(args[0])


@model('ptr::write', 'mut_ptr::write', 'ptr::write_volatile')
def _ptr_write(cx, args, c, f):
    cx.store(args[0], args[1])
    return UNIT


@model('mem::drop', 'mem::forget', 'hint::assert_unchecked', 'intrinsics::assume', 'intrinsics::cold_path', 'mem::forget_unsized',
       'intrinsics::assert_inhabited', 'ub_checks::check_language_ub', 'ptr::drop_in_place')
def _unit(cx, args, c, f):
    if canon(c['d']) == 'ub_checks::check_language_ub':
        return 0
    return UNIT


@model('hint::must_use', 'convert::identity', 'hint::black_box', 'intrinsics::likely', 'intrinsics::unlikely',
       'intrinsics::black_box', 'ManuallyDrop::new', 'ManuallyDrop::into_inner', 'hint::likely', 'hint::unlikely')
def _ident(cx, args, c, f):
    return args[0]


@model('intrinsics::caller_location', 'Location::caller')
def _loc(cx, args, c, f):
    return Opaque('location')


@model('intrinsics::is_val_statically_known')
def _isk(cx, args, c, f):
    return 0


@model('mem::size_of', 'intrinsics::size_of')
def _sizeof(cx, args, c, f):
    t = cx.I.M.targ(c, 0)
    s = cx.I.P.ty(t).get('size') if t is not None else None
    if s is None:
        return NA
    return s


@model('any::type_name', 'intrinsics::type_name')
def _tyname(cx, args, c, f):
    t = cx.I.M.targ(c, 0)
    s = cx.I.P.tys(t).encode()
    r = cx.tmp(Seq(tuple(s)))
    return Ref(r.a, (), (0, len(s)))


@model('intrinsics::discriminant_value', 'mem::discriminant')
def _disc(cx, args, c, f):
    t = cx.I.M.targ(c, 0)
    v = cx.load(args[0])
    d = cx.I.discriminant(cx, v, t)
    if canon(c['d']) == 'mem::discriminant':
        return Agg(0, (d,))
    return d


@model('Discriminant::eq')
def _na(cx, args, c, f):
    return NA


@model('Box::new', 'boxed::box_new')
def _box(cx, args, c, f):
    return cx.tmp(args[0])


@model('Box::new_uninit')
def _boxu(cx, args, c, f):
    return cx.tmp(None)


@model('Box::write')
def _boxw(cx, args, c, f):
    cx.store(args[0], args[1])
    return args[0]


@model('boxed::box_assume_init_into_vec_unsafe', 'slice::into_vec')
def _boxvec(cx, args, c, f):
    r = args[0]
    v = cx.load(r)
    if type(v) is Agg and len(v.f) == 1:
        v = v.f[0]
    while type(v) is Agg and len(v.f) >= 1 and type(v.f[-1]) in (Agg, Seq):
        v = v.f[-1]
    if type(v) is Agg and len(v.f) == 2 and type(v.f[1]) is Seq:
        v = v.f[1]
    if type(v) is not Seq:
        raise Undecided('box into vec of %s' % type(v).__name__)
    return Seq(v.e)


# ------------------------------------------------------------------ numbers
INTS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')


def winfo(n):
    if n in ('usize', 'isize'):
        return 64, n[0] == 'i'
    return int(n[1:]), n[0] == 'i'


def num(*names):
    """register fn(cx, args, c, f, w, signed) for every integer type"""
    def d(fn):
        for t in INTS:
            w, s = winfo(t)
            for nm in names:
                def g(cx, args, c, f, w=w, s=s):
                    return fn(cx, args, c, f, w, s)
                model('%s::%s' % (t, nm))(g)
        return fn
    return d


@num('to_le_bytes', 'to_ne_bytes')
def _tole(cx, args, c, f, w, s):
    return Seq(split_bytes(args[0], w // 8))


@num('to_be_bytes')
def _tobe(cx, args, c, f, w, s):
    return Seq(tuple(reversed(split_bytes(args[0], w // 8))))


@num('from_le_bytes', 'from_ne_bytes')
def _frle(cx, args, c, f, w, s):
    v = args[0]
    if not v.flat() or len(v.e) != w // 8:
        raise Undecided('from bytes')
    return dd.wrap(join_bytes(v.e), w, s)


@num('from_be_bytes')
def _frbe(cx, args, c, f, w, s):
    v = args[0]
    if not v.flat() or len(v.e) != w // 8:
        raise Undecided('from bytes')
    return dd.wrap(join_bytes(tuple(reversed(v.e))), w, s)


@num('swap_bytes')
def _swapb(cx, args, c, f, w, s):
    return dd.wrap(join_bytes(tuple(reversed(split_bytes(args[0], w // 8)))), w, s)


@num('to_be', 'from_be')
def _be(cx, args, c, f, w, s):
    return dd.wrap(join_bytes(tuple(reversed(split_bytes(args[0], w // 8)))), w, s)


@num('to_le', 'from_le')
def _le(cx, args, c, f, w, s):
    return args[0]


def arith3(op, a, b):
    return dd.add(a, b) if op == 'add' else dd.sub(a, b) if op == 'sub' else dd.mul(a, b)


def inrange(r, w, s):
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
    return dd.band(dd.le(lo, r), dd.le(r, hi)), lo, hi


def reg_arith():
    for op in ('add', 'sub', 'mul'):
        @num('wrapping_' + op, 'unchecked_' + op)
        def _w(cx, args, c, f, w, s, op=op):
            return dd.wrap(arith3(op, args[0], args[1]), w, s)

        @num('checked_' + op)
        def _c(cx, args, c, f, w, s, op=op):
            r = arith3(op, args[0], args[1])
            k, lo, hi = inrange(r, w, s)
            return some(r) if cx.decide(k) else NONE

        @num('overflowing_' + op)
        def _o(cx, args, c, f, w, s, op=op):
            r = arith3(op, args[0], args[1])
            k, lo, hi = inrange(r, w, s)
            return Agg(0, (dd.wrap(r, w, s), dd.bnot(k)))

        @num('saturating_' + op)
        def _s(cx, args, c, f, w, s, op=op):
            r = arith3(op, args[0], args[1])
            k, lo, hi = inrange(r, w, s)
            return dd.ite(dd.bnot(dd.le(r, hi)), hi, dd.ite(dd.bnot(dd.le(lo, r)), lo, r))

        for pre in ('wrapping', 'unchecked', 'saturating'):
            def g(cx, args, c, f, op=op, pre=pre):
                t = cx.I.M.targ(c, 0)
                w, s = cx.I.P.intinfo(t)
                r = arith3(op, args[0], args[1])
                if pre != 'saturating':
                    return dd.wrap(r, w, s)
                k, lo, hi = inrange(r, w, s)
                return dd.ite(dd.bnot(dd.le(r, hi)), hi, dd.ite(dd.bnot(dd.le(lo, r)), lo, r))
            model('intrinsics::%s_%s' % (pre, op))(g)

        def g2(cx, args, c, f, op=op):
            t = cx.I.M.targ(c, 0)
            w, s = cx.I.P.intinfo(t)
            r = arith3(op, args[0], args[1])
            k, lo, hi = inrange(r, w, s)
            return Agg(0, (dd.wrap(r, w, s), dd.bnot(k)))
        model('intrinsics::%s_with_overflow' % op)(g2)


reg_arith()


@num('wrapping_neg')
def _wneg(cx, args, c, f, w, s):
    return dd.wrap(dd.sub(0, args[0]), w, s)


@num('pow')
def _pow(cx, args, c, f, w, s):
    n = cx.conc(args[1])
    r = 1
    for _ in range(n):
        r = dd.mul(r, args[0])
        k, lo, hi = inrange(r, w, s)
        if not cx.decide(k):
            raise PanicExc(('attempt to multiply with overflow', None))
    return r


@num('is_power_of_two')
def _ip2(cx, args, c, f, w, s):
    r = 0
    for i in range(w):
        r = dd.bor(r, dd.eq(args[0], 1 << i))
    return r


@num('next_multiple_of')
def _nmo(cx, args, c, f, w, s):
    m = cx.conc(args[1])
    r = dd.add(args[0], dd.rem(dd.sub(dd.scale(dd.add(args[0], m), m) if False else m * (1 << 64), args[0]), m)) if False else None
    k = dd.rem(args[0], m)
    r = dd.add(args[0], dd.ite(dd.eq(k, 0), 0, dd.sub(m, k)))
    o, lo, hi = inrange(r, w, s)
    if not cx.decide(o):
        raise PanicExc(('attempt to add with overflow', None))
    return r


@num('div_ceil')
def _dc(cx, args, c, f, w, s):
    m = cx.conc(args[1])
    return dd.div(dd.add(args[0], m - 1), m)


@num('rem_euclid')
def _re(cx, args, c, f, w, s):
    m = cx.conc(args[1])
    if m <= 0 or dd.interval(args[0])[0] < 0:
        return NA
    return dd.rem(args[0], m)


@num('checked_div', 'checked_rem')
def _cd(cx, args, c, f, w, s):
    m = cx.conc(args[1])
    if m == 0:
        return NONE
    if s:
        return NA
    return some(dd.div(args[0], m) if canon(c['d']).endswith('div') else dd.rem(args[0], m))


@num('count_ones')
def _co(cx, args, c, f, w, s):
    r = 0
    for b in dd.to_bits(args[0], w):
        r = dd.add(r, dd.ite(b, 1, 0) if type(b) is not int else b)
    return r


@num('checked_shl', 'checked_shr', 'wrapping_shl', 'wrapping_shr')
def _csh(cx, args, c, f, w, s):
    k = cx.conc(args[1])
    nm = canon(c['d'])
    if 'checked' in nm and k >= w:
        return NONE
    k %= w
    r = dd.shl(args[0], k, w, s) if nm.endswith('l') else dd.shr(args[0], k, w, s)
    return some(r) if 'checked' in nm else r


@num('rotate_left', 'rotate_right')
def _rot(cx, args, c, f, w, s):
    k = cx.conc(args[1]) % w
    if canon(c['d']).endswith('right'):
        k = (w - k) % w
    bs = dd.to_bits(args[0], w)
    return dd.from_bits(bs[w - k:] + bs[:w - k], s)


@num('abs_diff')
def _ad(cx, args, c, f, w, s):
    a, b = args
    return dd.ite(dd.lt(a, b), dd.sub(b, a), dd.sub(a, b))


@num('min_value')
def _minv(cx, args, c, f, w, s):
    return -(1 << (w - 1)) if s else 0


@num('max_value')
def _maxv(cx, args, c, f, w, s):
    return (1 << (w - 1)) - 1 if s else (1 << w) - 1


@num('is_ascii')
def _isasc(cx, args, c, f, w, s):
    return dd.le(cx.deref(args[0]), 127)


def digit_val(b, radix):
    """(condition valid, value) of one ASCII digit"""
    dec = dd.band(dd.le(48, b), dd.le(b, min(57, 47 + radix)))
    v = dd.sub(b, 48)
    if radix <= 10 or (type(dec) is int and dec):
        return dec, v
    lo = dd.band(dd.le(97, b), dd.le(b, 86 + radix))
    up = dd.band(dd.le(65, b), dd.le(b, 54 + radix))
    ok_ = dd.bor(dec, dd.bor(lo, up))
    return ok_, dd.ite(dec, v, dd.ite(lo, dd.sub(b, 87), dd.sub(b, 55)))


def parse_int(cx, items, radix, w, s):
    """Option value | None of parsing items as an integer of the given width"""
    e = list(items)
    if not e:
        return None
    neg = False
    if type(e[0]) is not Run:
        if cx.decide(dd.eq(e[0], 43)):
            e = e[1:]
            if not e:
                return None
        elif s and cx.decide(dd.eq(e[0], 45)):
            neg = True
            e = e[1:]
            if not e:
                return None
    val = 0
    for x in e:
        if type(x) is Run:
            if x.info and x.info[0] == 'dec' and radix == 10 and len(e) == 1:
                val = x.info[1]
                break
            if x.info and x.info[0] == 'hex' and radix == 16 and len(e) == 1:
                val = x.info[1]
                break
            if x.info and x.info[0] == 'hex' and radix == 10 and len(e) == 1:
                raise Undecided('hexadecimal run read as decimal')
            if x.byte is not None:
                ok_, _ = digit_val(x.byte, radix)
                k = dd.restrict(ok_, x.cls)
                if type(k) is int and k == 0 and not cx.decide(dd.eq(x.len, 0)):
                    return None
            raise Undecided('number parsing of an opaque run')
        ok_, d = digit_val(x, radix)
        if not cx.decide(ok_):
            return None
        d = cx.simp(d)
        if type(d) is Node:
            d = dd.from_bits(dd.to_bits(d, max(1, dd.bounds(d)[1].bit_length())))
        val = dd.add(dd.scale(val, radix), d)
    if neg:
        val = dd.sub(0, val)
    k, lo, hi = inrange(val, w, s)
    if not cx.decide(k):
        return None
    return cx.simp(val)


@num('from_str_radix')
def _fsr(cx, args, c, f, w, s):
    v = cx.load(args[0])
    r = parse_int(cx, v.e, cx.conc(args[1]), w, s)
    return ok(r) if r is not None else err(Opaque('ParseIntError'))


@num('from_ascii_radix', 'from_ascii_bytes_radix')
def _far(cx, args, c, f, w, s):
    return _fsr(cx, args, c, f, w, s)


@model('str::parse', 'FromStr::from_str')
def _parse(cx, args, c, f):
    M = cx.I.M
    t = M.targ(c, 0)
    n = M.tname(t)
    if n in INTS:
        w, s = winfo(n)
        v = cx.load(args[0])
        r = parse_int(cx, v.e, 10, w, s)
        return ok(r) if r is not None else err(Opaque('ParseIntError'))
    if n.endswith('String') and not n.startswith('std::result'):
        return ok(Seq(cx.load(args[0]).e))
    return NA


# ------------------------------------------------------------------ comparison
def eq_val(cx, a, b):
    """condition that two values are equal (structurally)"""
    if type(a) is Ref:
        a = cx.deref(a)
    if type(b) is Ref:
        b = cx.deref(b)
    if type(a) in SCALARS and type(b) in SCALARS:
        return dd.eq(a, b)
    if type(a) is Seq and type(b) is Seq:
        return eq_seq(cx, a, b)
    if type(a) in (Agg, Sum) and type(b) in (Agg, Sum):
        if type(a) is Agg and type(b) is Agg and not a.f and not b.f:
            return dd.eq(a.v, b.v)
        va, fa = cx.variant(a)
        vb, fb = cx.variant(b)
        if va != vb:
            return 0
        r = 1
        for x, y in zip(fa, fb):
            r = dd.band(r, eq_val(cx, x, y))
            if type(r) is int and r == 0:
                return 0
        return r
    if type(a) is Obj and type(b) is Obj and a == b:
        return 1
    raise Undecided('comparison of %s and %s' % (type(a).__name__, type(b).__name__))


def eq_seq(cx, a, b):
    if a.flat() and b.flat():
        if len(a.e) != len(b.e):
            return 0
        r = 1
        for x, y in zip(a.e, b.e):
            if type(x) in SCALARS:
                r = dd.band(r, dd.eq(x, y))
            else:
                r = dd.band(r, eq_val(cx, x, y))
            if type(r) is int and r == 0:
                return 0
        return r
    if a == b:
        return 1
    la, lb = seqlen(a), seqlen(b)
    k = dd.restrict(dd.eq(la, lb), cx.st.pc)
    if type(k) is int and k == 0:
        return 0
    x, y = list(a.e), list(b.e)
    r = 1
    for end in (0, -1):
        while x and y and type(x[end]) is not Run and type(y[end]) is not Run:
            p, q = x.pop(end), y.pop(end)
            r = dd.band(r, dd.eq(p, q) if type(p) in SCALARS else eq_val(cx, p, q))
            if type(r) is int and r == 0:
                return 0
    for p, q in ((x, y), (y, x)):
        if not any(type(t) is Run for t in q):
            if not match_possible(p, q):
                return 0
            if not q:
                for t in p:
                    r = dd.band(r, dd.eq(t.len, 0))
                return r
    ks = tuple(sorted((skey(Seq(tuple(x))), skey(Seq(tuple(y))))))
    return dd.band(dd.band(r, k), dd.pred(('streq',) + ks))


def match_possible(p, q):
    """could the elements p (with runs) be the elements q (without)?"""
    at = {0}
    for x in p:
        if not at:
            return False
        if type(x) is Run:
            lo, hi = dd.interval(x.len) if type(x.len) is not Node else dd.bounds(x.len)
            nxt = set()
            for i in at:
                t = 0
                while True:
                    if lo <= t <= hi:
                        nxt.add(i + t)
                    if i + t >= len(q) or t >= hi:
                        break
                    c = q[i + t]
                    if type(c) is int and not possible(x, c):
                        break
                    t += 1
            at = nxt
        else:
            nxt = set()
            for i in at:
                if i < len(q):
                    k = dd.eq(x, q[i])
                    if not (type(k) is int and k == 0):
                        nxt.add(i + 1)
            at = nxt
    return len(q) in at


def skey(s):
    return ''.join(chr(x) if type(x) is int and 32 <= x < 127 else '{%s}' % (x.name if type(x) is Run else repr(x)) for x in s.e)


def possible(run, ch):
    """can the constant ch be an element of the run?"""
    if run.info and run.info[0] == 'fill':
        return run.info[1] == ch
    if run.byte is None or type(run.cls) is int:
        return True
    k = dd.band(run.cls, dd.eq(run.byte, ch))
    return not (type(k) is int and k == 0)


@model('PartialEq::eq')
def _eq(cx, args, c, f):
    if f is not None and f['c'] in cx.I.ws:
        return NA
    return eq_val(cx, args[0], args[1])


@model('PartialEq::ne')
def _ne(cx, args, c, f):
    # default `ne` of a workspace type calls its `eq`; structural comparison for library types
    M = cx.I.M
    a = cx.deref(args[0]) if type(args[0]) is Ref else args[0]
    if f is not None and f['body'] is not None and type(a) is Agg:
        return NA
    return dd.bnot(eq_val(cx, args[0], args[1]))


def cmp_val(cx, a, b):
    """0 less / 1 equal / 2 greater, as a scalar"""
    if type(a) is Ref:
        a = cx.deref(a)
    if type(b) is Ref:
        b = cx.deref(b)
    if type(a) in SCALARS and type(b) in SCALARS:
        return dd.ite(dd.lt(a, b), 0, dd.ite(dd.eq(a, b), 1, 2))
    if type(a) is Seq and type(b) is Seq and a.flat() and b.flat():
        for x, y in zip(a.e, b.e):
            k = cx.conc(cmp_val(cx, x, y))
            if k != 1:
                return k
        return 0 if len(a.e) < len(b.e) else 1 if len(a.e) == len(b.e) else 2
    if type(a) is Agg and type(b) is Agg and a.f and len(a.f) == len(b.f) and a.v == b.v == 0:
        for x, y in zip(a.f, b.f):
            k = cx.conc(cmp_val(cx, x, y))
            if k != 1:
                return k
        return 1
    raise Undecided('ordering comparison')


@model('Ord::cmp')
def _cmp(cx, args, c, f):
    k = cmp_val(cx, args[0], args[1])
    return Agg(k, ())


@model('PartialOrd::partial_cmp')
def _pcmp(cx, args, c, f):
    return some(Agg(cmp_val(cx, args[0], args[1]), ()))


@model('PartialOrd::lt')
def _plt(cx, args, c, f):
    return dd.eq(cmp_val(cx, args[0], args[1]), 0)


@model('PartialOrd::le')
def _ple(cx, args, c, f):
    return dd.bnot(dd.eq(cmp_val(cx, args[0], args[1]), 2))


@model('PartialOrd::gt')
def _pgt(cx, args, c, f):
    return dd.eq(cmp_val(cx, args[0], args[1]), 2)


@model('PartialOrd::ge')
def _pge(cx, args, c, f):
    return dd.bnot(dd.eq(cmp_val(cx, args[0], args[1]), 0))


@model('Ord::max', 'cmp::max')
def _max(cx, args, c, f):
    if type(args[0]) in SCALARS:
        return dd.ite(dd.lt(args[1], args[0]), args[0], args[1])
    return NA


@model('Ord::min', 'cmp::min')
def _min(cx, args, c, f):
    if type(args[0]) in SCALARS:
        return dd.ite(dd.lt(args[1], args[0]), args[1], args[0])
    return NA


@model('Ord::clamp')
def _clamp(cx, args, c, f):
    a, lo, hi = args
    if type(a) in SCALARS:
        return dd.ite(dd.lt(a, lo), lo, dd.ite(dd.lt(hi, a), hi, a))
    return NA


# Ordering is -1/0/1 by discriminant but variants are indexed 0..2
# ------------------------------------------------------------------ clone / convert / deref
@model('Clone::clone')
def _clone(cx, args, c, f):
    v = cx.load(args[0])
    t = cx.I.M.targ(c, 0)
    if type(v) is Ref and v.r is None and t is not None and cx.I.P.ty(t).get('box'):
        return cx.tmp(cx.load(v))
    return v


@model('Clone::clone_from')
def _clonefrom(cx, args, c, f):
    cx.store(args[0], cx.deref(args[1]))
    return UNIT


@model('ToOwned::to_owned', 'slice::to_vec', 'str::to_owned', 'str::to_string', 'Cow::into_owned', 'str::into_string', 'Path::to_path_buf',
       'slice::to_owned', 'str::into_boxed_str', 'OsStr::to_os_string', 'Path::to_owned')
def _owned(cx, args, c, f):
    if type(args[0]) is Seq:
        return args[0]
    v = cx.deref(args[0])
    return v


def seqref(cx, r):
    """reference to a whole sequence as a slice reference"""
    if type(r) is not Ref:
        raise Undecided('slice of %s' % type(r).__name__)
    if r.r is not None:
        return r
    v = cx.load(r)
    if type(v) is Ref:
        return seqref(cx, v)
    if type(v) is Seq:
        return Ref(r.a, r.p, (0, seqlen(v)))
    raise Undecided('slice of %s' % type(v).__name__)


@model('Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut',
       'Vec::as_slice', 'Vec::as_mut_slice', 'String::as_str', 'str::as_bytes', 'String::as_bytes', 'String::as_mut_str', 'array::as_slice',
       'PathBuf::as_path', 'Path::as_os_str', 'PathBuf::as_os_str', 'Path::new', 'str::as_str', 'slice::as_slice', 'Vec::leak', 'array::as_mut_slice',
       'str::as_bytes_mut', 'PathBuf::as_path', 'OsStr::new', 'OsString::as_os_str', 'array::each_ref')
def _asslice(cx, args, c, f):
    r = args[0]
    if type(r) is not Ref:
        return NA
    if r.r is not None:
        return r
    v = cx.load(r)
    if type(v) is Seq:
        return Ref(r.a, r.p, (0, seqlen(v)))
    if type(v) is Ref:
        n = canon(c['d'])
        if n in ('Deref::deref', 'DerefMut::deref_mut'):
            return v       # Box / reference
        return _asslice(cx, [v], c, f)
    return NA


@model('Vec::as_ptr', 'slice::as_ptr', 'str::as_ptr', 'Vec::as_mut_ptr', 'slice::as_mut_ptr')
def _asptr(cx, args, c, f):
    r = seqref(cx, args[0])
    return Ref(r.a, r.p + (('e', r.r[0]),))


@model('From::from', 'Into::into')
def _from(cx, args, c, f):
    M = cx.I.M
    n = canon(c['d'])
    dst = M.targ(c, 1 if n == 'Into::into' else 0)
    src = M.targ(c, 0 if n == 'Into::into' else 1)
    d = M.tname(dst)
    s = M.tname(src)
    v = args[0]
    if d == s:
        return v
    if cx.I.P.intinfo(dst) is not None and type(v) in SCALARS:
        return v
    if type(v) is Seq and d.startswith(('std::vec::Vec<', 'std::string::String', 'std::path::PathBuf', 'std::ffi::OsString')):
        return v
    if type(v) is Ref and d.startswith(('std::vec::Vec<', 'std::string::String', 'std::path::PathBuf', 'std::ffi::OsString')):
        w = cx.deref(v)
        if type(w) is Seq:
            return w
    if d.startswith('std::boxed::Box<'):
        if 'dyn' in d:
            r = cx.tmp(v)
            return Ref(r.a, (), None, src)
        if type(v) is Ref and type(cx.load(v)) is Seq:
            r = cx.tmp(cx.load(v))
            return Ref(r.a, (), (0, seqlen(cx.load(v))))
        return cx.tmp(v)
    if d.startswith('std::option::Option<') and not s.startswith('std::option::Option<'):
        return some(v)
    return NA


@model('TryFrom::try_from', 'TryInto::try_into')
def _tryfrom(cx, args, c, f):
    M = cx.I.M
    n = canon(c['d'])
    dst = M.targ(c, 1 if n == 'TryInto::try_into' else 0)
    if dst is None:
        return NA
    ii = cx.I.P.intinfo(dst)
    v = args[0]
    if ii is not None and cx.I.P.kind(dst) == 'int' and type(v) in SCALARS:
        k, lo, hi = inrange(v, *ii)
        return ok(v) if cx.decide(k) else err(Opaque('TryFromIntError'))
    ty = cx.I.P.ty(dst)
    if ty['k'] == 'array' and type(v) is Ref:
        r = seqref(cx, v)
        if not cx.decide(dd.eq(r.r[1], ty['n'])):
            return err(Opaque('TryFromSliceError'))
        return ok(Seq(cx.cut(cx.get(r.a, r.p), r.r[0], ty['n'])))
    if ty['k'] == 'ref' and type(v) is Ref and cx.I.P.kind(ty['e']) == 'array':
        m = cx.I.P.ty(ty['e'])['n']
        r = seqref(cx, v)
        if not cx.decide(dd.eq(r.r[1], m)):
            return err(Opaque('TryFromSliceError'))
        return ok(cx.tmp(Seq(cx.cut(cx.get(r.a, r.p), r.r[0], m))))
    if ty['k'] == 'array' and type(v) is Seq:
        if not cx.decide(dd.eq(seqlen(v), ty['n'])):
            return err(v)
        return ok(v)
    return NA


@model('Default::default')
def _default(cx, args, c, f):
    M = cx.I.M
    t = M.targ(c, 0)
    n = M.tname(t)
    if t is None:
        return NA
    if cx.I.P.intinfo(t):
        return 0
    if n.startswith(('std::vec::Vec<', 'std::string::String', 'std::path::PathBuf')):
        return Seq(())
    if n.startswith('std::option::Option<'):
        return NONE
    ty = cx.I.P.ty(t)
    if ty['k'] == 'array' and cx.I.P.intinfo(ty['e']):
        return Seq((0,) * ty['n'])
    if n == '&str':
        return Ref(cx.tmp(Seq(())).a, (), (0, 0))
    return NA


@model('Option::take')
def _otake(cx, args, c, f):
    v = cx.load(args[0])
    cx.store(args[0], NONE)
    return v


@model('Option::replace')
def _orepl(cx, args, c, f):
    v = cx.load(args[0])
    cx.store(args[0], some(args[1]))
    return v


@model('Option::insert')
def _oins(cx, args, c, f):
    cx.store(args[0], some(args[1]))
    r = args[0]
    return Ref(r.a, r.p + (('v', 1), 0))


@model('Option::get_or_insert')
def _ogoi(cx, args, c, f):
    r = args[0]
    v, p = cx.variant(cx.load(r))
    if v == 0:
        cx.store(r, some(args[1]))
    else:
        cx.store(r, Agg(1, p))
    return Ref(r.a, r.p + (('v', 1), 0))


@model('Option::get_or_insert_with')
def _ogoiw(cx, args, c, f):
    r = args[0]
    v, p = cx.variant(cx.load(r))
    if v == 0:
        x, _ = cx.apply(args[1], [])
        cx.store(r, some(x))
    return Ref(r.a, r.p + (('v', 1), 0))


@model('Option::as_deref', 'Option::as_deref_mut')
def _oasderef(cx, args, c, f):
    r = args[0]
    v, p = cx.variant(cx.load(r))
    if v == 0:
        return NONE
    return some(_asslice(cx, [Ref(r.a, r.p + (('v', 1), 0))], {'d': 'Deref::deref', 'a': []}, None))


@model('Option::cloned', 'Option::copied')
def _ocl(cx, args, c, f):
    v, p = cx.variant(args[0])
    if v == 0:
        return NONE
    return some(cx.load(p[0]))


@model('Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err')
def _issome(cx, args, c, f):
    v = cx.load(args[0])
    t = v.v if type(v) is Agg else v.t if type(v) is Sum else None
    if t is None:
        return NA
    e = dd.eq(t, 1)
    n = canon(c['d'])
    return e if n in ('Option::is_some', 'Result::is_err') else dd.bnot(e)


@model('ptr::copy_nonoverlapping', 'ptr::copy', 'intrinsics::copy_nonoverlapping', 'intrinsics::copy')
def _cno(cx, args, c, f):
    cx.I.copy_elems(cx, args[0], args[1], args[2])
    return UNIT


def _byteorder():
    for w in (16, 32, 64, 128):
        for sg in 'ui':
            def rd(cx, args, c, f, w=w, sg=sg):
                n = f['n'] if f else c['d']
                r = seqref(cx, args[0])
                if not cx.decide(dd.le(w // 8, r.r[1])):
                    raise PanicExc(('slice index out of range', None))
                v = cx.load(Ref(r.a, r.p, (r.r[0], w // 8)))
                if not v.flat():
                    raise Undecided('bytes of an opaque run')
                e = v.e
                if 'BigEndian' in n:
                    e = tuple(reversed(e))
                elif 'LittleEndian' not in n:
                    return NA
                return dd.wrap(join_bytes(e), w, sg == 'i')

            def wr(cx, args, c, f, w=w):
                n = f['n'] if f else c['d']
                r = seqref(cx, args[0])
                if not cx.decide(dd.le(w // 8, r.r[1])):
                    raise PanicExc(('slice index out of range', None))
                e = split_bytes(args[1], w // 8)
                if 'BigEndian' in n:
                    e = tuple(reversed(e))
                elif 'LittleEndian' not in n:
                    return NA
                cx.store(Ref(r.a, r.p, (r.r[0], w // 8)), Seq(e))
                return UNIT
            TABLE['ByteOrder::read_%s%d' % (sg, w)] = rd
            TABLE['ByteOrder::write_%s%d' % (sg, w)] = wr


_byteorder()
