"""Library models: readers, writers, files, paths, process environment.

The file system is part of the abstract state: 'fs:<path>' maps to file contents, 'fh:<n>' to open
handles.  In fault mode (Interp.fault) every operation on a file may fail (at most one failure per
execution, named by the ordinal of the operation) or transfer fewer bytes than asked.
"""
from . import dd
from .dd import Undecided
from .models import model, NA, NONE, some, ok, err, canon
from .values import Agg, UNIT, Run, Seq, Ref, Opaque, It, Obj, SCALARS
from .interp import PanicExc, seqlen
from .m_core import seqref, skey
from .m_str import CharPat, View, find, chars_of


def ioerr(kind, msg=b''):
    return err(Obj('ioerr', kind, Seq(tuple(msg))))


# ------------------------------------------------------------------ faults
def faulty(cx, what):
    if not cx.I.fault:
        return False
    h = cx.st.h
    if h.get('faulted'):
        return False
    n = h.get('io', 0)
    h['io'] = n + 1
    if cx.decide(dd.pred(('io', n, what))):
        cx.st.h['faulted'] = 1
        cx.event('fault', what, n)
        return True
    return False


# ------------------------------------------------------------------ sources
def inner_seq(cx, v):
    if type(v) is Seq:
        return v
    if type(v) is Ref:
        w = cx.deref(v)
        if type(w) is Seq:
            return w
    raise Undecided('reader over %s' % type(v).__name__)


def rest_of(cx, s, pos):
    n = seqlen(s)
    if not cx.decide(dd.le(pos, n)):
        return ()
    return cx.cut(s, pos, dd.sub(n, pos))


def avail(cx, v):
    """elements a reader would still deliver"""
    if type(v) is Ref:
        if v.r is not None:
            return cx.cut(cx.get(v.a, v.p), v.r[0], v.r[1])
        return avail(cx, cx.load(v))
    if type(v) is Obj:
        if v.k == 'cursor':
            return rest_of(cx, inner_seq(cx, v.f[0]), v.f[1])
        if v.k == 'file':
            h = cx.st.h['fh:%d' % v.f[0]]
            if not h.f[2]:
                raise Undecided('read of a file not opened for reading')
            return rest_of(cx, cx.st.h['fs:' + h.f[0]], h.f[1])
        if v.k == 'bufreader':
            return avail(cx, v.f[0])
        if v.k == 'take':
            e = avail(cx, v.f[0])
            n = seqlen(Seq(e))
            if cx.decide(dd.le(n, v.f[1])):
                return e
            return cx.cut(Seq(e), 0, v.f[1])
        if v.k == 'chain':
            return avail(cx, v.f[0]) + avail(cx, v.f[1])
        if v.k == 'empty':
            return ()
    raise Undecided('reader %s' % type(v).__name__)


def consume(cx, v, n):
    if type(v) is Ref:
        if v.r is not None:
            return Ref(v.a, v.p, (cx.simp(dd.add(v.r[0], n)), cx.simp(dd.sub(v.r[1], n))))
        cx.store(v, consume(cx, cx.load(v), n))
        return v
    if v.k == 'cursor':
        return Obj('cursor', v.f[0], cx.simp(dd.add(v.f[1], n)))
    if v.k == 'file':
        k = 'fh:%d' % v.f[0]
        h = cx.st.h[k]
        cx.st.h[k] = Obj('fh', h.f[0], cx.simp(dd.add(h.f[1], n)), *h.f[2:])
        return v
    if v.k == 'bufreader':
        return Obj('bufreader', consume(cx, v.f[0], n))
    if v.k == 'take':
        return Obj('take', consume(cx, v.f[0], n), cx.simp(dd.sub(v.f[1], n)))
    if v.k == 'chain':
        m = seqlen(Seq(avail(cx, v.f[0])))
        if cx.decide(dd.le(n, m)):
            return Obj('chain', consume(cx, v.f[0], n), v.f[1])
        return Obj('chain', consume(cx, v.f[0], m), consume(cx, v.f[1], cx.simp(dd.sub(n, m))))
    if v.k == 'empty':
        return v
    raise Undecided('reader')


def is_file(cx, v):
    while True:
        if type(v) is Ref:
            if v.r is not None:
                return False
            v = cx.load(v)
        elif type(v) is Obj and v.k in ('bufreader', 'take', 'bufwriter'):
            v = v.f[0]
        elif type(v) is Obj and v.k == 'chain':
            if is_file(cx, v.f[0]):
                return True
            v = v.f[1]
        else:
            return type(v) is Obj and v.k == 'file'


def known_reader(cx, v):
    while type(v) is Ref:
        if v.r is not None:
            return True
        v = cx.load(v)
    return type(v) is Obj


def advance(cx, slot, n):
    cx.store(slot, consume(cx, cx.load(slot), n))


@model('Read::read_exact')
def _read_exact(cx, args, c, f):
    slot = args[0]
    v = cx.load(slot)
    if not known_reader(cx, v):
        return NA
    if is_file(cx, v) and faulty(cx, 'read'):
        return ioerr('Other')
    buf = seqref(cx, args[1])
    e = avail(cx, v)
    n = buf.r[1]
    if not cx.decide(dd.le(n, seqlen(Seq(e)))):
        advance(cx, slot, seqlen(Seq(e)))
        return ioerr('UnexpectedEof')
    cx.store(buf, Seq(cx.cut(Seq(e), 0, n)))
    advance(cx, slot, n)
    return ok(UNIT)


@model('Read::read')
def _read(cx, args, c, f):
    slot = args[0]
    v = cx.load(slot)
    if not known_reader(cx, v):
        return NA
    isf = is_file(cx, v)
    if isf and faulty(cx, 'read'):
        return ioerr('Other')
    buf = seqref(cx, args[1])
    e = avail(cx, v)
    n = buf.r[1]
    m = seqlen(Seq(e))
    if cx.decide(dd.lt(m, n)):
        n = m
    n = cx.simp(n)
    if isf and cx.I.fault and cx.decide(dd.lt(1, n)) and faulty(cx, 'short-read'):
        n = 1
    cx.store(Ref(buf.a, buf.p, (buf.r[0], n)), Seq(cx.cut(Seq(e), 0, n)))
    advance(cx, slot, n)
    return ok(n)


@model('Read::read_to_end', 'Read::read_to_string', 'io::read_to_string')
def _rte(cx, args, c, f):
    n = canon(c['d'])
    if n == 'io::read_to_string':
        t = cx.tmp(args[0])
        args = [t, cx.tmp(Seq(()))]
    slot = args[0]
    v = cx.load(slot)
    if not known_reader(cx, v):
        return NA
    if is_file(cx, v) and faulty(cx, 'read'):
        return ioerr('Other')
    e = avail(cx, v)
    if n.endswith('to_string') and not utf8(cx, e):
        return ioerr('InvalidData')
    m = seqlen(Seq(e))
    if n == 'io::read_to_string':
        return ok(Seq(e))
    dst = args[1]
    while type(cx.load(dst)) is Ref:
        dst = cx.load(dst)
    cx.store(dst, Seq(cx.load(dst).e + e))
    advance(cx, slot, m)
    return ok(m)


def utf8(cx, e):
    """are the elements valid UTF-8?"""
    try:
        chars_of(e)
    except Undecided as x:
        if 'non-UTF-8' in str(x):
            return False
        raise
    return True


@model('Read::by_ref', 'Write::by_ref')
def _byref(cx, args, c, f):
    return args[0]


@model('Read::take')
def _take(cx, args, c, f):
    return Obj('take', args[0], args[1])


@model('Read::chain')
def _chain(cx, args, c, f):
    return Obj('chain', args[0], args[1])


@model('io::empty')
def _empty(cx, args, c, f):
    return Obj('empty')


@model('BufReader::new', 'BufReader::with_capacity')
def _br(cx, args, c, f):
    return Obj('bufreader', args[-1])


@model('BufReader::into_inner')
def _brinto(cx, args, c, f):
    return args[0].f[0]


def read_line(cx, slot, dst, delim=10, text=True):
    v = cx.load(slot)
    if is_file(cx, v) and faulty(cx, 'read'):
        return ioerr('Other')
    e = avail(cx, v)
    k = None
    for i, x in enumerate(e):
        if type(x) is Run:
            if x.info and x.info[0] == 'fill':
                if x.info[1] == delim:
                    raise Undecided('line end inside a run')
                continue
            if x.byte is None:
                raise Undecided('line splitting of an opaque run')
            c = dd.band(x.cls, dd.eq(x.byte, delim))
            if not (type(c) is int and c == 0):
                raise Undecided('run may contain a line end')
            continue
        if cx.decide(dd.eq(x, delim)):
            k = i
            break
    line = e if k is None else e[:k + 1]
    n = seqlen(Seq(line))
    advance(cx, slot, n)
    if text and not utf8(cx, line):
        return ioerr('InvalidData')
    while type(cx.load(dst)) is Ref:
        dst = cx.load(dst)
    cx.store(dst, Seq(cx.load(dst).e + line))
    return ok(n)


@model('BufRead::read_line', 'BufRead::read_until')
def _readline(cx, args, c, f):
    v = cx.load(args[0])
    if not known_reader(cx, v):
        return NA
    if canon(c['d']).endswith('until'):
        return read_line(cx, args[0], args[2], cx.conc(args[1]), False)
    return read_line(cx, args[0], args[1])


@model('BufRead::lines')
def _blines(cx, args, c, f):
    return It('blines', args[0])


# ------------------------------------------------------------------ sinks
def emit(cx, v, e):
    """write all elements: (ok?, v')"""
    if type(v) is Seq:
        return True, Seq(v.e + tuple(e))
    if type(v) is Ref:
        if v.r is not None:
            n = seqlen(Seq(tuple(e)))
            fits = cx.decide(dd.le(n, v.r[1]))
            if not fits:
                n = v.r[1]
                e = cx.cut(Seq(tuple(e)), 0, n)
            if not (type(n) is int and n == 0):
                cx.store(Ref(v.a, v.p, (v.r[0], n)), Seq(tuple(e)))
            return fits, Ref(v.a, v.p, (cx.simp(dd.add(v.r[0], n)), cx.simp(dd.sub(v.r[1], n))))
        r, w = emit(cx, cx.load(v), e)
        cx.store(v, w)
        return r, v
    if type(v) is Obj:
        if v.k == 'cursor':
            return emit_cursor(cx, v, tuple(e))
        if v.k == 'file':
            if faulty(cx, 'write'):
                return False, v
            if full(cx, v, e):
                return False, v
            put_file(cx, v, tuple(e))
            return True, v
        if v.k == 'bufwriter':
            return True, Obj('bufwriter', v.f[0], Seq(v.f[1].e + tuple(e)))
        if v.k in ('stdout', 'stderr'):
            cx.event(v.k, Seq(tuple(e)))
            return True, v
        if v.k == 'sink':
            return True, v
    raise Undecided('writer %s' % type(v).__name__)


def full(cx, v, e):
    """the disk is full: a file with a limit takes what fits"""
    k = cx.st.h['fh:%d' % v.f[0]].f[0]
    lim = cx.st.h.get('cap:' + k)
    if lim is None:
        return False
    n = seqlen(cx.st.h['fs:' + k])
    left = cx.simp(dd.sub(lim, n))
    if cx.decide(dd.le(seqlen(Seq(tuple(e))), left)):
        return False
    put_file(cx, v, cx.cut(Seq(tuple(e)), 0, left))
    cx.st.h['cap:' + k] = lim
    return True


def put_file(cx, v, e):
    k = 'fh:%d' % v.f[0]
    h = cx.st.h[k]
    if not h.f[3]:
        raise Undecided('write to a file not opened for writing')
    fk = 'fs:' + h.f[0]
    s = cx.st.h[fk]
    n = seqlen(Seq(e))
    ln = seqlen(s)
    pos = ln if h.f[4] else h.f[1]
    cx.event('write', h.f[0])
    if cx.decide(dd.eq(pos, ln)):
        cx.st.h[fk] = Seq(s.e + e)
    else:
        end = dd.add(pos, n)
        pre = cx.cut(s, 0, pos)
        post = cx.cut(s, end, dd.sub(ln, end)) if cx.decide(dd.lt(end, ln)) else ()
        cx.st.h[fk] = Seq(pre + e + post)
    cx.st.h[k] = Obj('fh', h.f[0], cx.simp(dd.add(pos, n)), *h.f[2:])


def emit_cursor(cx, v, e):
    inner, pos = v.f
    n = seqlen(Seq(e))
    grow = False
    if type(inner) is Seq:
        grow = True
        s = inner
    elif type(inner) is Ref and inner.r is None and type(cx.load(inner)) is Seq and cx.I.cursor_grow(cx, inner):
        grow = True
        s = cx.load(inner)
    elif type(inner) is Ref:
        s = cx.load(seqref(cx, inner))
    else:
        raise Undecided('cursor over %s' % type(inner).__name__)
    ln = seqlen(s)
    end = dd.add(pos, n)
    fits = True
    if not grow and not cx.decide(dd.le(end, ln)):
        fits = False
        if not cx.decide(dd.le(pos, ln)):
            return False, v
        n = cx.simp(dd.sub(ln, pos))
        e = cx.cut(Seq(e), 0, n)
        end = ln
    if grow and not cx.decide(dd.le(pos, ln)):
        from .values import fill
        gap = cx.simp(dd.sub(pos, ln))
        s = Seq(s.e + ((0,) * gap if type(gap) is int else (fill(0, gap),)))
        ln = pos
    pre = cx.cut(s, 0, pos)
    post = cx.cut(s, end, dd.sub(ln, end)) if cx.decide(dd.lt(end, ln)) else ()
    ns = Seq(pre + e + post)
    if type(inner) is Seq:
        inner = ns
    elif grow:
        cx.store(inner, ns)
    else:
        cx.store(seqref(cx, inner), ns)
    return fits, Obj('cursor', inner, cx.simp(end))


def known_writer(cx, v):
    while type(v) is Ref:
        if v.r is not None:
            return True
        v = cx.load(v)
    return type(v) in (Obj, Seq)


def data_of(cx, r):
    w = cx.deref(r)
    if type(w) is not Seq:
        raise Undecided('data to write')
    return w.e


@model('Write::write_all')
def _write_all(cx, args, c, f):
    slot = args[0]
    v = cx.load(slot)
    if not known_writer(cx, v):
        return NA
    o, n = emit(cx, v, data_of(cx, args[1]))
    cx.store(slot, n)
    return ok(UNIT) if o else ioerr('WriteZero')


@model('Write::write')
def _write(cx, args, c, f):
    slot = args[0]
    v = cx.load(slot)
    if not known_writer(cx, v):
        return NA
    e = data_of(cx, args[1])
    n = seqlen(Seq(e))
    if is_file(cx, v) and cx.I.fault and not (type(v) is Obj and v.k == 'bufwriter'):
        if cx.decide(dd.lt(1, n)) and faulty(cx, 'short-write'):
            put_file(cx, root_file(cx, v), cx.cut(Seq(e), 0, 1))
            return ok(1)
        o, w = emit(cx, v, e)
        cx.store(slot, w)
        return ok(n) if o else ioerr('Other')
    # bounded sinks accept what fits
    before = room(cx, v)
    o, w = emit(cx, v, e)
    cx.store(slot, w)
    return ok(n if o else before)


def root_file(cx, v):
    while not (type(v) is Obj and v.k == 'file'):
        v = cx.load(v) if type(v) is Ref else v.f[0]
    return v


def room(cx, v):
    if type(v) is Ref:
        return v.r[1] if v.r is not None else room(cx, cx.load(v))
    if type(v) is Obj and v.k == 'cursor' and type(v.f[0]) is Ref:
        s = seqref(cx, v.f[0])
        return cx.simp(dd.ite(dd.le(v.f[1], s.r[1]), dd.sub(s.r[1], v.f[1]), 0))
    return None


@model('Write::flush')
def _flush(cx, args, c, f):
    slot = args[0]
    v = cx.load(slot)
    if not known_writer(cx, v):
        return NA
    o, n = flush(cx, v)
    cx.store(slot, n)
    return ok(UNIT) if o else ioerr('Other')


def flush(cx, v):
    if type(v) is Ref and v.r is None:
        o, n = flush(cx, cx.load(v))
        cx.store(v, n)
        return o, v
    if type(v) is Obj and v.k == 'bufwriter':
        e = v.f[1].e
        if not e:
            return True, v
        o, n = emit(cx, v.f[0], e)
        return o, Obj('bufwriter', n, Seq(()))
    return True, v


@model('BufWriter::new', 'BufWriter::with_capacity', 'LineWriter::new')
def _bw(cx, args, c, f):
    return Obj('bufwriter', args[-1], Seq(()))


@model('BufWriter::into_inner')
def _bwinto(cx, args, c, f):
    o, n = flush(cx, args[0])
    return ok(n.f[0]) if o else err(Opaque('IntoInnerError'))


@model('BufWriter::get_ref', 'BufWriter::get_mut', 'BufReader::get_ref', 'BufReader::get_mut')
def _bwget(cx, args, c, f):
    v = cx.load(args[0])
    if type(v.f[0]) is Ref and v.f[0].r is None:
        return cx.tmp(v.f[0])
    raise Undecided('reference into a buffered stream')


def on_drop(cx, v, depth=0):
    """a dropped BufWriter writes its buffer and ignores failures"""
    if type(v) is Obj and v.k == 'bufwriter':
        if v.f[1].e:
            emit(cx, v.f[0], v.f[1].e)
    elif type(v) is Agg and depth < 4:
        for x in v.f:
            on_drop(cx, x, depth + 1)


@model('Write::write_fmt')
def _wfmt(cx, args, c, f):
    slot = args[0]
    v = cx.load(slot)
    if not known_writer(cx, v):
        return NA
    x = args[1]
    if type(x) is not Obj or x.k != 'fmt':
        raise Undecided('write_fmt')
    o, n = emit(cx, v, x.f[0].e)
    cx.store(slot, n)
    return ok(UNIT) if o else ioerr('WriteZero')


@model('io::sink')
def _sink(cx, args, c, f):
    return Obj('sink')


@model('io::stdout', 'io::stderr', 'stdio::stdout', 'stdio::stderr')
def _stdout(cx, args, c, f):
    return Obj(canon(c['d']).split('::')[1])


@model('Stdout::lock', 'Stderr::lock')
def _lock(cx, args, c, f):
    return cx.load(args[0])


@model('io::copy')
def _copy(cx, args, c, f):
    v = cx.load(args[0])
    w = cx.load(args[1])
    if not known_reader(cx, v) or not known_writer(cx, w):
        return NA
    if is_file(cx, v) and faulty(cx, 'read'):
        return ioerr('Other')
    e = avail(cx, v)
    n = seqlen(Seq(e))
    advance(cx, args[0], n)
    o, x = emit(cx, cx.load(args[1]), e)
    cx.store(args[1], x)
    return ok(n) if o else ioerr('Other')


# ------------------------------------------------------------------ Cursor
@model('Cursor::new')
def _cnew(cx, args, c, f):
    t = cx.I.M.targ(c, 0)
    if t is not None and cx.I.P.kind(t) == 'array':
        r = cx.tmp(args[0])
        return Obj('cursor', Ref(r.a, (), (0, seqlen(args[0]))), 0)
    return Obj('cursor', args[0], 0)


@model('Cursor::into_inner')
def _cinto(cx, args, c, f):
    t = cx.I.M.targ(c, 0)
    if t is not None and cx.I.P.kind(t) == 'array':
        return cx.load(args[0].f[0])
    return args[0].f[0]


@model('Cursor::get_ref', 'Cursor::get_mut')
def _cget(cx, args, c, f):
    v = cx.load(args[0])
    return cx.tmp(v.f[0])


@model('Cursor::position')
def _cpos(cx, args, c, f):
    return cx.load(args[0]).f[1]


@model('Cursor::set_position')
def _csetpos(cx, args, c, f):
    v = cx.load(args[0])
    cx.store(args[0], Obj('cursor', v.f[0], args[1]))
    return UNIT


# ------------------------------------------------------------------ files
def pathkey(cx, v):
    s = cx.deref(v) if type(v) is Ref else v
    if type(s) is not Seq:
        raise Undecided('path')
    return skey(s), s


FLAGS = ('read', 'write', 'append', 'truncate', 'create', 'create_new')


@model('OpenOptions::new', 'File::options')
def _oo(cx, args, c, f):
    return Obj('oo', 0, 0, 0, 0, 0, 0)


@model(*['OpenOptions::' + x for x in FLAGS])
def _ooset(cx, args, c, f):
    k = FLAGS.index(canon(c['d']).split('::')[1])
    v = cx.load(args[0])
    b = cx.conc(args[1])
    cx.store(args[0], Obj('oo', *(v.f[:k] + (b,) + v.f[k + 1:])))
    return args[0]


def do_open(cx, path, fl):
    rd, wr, ap, tr, cr, cn = fl = tuple(1 if cx.decide(x) else 0 for x in fl)
    key, s = pathkey(cx, path)
    cx.event('open', key, fl)
    if faulty(cx, 'open'):
        return ioerr('PermissionDenied')
    fk = 'fs:' + key
    cur = cx.st.h.get(fk)
    if not rd and not wr and not ap:
        return ioerr('InvalidInput')
    if (tr or cr or cn) and not wr and not (ap and not tr):
        return ioerr('InvalidInput')
    if cur is None:
        if not (cr or cn):
            return ioerr('NotFound')
        cx.st.h[fk] = Seq(())
        cx.event('create', key)
    elif cn:
        return ioerr('AlreadyExists')
    elif tr:
        cx.st.h[fk] = Seq(())
        cx.event('truncate', key)
    n = cx.st.h.get('nfh', 0)
    cx.st.h['nfh'] = n + 1
    cx.st.h['fh:%d' % n] = Obj('fh', key, 0, 1 if rd else 0, 1 if wr or ap else 0, 1 if ap else 0)
    return ok(Obj('file', n))


@model('OpenOptions::open', 'OpenOptions::_open')
def _open(cx, args, c, f):
    return do_open(cx, args[1], tuple(cx.load(args[0]).f))


@model('File::open', 'File::create', 'File::create_new')
def _fopen(cx, args, c, f):
    n = canon(c['d']).split('::')[1]
    fl = {'open': (1, 0, 0, 0, 0, 0), 'create': (0, 1, 0, 1, 1, 0), 'create_new': (1, 1, 0, 0, 0, 1)}[n]
    return do_open(cx, args[0], fl)


@model('fs::read', 'fs::read_to_string')
def _fsread(cx, args, c, f):
    r = do_open(cx, args[0], (1, 0, 0, 0, 0, 0))
    if r.v == 1:
        return r
    if faulty(cx, 'read'):
        return ioerr('Other')
    e = avail(cx, r.f[0])
    if canon(c['d']).endswith('string') and not utf8(cx, e):
        return ioerr('InvalidData')
    return ok(Seq(e))


@model('fs::write')
def _fswrite(cx, args, c, f):
    r = do_open(cx, args[0], (0, 1, 0, 1, 1, 0))
    if r.v == 1:
        return r
    d = cx.deref(args[1]) if type(args[1]) is Ref else args[1]
    o, _ = emit(cx, r.f[0], d.e)
    return ok(UNIT) if o else ioerr('Other')


@model('fs::remove_file')
def _fsrm(cx, args, c, f):
    key, s = pathkey(cx, args[0])
    cx.event('remove', key)
    if faulty(cx, 'remove'):
        return ioerr('Other')
    if cx.st.h.get('fs:' + key) is None:
        return ioerr('NotFound')
    cx.st.h['fs:' + key] = None
    return ok(UNIT)


@model('fs::rename')
def _fsmv(cx, args, c, f):
    a, _ = pathkey(cx, args[0])
    b, _ = pathkey(cx, args[1])
    cx.event('rename', a, b)
    if faulty(cx, 'rename'):
        return ioerr('Other')
    v = cx.st.h.get('fs:' + a)
    if v is None:
        return ioerr('NotFound')
    cx.st.h['fs:' + b] = v
    cx.st.h['fs:' + a] = None
    return ok(UNIT)


@model('Path::exists', 'Path::is_file', 'fs::exists')
def _exists(cx, args, c, f):
    key, s = pathkey(cx, args[0])
    r = 1 if cx.st.h.get('fs:' + key) is not None else 0
    return ok(r) if canon(c['d']) == 'fs::exists' else r


@model('fs::metadata', 'Path::metadata', 'fs::symlink_metadata', 'Path::symlink_metadata')
def _meta(cx, args, c, f):
    key, s = pathkey(cx, args[0])
    v = cx.st.h.get('fs:' + key)
    if v is None:
        return ioerr('NotFound')
    return ok(Obj('meta', seqlen(v)))


@model('File::metadata')
def _fmeta(cx, args, c, f):
    h = cx.st.h['fh:%d' % cx.load(args[0]).f[0]]
    v = cx.st.h.get('fs:' + h.f[0])
    if v is None:
        raise Undecided('metadata of a removed file')
    return ok(Obj('meta', seqlen(v)))


@model('Metadata::len')
def _metalen(cx, args, c, f):
    return cx.deref(args[0]).f[0]


@model('Metadata::is_file')
def _metafile(cx, args, c, f):
    return 1


@model('Metadata::is_dir', 'Metadata::is_symlink', 'Path::is_dir', 'Path::is_symlink')
def _metadir(cx, args, c, f):
    return 0


@model('fs::copy')
def _fscp(cx, args, c, f):
    r = do_open(cx, args[0], (1, 0, 0, 0, 0, 0))
    if r.v == 1:
        return r
    if faulty(cx, 'read'):
        return ioerr('Other')
    e = avail(cx, r.f[0])
    w = do_open(cx, args[1], (0, 1, 0, 1, 1, 0))
    if w.v == 1:
        return w
    o, _ = emit(cx, w.f[0], e)
    return ok(seqlen(Seq(tuple(e)))) if o else ioerr('Other')


@model('fs::create_dir', 'fs::create_dir_all')
def _mkdir(cx, args, c, f):
    key, s = pathkey(cx, args[0])
    cx.event('mkdir', key)
    if faulty(cx, 'mkdir'):
        return ioerr('Other')
    return ok(UNIT)


@model('File::sync_all', 'File::sync_data', 'File::set_len')
def _sync(cx, args, c, f):
    if canon(c['d']).endswith('set_len'):
        v = cx.load(args[0])
        h = cx.st.h['fh:%d' % v.f[0]]
        s = cx.st.h['fs:' + h.f[0]]
        cx.st.h['fs:' + h.f[0]] = Seq(cx.cut(s, 0, args[1]))
        cx.event('truncate', h.f[0])
    if faulty(cx, 'sync'):
        return ioerr('Other')
    return ok(UNIT)


# ------------------------------------------------------------------ errors
@model('Error::new', 'Error::other', 'Error::from_static_message', 'Error::new_const')
def _enew(cx, args, c, f):
    return Obj('ioerr', 'custom', Seq(()))


@model('Error::kind')
def _ekind(cx, args, c, f):
    v = cx.deref(args[0])
    if type(v) is Obj and v.k == 'ioerr':
        want = v.f[0]
        if want == 'Other' and cx.I.fault and cx.st.h.get('faulted'):
            # which failure the system reports is open (not the ones after which trying again is right, or which mean the end)
            for k in ('PermissionDenied', 'BrokenPipe', 'StorageFull', 'InvalidInput', 'InvalidData', 'TimedOut', 'WouldBlock'):
                if cx.decide(dd.pred(('io', 'kind', k))):
                    want = k
                    break
        for t in cx.I.P.types:
            if t.get('def', '').endswith('ErrorKind'):
                for i, x in enumerate(t['variants']):
                    if x['n'] == want:
                        return Agg(i, ())
    raise Undecided('error kind')


# ------------------------------------------------------------------ environment
@model('env::args')
def _args(cx, args, c, f):
    v = cx.st.h.get('args')
    if v is None:
        raise Undecided('program arguments')
    return It('vec', v)


@model('env::args_os')
def _argsos(cx, args, c, f):
    return _args(cx, args, c, f)


# ------------------------------------------------------------------ paths
def split_name(cx, e):
    """index of the first element of the final component (no trailing separators handled)"""
    for i in range(len(e) - 1, -1, -1):
        x = e[i]
        if type(x) is Run:
            if x.byte is None:
                raise Undecided('opaque path')
            k = dd.band(x.cls, dd.eq(x.byte, 47))
            if not (type(k) is int and k == 0):
                raise Undecided('path run may contain a separator')
            continue
        if cx.decide(dd.eq(x, 47)):
            return i + 1
    return 0


def name_dot(cx, e, st):
    """index of the dot before the extension, or None"""
    if len(e) - st == 2 and e[st] == 46 and e[st + 1] == 46:
        return None
    for i in range(len(e) - 1, st, -1):
        x = e[i]
        if type(x) is Run:
            if x.byte is None:
                raise Undecided('opaque path')
            k = dd.band(x.cls, dd.eq(x.byte, 46))
            if not (type(k) is int and k == 0):
                raise Undecided('path run may contain a dot')
            continue
        if cx.decide(dd.eq(x, 46)):
            # a run before it may be empty: then the dot starts the name
            if all(type(y) is Run for y in e[st:i]):
                n = 0
                for y in e[st:i]:
                    n = dd.add(n, y.len)
                if cx.decide(dd.eq(n, 0)):
                    return None
            return i
    return None


def path_parts(cx, v):
    s = cx.deref(v) if type(v) is Ref else v
    e = s.e
    if not e:
        return e, None, None
    st = split_name(cx, e)
    if st == len(e):
        raise Undecided('path with trailing separator')
    if len(e) - st == 2 and e[st] == 46 and e[st + 1] == 46:
        return e, None, None
    return e, st, name_dot(cx, e, st)


def with_ext(cx, v, ext):
    e, st, dot = path_parts(cx, v)
    if st is None:
        return None
    x = cx.deref(ext).e
    base = e if dot is None else e[:dot]
    return Seq(base + ((46,) + x if x else ()))


@model('Path::with_extension', 'Path::_with_extension')
def _withext(cx, args, c, f):
    r = with_ext(cx, args[0], args[1])
    return r if r is not None else cx.deref(args[0])


@model('PathBuf::set_extension', 'PathBuf::_set_extension')
def _setext(cx, args, c, f):
    r = with_ext(cx, args[0], args[1])
    if r is None:
        return 0
    cx.store(args[0], r)
    return 1


@model('Path::extension', 'Path::file_stem', 'Path::file_name')
def _pext(cx, args, c, f):
    n = canon(c['d']).split('::')[1]
    r = seqref(cx, args[0])
    e, st, dot = path_parts(cx, r)
    if st is None:
        return NONE
    v = View(cx, r)
    if n == 'file_name':
        return some(v.sub(st, len(e)))
    if n == 'extension':
        return NONE if dot is None else some(v.sub(dot + 1, len(e)))
    return some(v.sub(st, len(e) if dot is None else dot))


@model('Path::with_file_name')
def _wfn(cx, args, c, f):
    e, st, dot = path_parts(cx, args[0])
    if st is None:
        raise Undecided('with_file_name')
    return Seq(e[:st] + cx.deref(args[1]).e)


@model('Path::join', 'PathBuf::push')
def _pjoin(cx, args, c, f):
    raise Undecided('path joining')


@model('Path::to_str', 'OsStr::to_str')
def _tostr(cx, args, c, f):
    return some(seqref(cx, args[0]))


@model('Path::to_string_lossy', 'Path::display', 'OsStr::to_string_lossy', 'OsStr::display')
def _lossy(cx, args, c, f):
    return seqref(cx, args[0])


@model('OsString::into_string')
def _osinto(cx, args, c, f):
    return ok(args[0])
