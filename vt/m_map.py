"""Library models: maps and sets; sources of nondeterminism.

A map or set is Agg(0, (Seq(entries),)), an entry the pair (key, value).  Ordered ones are kept sorted.  The order in which a
hash map or hash set shows its entries is a choice of the execution: two orders are explored, the one of insertion and its reverse.
"""
from . import dd
from .dd import Undecided
from .models import model, NA, NONE, some, ok, err, canon
from .values import Agg, FnVal, UNIT, Run, Seq, Ref, It, Obj, SCALARS
from .interp import PanicExc
from .m_core import eq_val, cmp_val, TABLE
from . import m_iter, m_seq, m_core as _core

KINDS = ('HashMap', 'HashSet', 'BTreeMap', 'BTreeSet')
EMPTY = Agg(0, (Seq(()),))


def kind_of(name):
    """(kind, by reference) of a type name"""
    n = name
    ref = 0
    while n.startswith('&'):
        n = n[1:]
        ref = 1
        if n.startswith("'"):
            n = n.split(' ', 1)[1] if ' ' in n else n
        if n.startswith('mut '):
            n = n[4:]
    for k in KINDS:
        if n.startswith(('std::collections::%s<' % k, 'std::collections::hash_map::%s<' % k, 'std::collections::hash_set::%s<' % k, 'std::collections::btree_map::%s<' % k, 'std::collections::btree_set::%s<' % k)):
            return k, ref
    return None, 0


def slot(cx, r):
    """the place of the map behind a reference"""
    while True:
        v = cx.load(r)
        if type(v) is Ref:
            r = v
            continue
        if type(v) is Agg and len(v.f) == 1 and type(v.f[0]) is Seq:
            return r, v.f[0]
        raise Undecided('map')


def find(cx, s, key):
    for j, e in enumerate(s.e):
        if cx.decide(eq_val(cx, e.f[0], key)):
            return j
    return None


def add(cx, kind, s, k, v):
    """(new entries, index, old value or None)"""
    j = find(cx, s, k)
    if j is not None:
        old = s.e[j]
        return Seq(s.e[:j] + (Agg(0, (old.f[0], v)),) + s.e[j + 1:]), j, old.f[1]
    e = Agg(0, (k, v))
    if kind.startswith('BTree'):
        for j, x in enumerate(s.e):
            if cx.conc(cmp_val(cx, k, x.f[0])) == 0:
                return Seq(s.e[:j] + (e,) + s.e[j:]), j, None
    return Seq(s.e + (e,)), len(s.e), None


def name_of(c):
    return canon(c['d']).split('::')[0]


def order(cx, kind, n):
    """the indices in the order an iteration shows them"""
    xs = list(range(n))
    if kind.startswith('Hash') and n >= 2:
        k = cx.st.h.get('hashes', 0)
        cx.st.h['hashes'] = k + 1
        cx.event('nondet', 'the iteration order of a %s' % kind)
        if cx.decide(dd.pred(('nondet', 'hash', k))):
            xs.reverse()
    return xs


def shown(cx, kind, r, s, what):
    """iterator over the entries"""
    out = []
    for j in order(cx, kind, len(s.e)):
        k = Ref(r.a, r.p + (0, ('e', j), 0))
        v = Ref(r.a, r.p + (0, ('e', j), 1))
        if what == 'keys' or kind.endswith('Set'):
            out.append(k)
        elif what == 'values':
            out.append(v)
        else:
            out.append(Agg(0, (k, v)))
    return It('vec', Seq(tuple(out)))


def owned(cx, kind, s, what='iter'):
    out = []
    for j in order(cx, kind, len(s.e)):
        e = s.e[j]
        out.append(e.f[0] if kind.endswith('Set') or what == 'keys' else e.f[1] if what == 'values' else e)
    return It('vec', Seq(tuple(out)))


def build(cx, kind, items):
    s = Seq(())
    for x in items:
        if type(x) is Run:
            raise Undecided('collecting a run into a map')
        if kind.endswith('Set'):
            j = find(cx, s, x)
            if j is None:
                s = add(cx, kind, s, x, UNIT)[0]
        else:
            s = add(cx, kind, s, x.f[0], x.f[1])[0]
    return Agg(0, (s,))


def every(*methods):
    return [k + '::' + m for k in KINDS for m in methods]


@model(*every('new', 'with_capacity', 'default', 'with_hasher', 'with_capacity_and_hasher'))
def _new(cx, args, c, f):
    return EMPTY


@model(*every('insert', 'replace'))
def _insert(cx, args, c, f):
    kind = name_of(c)
    r, s = slot(cx, args[0])
    if kind.endswith('Set'):
        j = find(cx, s, args[1])
        if j is None:
            cx.store(r, Agg(0, (add(cx, kind, s, args[1], UNIT)[0],)))
        return 1 if j is None else 0
    n, j, old = add(cx, kind, s, args[1], args[2])
    cx.store(r, Agg(0, (n,)))
    return NONE if old is None else some(old)


@model(*every('contains_key', 'contains'))
def _has(cx, args, c, f):
    r, s = slot(cx, args[0])
    o = 0
    for e in s.e:
        o = dd.bor(o, eq_val(cx, e.f[0], args[1]))
    return cx.simp(o)


@model(*every('get', 'get_mut', 'get_key_value'))
def _mget(cx, args, c, f):
    r, s = slot(cx, args[0])
    j = find(cx, s, args[1])
    if j is None:
        return NONE
    k = Ref(r.a, r.p + (0, ('e', j), 0))
    v = Ref(r.a, r.p + (0, ('e', j), 1))
    if name_of(c).endswith('Set'):
        return some(k)
    return some(Agg(0, (k, v)) if canon(c['d']).endswith('key_value') else v)


@model(*every('remove', 'take', 'remove_entry'))
def _mremove(cx, args, c, f):
    r, s = slot(cx, args[0])
    j = find(cx, s, args[1])
    m = canon(c['d']).split('::')[1]
    st = name_of(c).endswith('Set')
    if j is None:
        return 0 if st and m == 'remove' else NONE
    e = s.e[j]
    cx.store(r, Agg(0, (Seq(s.e[:j] + s.e[j + 1:]),)))
    if st:
        return 1 if m == 'remove' else some(e.f[0])
    return some(e if m == 'remove_entry' else e.f[1])


@model(*every('len'))
def _mlen(cx, args, c, f):
    return len(slot(cx, args[0])[1].e)


@model(*every('is_empty'))
def _mempty(cx, args, c, f):
    return 0 if slot(cx, args[0])[1].e else 1


@model(*every('clear'))
def _mclear(cx, args, c, f):
    cx.store(slot(cx, args[0])[0], EMPTY)
    return UNIT


@model(*every('iter', 'iter_mut', 'keys', 'values', 'values_mut'))
def _miter(cx, args, c, f):
    r, s = slot(cx, args[0])
    return shown(cx, name_of(c), r, s, canon(c['d']).split('::')[1].replace('_mut', ''))


@model(*every('into_keys', 'into_values'))
def _minto(cx, args, c, f):
    return owned(cx, name_of(c), args[0].f[0], canon(c['d']).split('_')[1])


@model(*every('drain'))
def _mdrain(cx, args, c, f):
    r, s = slot(cx, args[0])
    cx.store(r, EMPTY)
    return owned(cx, name_of(c), s)


@model('BTreeMap::first_key_value', 'BTreeMap::last_key_value', 'BTreeSet::first', 'BTreeSet::last')
def _mfirst(cx, args, c, f):
    r, s = slot(cx, args[0])
    if not s.e:
        return NONE
    j = 0 if 'first' in canon(c['d']) else len(s.e) - 1
    k = Ref(r.a, r.p + (0, ('e', j), 0))
    return some(k if name_of(c).endswith('Set') else Agg(0, (k, Ref(r.a, r.p + (0, ('e', j), 1)))))


@model('HashMap::entry', 'BTreeMap::entry')
def _entry(cx, args, c, f):
    r, s = slot(cx, args[0])
    return Obj('entry', name_of(c), r, args[1])


def vacant(cx, e, make):
    r, s = slot(cx, e.f[1])
    j = find(cx, s, e.f[2])
    if j is None:
        v = make()
        r, s = slot(cx, e.f[1])
        n, j, _ = add(cx, e.f[0], s, e.f[2], v)
        cx.store(r, Agg(0, (n,)))
    return Ref(r.a, r.p + (0, ('e', j), 1))


@model('Entry::or_insert')
def _or(cx, args, c, f):
    return vacant(cx, args[0], lambda: args[1])


@model('Entry::or_insert_with')
def _orw(cx, args, c, f):
    return vacant(cx, args[0], lambda: cx.apply(args[1], [])[0])


@model('Entry::or_default')
def _ord(cx, args, c, f):
    ts = [x for x in c['a'] if type(x) is int]
    P = cx.I.P
    n = P.tys(ts[1])
    if P.intinfo(ts[1]):
        return vacant(cx, args[0], lambda: 0)
    if n.startswith(('std::vec::Vec<', 'std::string::String')):
        return vacant(cx, args[0], lambda: Seq(()))
    if kind_of(n)[0]:
        return vacant(cx, args[0], lambda: EMPTY)
    if n.startswith('std::option::Option<'):
        return vacant(cx, args[0], lambda: NONE)
    raise Undecided('or_default of ' + n)


@model('Entry::and_modify')
def _andm(cx, args, c, f):
    e = args[0]
    r, s = slot(cx, e.f[1])
    j = find(cx, s, e.f[2])
    if j is not None:
        cx.apply(args[1], [Ref(r.a, r.p + (0, ('e', j), 1))])
    return e


# ------------------------------------------------------------------ traits, by the type at hand
def chain(name, fn):
    old = TABLE[name]

    def both(cx, args, c, f):
        v = fn(cx, args, c, f)
        return old(cx, args, c, f) if v is NA else v
    TABLE[name] = both


def t_into(cx, args, c, f):
    M = cx.I.M
    k, ref = kind_of(M.tname(M.targ(c, 0)))
    if k is None:
        return NA
    if ref:
        r, s = slot(cx, args[0])
        return shown(cx, k, r, s, 'iter')
    return owned(cx, k, args[0].f[0])


chain('IntoIterator::into_iter', t_into)


def t_default(cx, args, c, f):
    M = cx.I.M
    t = M.targ(c, 0)
    return EMPTY if t is not None and kind_of(M.tname(t))[0] else NA


chain('Default::default', t_default)


def t_index(cx, args, c, f):
    M = cx.I.M
    k, ref = kind_of(M.tname(M.targ(c, 0)))
    if k is None:
        return NA
    r, s = slot(cx, args[0])
    j = find(cx, s, args[1])
    if j is None:
        raise PanicExc(('no entry for this key', None))
    return Ref(r.a, r.p + (0, ('e', j), 1))


chain('Index::index', t_index)

_gather = m_iter.gather


def gather(cx, it, ty):
    k, ref = kind_of(cx.I.P.tys(ty))
    if k is not None and not ref:
        return build(cx, k, m_iter.items_of(cx, it))
    return _gather(cx, it, ty)


m_iter.gather = gather


def t_extend(cx, args, c, f):
    M = cx.I.M
    k, ref = kind_of(M.tname(M.targ(c, 0)))
    if k is None:
        return NA
    ts = [x for x in c['a'] if type(x) is int]
    it = t_into_any(cx, args[1], ts[-1])
    for x in m_iter.items_of(cx, it):
        r, s = slot(cx, args[0])
        if k.endswith('Set'):
            if find(cx, s, x) is None:
                cx.store(r, Agg(0, (add(cx, k, s, x, UNIT)[0],)))
        else:
            cx.store(r, Agg(0, (add(cx, k, s, x.f[0], x.f[1])[0],)))
    return UNIT


def t_into_any(cx, v, ty):
    k, ref = kind_of(cx.I.P.tys(ty))
    if k is None:
        return m_iter.to_it(cx, v, ty)
    if ref:
        r, s = slot(cx, v)
        return shown(cx, k, r, s, 'iter')
    return owned(cx, k, v.f[0])


chain('Extend::extend', t_extend)

_to_it = m_iter.to_it


def to_it(cx, v, ty=None):
    if ty is not None and type(v) in (Agg, Ref) and kind_of(cx.I.P.tys(ty))[0]:
        return t_into_any(cx, v, ty)
    return _to_it(cx, v, ty)


m_iter.to_it = to_it


# ------------------------------------------------------------------ sources of nondeterminism
def nondet(cx, what, w=64):
    k = cx.st.h.get('nondets', 0)
    cx.st.h['nondets'] = k + 1
    cx.event('nondet', what)
    return dd.uvar('nondet:%s#%d' % (what, k), w)


@model('SystemTime::now', 'Instant::now')
def _now(cx, args, c, f):
    cx.event('nondet', 'the clock')
    return Obj('time')


@model('SystemTime::duration_since', 'SystemTime::elapsed')
def _since(cx, args, c, f):
    if any(type(cx.load(a) if type(a) is Ref else a) is Obj for a in args):
        return ok(Obj('dur'))
    return NA


@model('Instant::elapsed', 'Instant::duration_since')
def _ielapsed(cx, args, c, f):
    return Obj('dur')


W = {'as_secs': 64, 'as_millis': 64, 'as_micros': 64, 'as_nanos': 64, 'subsec_nanos': 29, 'subsec_micros': 19, 'subsec_millis': 9}


@model(*['Duration::' + k for k in W])
def _dur(cx, args, c, f):
    v = cx.load(args[0]) if type(args[0]) is Ref else args[0]
    if type(v) is Obj and v.k == 'dur':
        return nondet(cx, 'the clock', W[canon(c['d']).split('::')[1]])
    return NA


@model('process::id')
def _pid(cx, args, c, f):
    return nondet(cx, 'the process id', 32)


def some_text(cx, what):
    k = cx.st.h.get('nondets', 0)
    cx.st.h['nondets'] = k + 1
    cx.event('nondet', what)
    nm = 'nondet:%s#%d' % (what, k)
    ln = dd.var(nm + '.len', 0, 4096)
    b = dd.var(nm + '.char', 0, 127)
    cx.assume(dd.domain(ln))
    return Seq((Run(nm, ln, b, 1, 0, None),))


@model('env::var')
def _envvar(cx, args, c, f):
    what = 'an environment variable'
    k = cx.st.h.get('nondets', 0)
    if cx.decide(dd.pred(('nondet', what, k))):
        return ok(some_text(cx, what))
    cx.st.h['nondets'] = k + 1
    cx.event('nondet', what)
    return err(Agg(0, ()))


@model('env::var_os')
def _envvaros(cx, args, c, f):
    what = 'an environment variable'
    k = cx.st.h.get('nondets', 0)
    if cx.decide(dd.pred(('nondet', what, k))):
        return some(some_text(cx, what))
    cx.st.h['nondets'] = k + 1
    cx.event('nondet', what)
    return NONE


@model('env::current_dir', 'env::current_exe')
def _cwd(cx, args, c, f):
    return ok(some_text(cx, 'a path of the environment'))


@model('env::temp_dir')
def _tmpdir(cx, args, c, f):
    return some_text(cx, 'a path of the environment')


@model('thread::available_parallelism')
def _par(cx, args, c, f):
    cx.event('nondet', 'the number of processors')
    raise Undecided('the number of processors')


@model('BuildHasher::hash_one', 'RandomState::hash_one')
def _hash1(cx, args, c, f):
    return nondet(cx, 'a random hash', 64)


@model('RandomState::new')
def _rs(cx, args, c, f):
    return Obj('randomstate')


@model('BuildHasher::build_hasher', 'RandomState::build_hasher')
def _bh(cx, args, c, f):
    v = cx.load(args[0])
    if type(v) is Obj and v.k == 'randomstate':
        return Obj('hasher')
    return NA


@model('Hash::hash', *['Hasher::write' + s for s in ('', '_u8', '_u16', '_u32', '_u64', '_usize', '_i32', '_i64', '_str')])
def _hh(cx, args, c, f):
    for a in args:
        if type(a) is Ref and a.r is None:
            v = cx.load(a)
            while type(v) is Ref and v.r is None:
                v = cx.load(v)
            if type(v) is Obj and v.k == 'hasher':
                return UNIT
    return NA


@model('Hasher::finish')
def _hfin(cx, args, c, f):
    v = cx.load(args[0])
    if type(v) is Obj and v.k == 'hasher':
        return nondet(cx, 'a random hash', 64)
    return NA


# ------------------------------------------------------------------ state that outlives a call
def cell(cx, r):
    """the place of the value inside Cell, UnsafeCell, atomics"""
    v = cx.load(r)
    while type(v) is Agg and len(v.f) == 1:
        r = Ref(r.a, r.p + (0,))
        v = v.f[0]
    return r


ATOMICS = ['Atomic'] + ['Atomic' + x for x in ('Bool', 'U8', 'U16', 'U32', 'U64', 'Usize', 'I8', 'I16', 'I32', 'I64', 'Isize')]


def atomics(*ms):
    return [a + '::' + m for a in ATOMICS for m in ms]


def width(cx, c, f):
    import re
    n = (f['n'] if f is not None else '') + ' ' + c['d']
    P = cx.I.P
    for x in c['a']:
        if type(x) is int and P.intinfo(x):
            return P.intinfo(x)
    m = re.search(r'Atomic(U|I)(8|16|32|64|size)', n) or re.search(r'Atomic(?:::)?<(u|i)(8|16|32|64|size)', n)
    if not m:
        raise Undecided('atomic %r %r' % (n, [P.types[x]['s'] if type(x) is int else x for x in c['a']]))
    return (64 if m.group(2) == 'size' else int(m.group(2)), m.group(1) in 'Ii')


@model(*atomics('load', 'get_mut', 'into_inner'))
def _aload(cx, args, c, f):
    r = cell(cx, args[0])
    return r if canon(c['d']).endswith('get_mut') else cx.load(r)


@model(*atomics('store'))
def _astore(cx, args, c, f):
    cx.store(cell(cx, args[0]), args[1])
    return UNIT


@model(*atomics('swap', 'fetch_add', 'fetch_sub', 'fetch_max', 'fetch_min'))
def _armw(cx, args, c, f):
    r = cell(cx, args[0])
    v = cx.load(r)
    m = canon(c['d']).split('::')[1]
    if m == 'swap':
        n = args[1]
    elif m in ('fetch_add', 'fetch_sub'):
        w, sg = width(cx, c, f)
        n = dd.wrap(dd.add(v, args[1]) if m == 'fetch_add' else dd.sub(v, args[1]), w, sg)
    else:
        lt = dd.lt(v, args[1])
        n = dd.ite(lt, args[1], v) if m == 'fetch_max' else dd.ite(lt, v, args[1])
    cx.store(r, n)
    return v


@model('Cell::get', 'Cell::set', 'Cell::replace', 'Cell::take')
def _cell(cx, args, c, f):
    r = args[0]
    v = cx.load(r)
    for _ in range(2):                  # Cell { value: UnsafeCell { value } }
        if type(v) is Agg and len(v.f) == 1:
            r = Ref(r.a, r.p + (0,))
            v = v.f[0]
    m = canon(c['d']).split('::')[1]
    if m == 'get':
        return v
    if m == 'take':
        if type(v) not in SCALARS:
            raise Undecided('Cell::take')
        cx.store(r, 0)
        return v
    cx.store(r, args[1])
    return UNIT if m == 'set' else v


@model('Mutex::lock', 'RwLock::write', 'RwLock::read')
def _lock(cx, args, c, f):
    r = args[0]
    v = cx.load(r)
    P = cx.I.P
    if type(v) is not Agg:
        return NA
    ts = [x for x in c['a'] if type(x) is int]
    for i, t in enumerate(P.types):
        if t['k'] == 'adt' and t['s'].startswith(('std::sync::Mutex<', 'std::sync::poison::mutex::Mutex<', 'std::sync::RwLock<', 'std::sync::poison::rwlock::RwLock<')) and len(t['variants'][0]['f']) == len(v.f):
            names = [x[0] for x in t['variants'][0]['f']]
            if 'data' in names:
                return ok(Ref(r.a, r.p + (names.index('data'), 0)))
    raise Undecided('lock')


def thread_local(cx, r):
    """the cell behind a LocalKey (one thread: the contents start as the initialiser says and outlive the call)"""
    P = cx.I.P
    v = cx.load(r)
    while type(v) is Agg and len(v.f) == 1:
        v = v.f[0]
    if type(v) is not FnVal or v.c.get('i') is None:
        raise Undecided('thread-local key')
    todo = [v.c['i']]
    seen = set(todo)
    tls = init = None
    while todo:
        f = P.fns[todo.pop(0)]
        b = f.get('body')
        if not b:
            continue
        if f['n'].endswith('__rust_std_internal_init_fn') and init is None:
            init = f
            continue
        for bl in b['blocks']:
            for s in bl['s']:
                if s[0] == '=' and type(s[2]) is list and s[2] and s[2][0] == 'tls' and tls is None:
                    tls = s[2]
            t = bl['t']
            if t[0] == 'call' and t[1]:
                g = t[1].get('i')
                if g is not None and g >= 0 and g not in seen:
                    seen.add(g)
                    todo.append(g)
    if tls is None or len(tls) < 4 or tls[3] is None:
        raise Undecided('thread-local')
    key = ('g', ('tls', tls[1]), tls[2])
    if key not in cx.st.h:
        cx.event('static', key)
        if init is not None:
            val = cx.run(init['id'], [UNIT] * init['body']['nargs'])
        elif 'Storage<' in P.tys(tls[2]):
            raise Undecided('thread-local storage')
        else:
            P.tls[tls[1]] = {'m': tls[3]}
            val = P.global_value(key[1], tls[2])
        cx.st.h[key] = val
    return Ref(key, ())


@model('LocalKey::with', 'LocalKey::try_with')
def _tlwith(cx, args, c, f):
    m = canon(c['d']).split('::')[1]
    r = thread_local(cx, args[0])
    v = cx.apply(args[1], [r])[0]
    return ok(v) if m == 'try_with' else v


@model('LocalKey::get', 'LocalKey::set', 'LocalKey::take', 'LocalKey::replace')
def _tlcell(cx, args, c, f):
    r = thread_local(cx, args[0])
    if 'RefCell' in cx.I.P.tys(r.a[2]):
        return NA
    return _cell(cx, [r] + list(args[1:]), c, f)
