"""Models of library functions: dispatch."""
import re
from . import dd
from .dd import Node, Lin, Undecided
from .values import (Agg, Sum, UNIT, Clo, FnVal, Run, Seq, Ref, Opaque, It, Obj, same, SCALARS)

TABLE = {}
NA = object()          # "this model does not apply; try the next possibility"


def model(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


NONE = Agg(0, ())


def some(v):
    return Agg(1, (v,))


def ok(v):
    return Agg(0, (v,))


def err(v):
    return Agg(1, (v,))


def boolv(b):
    return 1 if b else 0


_canon = {}


def canon(n):
    r = _canon.get(n)
    if r is None:
        r = _canon[n] = _canon1(n)
    return r


def strip_angle(s):
    """remove ::<...> generic argument lists"""
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s.startswith('::<', i) and not s.startswith('::<impl', i):
            d = 0
            j = i + 2
            while j < n:
                if s[j] == '<':
                    d += 1
                elif s[j] == '>' and s[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            continue
        out.append(s[i])
        i += 1
    return ''.join(out)


def top_split(s):
    """split a path at top-level ::"""
    parts = []
    d = 0
    cur = ''
    i = 0
    while i < len(s):
        c = s[i]
        if c in '<([{':
            d += 1
        elif c in ')]}' or (c == '>' and s[i - 1] != '-'):
            d -= 1
        if d == 0 and s.startswith('::', i):
            parts.append(cur)
            cur = ''
            i += 2
            continue
        cur += c
        i += 1
    parts.append(cur)
    return parts


def simple(t):
    """short name of a type text"""
    t = t.strip()
    while t.startswith('&'):
        t = t[1:].strip()
        if t.startswith("'"):
            t = t.split(' ', 1)[1] if ' ' in t else t
        if t.startswith('mut '):
            t = t[4:]
    if t.startswith('['):
        return 'array' if ';' in t else 'slice'
    t = re.sub(r'<.*', '', t)
    return t.split('::')[-1]


def _canon1(n):
    n = strip_angle(n)
    parts = top_split(n)
    # <T as Trait>::method
    if parts[0].startswith('<') and ' as ' in parts[0]:
        inner = parts[0][1:-1]
        i = inner.rfind(' as ')
        tr = re.sub(r'<.*', '', inner[i + 4:])
        return '::'.join([tr.split('::')[-1]] + parts[1:])
    for i, p in enumerate(parts):
        if p.startswith('<impl '):
            inner = p[6:-1]
            m = re.search(r' for ', inner)
            if m:
                tr = re.sub(r'<.*', '', inner[:m.start()])
                return '::'.join([tr.split('::')[-1]] + parts[i + 1:])
            return '::'.join([simple(inner)] + parts[i + 1:])
    if parts[0].startswith('<'):
        return '::'.join([simple(parts[0][1:-1])] + parts[1:])
    parts = [re.sub(r'<.*', '', p) for p in parts]
    return '::'.join(parts[-2:])


class Models:
    def __init__(self, I):
        self.I = I
        self.P = I.P
        self.used = {}
        self.inlined = set()
        self.dropfns = [f['id'] for f in I.P.fns if f['c'] in I.ws and re.match(r'<.* as std::ops::Drop>::drop', f['n'])]

    def callee_fn(self, c):
        i = c.get('i')
        if i is None or i < 0:
            return None
        return self.P.fns[i]

    def call(self, cx, c, args, body, t):
        f = self.callee_fn(c)
        if c['d'].startswith('std::ops::Fn') and len(args) == 2 and type(args[1]) is Agg and type(args[0]) in (Clo, FnVal, Ref):
            return cx.apply(args[0], list(args[1].f))[0]
        if f is not None and f['c'] in self.I.ws and f['body'] is not None:
            return cx.run(f['id'], self.fix_args(f, args))
        names = [canon(c['d'])]
        if f is not None:
            r = canon(f['n'])
            if r not in names:
                names.append(r)
        for n in names:
            m = TABLE.get(n)
            if m is not None:
                v = m(cx, args, c, f)
                if v is not NA:
                    self.used[n] = self.used.get(n, 0) + 1
                    return v
        if c['d'].startswith('std::ops::Fn') and args:
            tup = args[1]
            v, _ = cx.apply(args[0], list(tup.f) if type(tup) is Agg else [tup])
            return v
        if f is not None and f['body'] is not None:
            self.inlined.add(f['n'])
            return cx.run(f['id'], self.fix_args(f, args))
        for n in names:
            if n.startswith('panicking::'):
                return TABLE['panicking::panic'](cx, args, c, f)
        raise Undecided('no model for %s' % (c['d'] if f is None else f['n']))

    def fix_args(self, f, args):
        b = f['body']
        if len(args) == b['nargs']:
            return args
        if len(args) == 2 and type(args[1]) is Agg and 1 + len(args[1].f) == b['nargs']:
            return [args[0]] + list(args[1].f)
        return args

    def drop(self, cx, body, t):
        if self.dropfns:
            gl = t[3]
            if gl is not None and gl >= 0 and self.reaches_drop(gl):
                raise Undecided('user Drop implementation')
        if not t[1][1]:
            v = cx.st.h.get(cx.base + t[1][0])
            if v is not None:
                m_io.on_drop(cx, v)
            cx.st.h.pop(cx.base + t[1][0], None)

    def reaches_drop(self, gl, seen=None):
        seen = set() if seen is None else seen
        st = [gl]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in self.dropfns:
                return True
            b = self.P.fns[x]['body']
            if b:
                for bl in b['blocks']:
                    tt = bl['t']
                    if tt[0] == 'call' and tt[1] and tt[1].get('i') is not None and tt[1]['i'] >= 0:
                        st.append(tt[1]['i'])
                    if tt[0] == 'drop' and tt[3] is not None and tt[3] >= 0:
                        st.append(tt[3])
        return False

    def ptr_offset(self, cx, a, b):
        if type(a) is Ref and a.p and type(a.p[-1]) is tuple and a.p[-1][0] == 'e':
            return Ref(a.a, a.p[:-1] + (('e', dd.add(a.p[-1][1], b)),))
        raise Undecided('pointer offset')

    # ---- helpers
    def targ(self, c, k):
        """k-th generic type argument (type id)"""
        n = 0
        for x in c['a']:
            if type(x) is int:
                if n == k:
                    return x
                n += 1
        return None

    def tname(self, t):
        return '' if t is None else self.P.tys(t)


from . import m_core, m_seq, m_str, m_iter, m_io, m_map  # noqa: E402,F401
