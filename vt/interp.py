"""Abstract interpreter over the MIR dump.

Values are the canonical forms of dd.py / values.py; a state is a memory (locals and heap), a path
condition (a decision diagram) and the list of externally visible events.  Branches partition the
state by condition; partitions meeting at the same program point (same loop iterations) are merged
again with if-then-else values.  Nothing is executed and no solver is called.
"""
import heapq
from . import dd, values
from .dd import Node, Lin, Undecided
from .values import (Agg, Sum, UNIT, Clo, FnVal, Run, Seq, Ref, Opaque, It, Obj, same, NoMerge,
                     merge_val, SCALARS)


class PanicExc(Exception):
    def __init__(self, info):
        self.info = info


class ExitExc(Exception):
    def __init__(self, code):
        self.code = code


class Infeasible(Exception):
    pass


# ---------------------------------------------------------------------- garbage
class NoGC(Exception):
    pass


PLAIN = {int, Node, Lin, type(None), str, bytes, bool, float, FnVal, Opaque}
CLEAN = {}          # id -> sequence known to hold no reference


def reach(v, acc):
    """the addresses a value mentions"""
    t = type(v)
    if t in PLAIN:
        return
    if t is Ref:
        acc.append(v.a)
        reach(v.p, acc)
        reach(v.r, acc)
    elif t is Seq:
        if id(v) in CLEAN:
            return
        n = len(acc)
        for x in v.e:
            if type(x) is not int:
                reach(x, acc)
        if len(acc) == n:
            if len(CLEAN) > 4000:
                CLEAN.clear()
            CLEAN[id(v)] = v
    elif t is Agg or t is Clo or t is It or t is Obj:
        for x in v.f:
            reach(x, acc)
    elif t is Sum:
        for f in v.alts.values():
            for x in f:
                reach(x, acc)
    elif t is tuple or t is list:
        for x in v:
            reach(x, acc)
    elif t is Run:
        reach(v.info, acc)
    else:
        raise NoGC()


def collect(h0, st, lo):
    """drop the temporaries made since the heap was h0 (addresses <= lo) which nothing mentions any more"""
    h = st.h
    acc = []
    new = []
    try:
        for k, x in h.items():
            if type(k) is int and k <= lo:
                new.append(k)
            elif h0.get(k, h0) is not x:
                reach(x, acc)
        if not new:
            return
        live = set()
        while acc:
            a = acc.pop()
            if a in live:
                continue
            live.add(a)
            if type(a) is int and a <= lo and a in h:
                reach(h[a], acc)
        for k in new:
            if k not in live:
                del h[k]
    except NoGC:
        pass


class State:
    __slots__ = ('h', 'pc', 'ev', 'nxt', 'hn')

    def __init__(self):
        self.h = {}
        self.pc = 1
        self.ev = None
        self.nxt = 0
        self.hn = -1

    def copy(self):
        s = State()
        s.h = self.h.copy()
        s.pc = self.pc
        s.ev = self.ev
        s.nxt = self.nxt
        s.hn = self.hn
        return s

    def events(self):
        out = []
        e = self.ev
        while e is not None:
            out.append(e[0])
            e = e[1]
        out.reverse()
        return out


class Out:
    """outcome of a function: kind ret | panic | exit | undec"""
    __slots__ = ('kind', 'st', 'val', 'where')

    def __init__(self, kind, st, val, where=None):
        self.kind = kind
        self.st = st
        self.val = val
        self.where = where

    def __repr__(self):
        return 'Out(%s,%r,%r)' % (self.kind, self.val, self.where)


class Limits:
    steps = 60000000
    loop = 700
    states = 4000


class long_loops:
    """with long_loops(n): loops of up to n iterations (for executions known not to branch)"""

    def __init__(self, n, seconds=400):
        self.n, self.seconds = n, seconds

    def __enter__(self):
        self.was = Limits.loop, dd.METER.seconds
        Limits.loop, dd.METER.seconds = self.n, self.seconds

    def __exit__(self, *a):
        Limits.loop, dd.METER.seconds = self.was


class Cx:
    """one linear execution with a log of choices (re-executed for every alternative)"""
    __slots__ = ('I', 'st', 'log', 'pos', 'alt', 'fn', 'base', 'line')

    def __init__(self, I, st, log, alt, fn=None, base=0):
        self.I = I
        self.st = st
        self.log = log
        self.pos = 0
        self.alt = alt
        self.fn = fn
        self.base = base
        self.line = 0

    # ---- choices
    def choose(self, options):
        """options: list; returns one, scheduling the others"""
        if self.pos < len(self.log):
            o = self.log[self.pos]
        else:
            if not options:
                raise Infeasible()
            o = options[0]
            for x in reversed(options[1:]):
                self.alt.append(self.log + [x])
            self.log.append(o)
        self.pos += 1
        return o

    def decide(self, c):
        """truth value of a condition on this path (splits the path when both are possible)"""
        if type(c) is Lin:
            c = dd.bnot(dd.eq(c, 0))
        if type(c) is int:
            return c != 0
        c = dd.restrict(c, self.st.pc)
        if type(c) is int:
            return c != 0
        if self.pos < len(self.log):
            o = self.log[self.pos]
            self.pos += 1
        else:
            opts = []
            a = dd.band(self.st.pc, c)
            if not (type(a) is int and a == 0):
                opts.append((True, a))
            b = dd.band(self.st.pc, dd.bnot(c))
            if not (type(b) is int and b == 0):
                opts.append((False, b))
            return self._take(opts)
        self.st.pc = o[1]
        return o[0]

    def _take(self, opts):
        o = self.choose(opts)
        self.st.pc = o[1]
        return o[0]

    def assume(self, c):
        p = dd.band(self.st.pc, c)
        if type(p) is int and p == 0:
            raise Infeasible()
        self.st.pc = p

    def simp(self, v):
        if type(v) is Node:
            return dd.restrict(v, self.st.pc)
        return v

    def conc(self, v, limit=64):
        """concrete integer value of a scalar on this path (splits)"""
        v = self.simp(v)
        if type(v) is int:
            return v
        if type(v) is Lin:
            lo, hi = dd.interval(v)
            if hi - lo < limit and len(v.t) == 1:
                v = self.simp(dd.expand(v.t[0][0]) if False else expand_lin(v))
                if type(v) is int:
                    return v
            else:
                raise Undecided('symbolic value %r needed concretely' % (v,))
        if self.pos < len(self.log):
            o = self.log[self.pos]
            self.pos += 1
            self.st.pc = o[1]
            return o[0]
        opts = []
        for t, c in dd.terminals(v):
            p = dd.band(self.st.pc, c)
            if type(p) is int and p == 0:
                continue
            if type(t) is not int:
                lo, hi = dd.interval(t)
                if len(t.t) == 1 and hi - lo < limit:
                    for t2, c2 in dd.terminals(expand_lin(t)):
                        p2 = dd.band(p, c2)
                        if not (type(p2) is int and p2 == 0):
                            opts.append((t2, p2))
                    continue
                raise Undecided('symbolic value %r needed concretely' % (t,))
            opts.append((t, p))
        if len(opts) > limit:
            raise Undecided('too many cases (%d)' % len(opts))
        return self._take(opts)

    def variant(self, v):
        """(variant index, payload tuple) of an enum value on this path"""
        if type(v) is Sum:
            t = self.conc(v.t)
            return t, v.alts.get(t, ())
        if type(v) is Agg:
            if type(v.v) is int:
                return v.v, v.f
            return self.conc(v.v), ()
        raise Undecided('variant of %r' % (type(v),))

    def event(self, *e):
        self.st.ev = (e, self.st.ev)

    # ---- memory
    def alloc(self, v):
        a = self.st.hn
        self.st.hn -= 1
        self.st.h[a] = v
        return a

    def tmp(self, v):
        return Ref(self.alloc(v))

    def base_val(self, a):
        if type(a) is tuple:
            if a in self.st.h:
                return self.st.h[a]
            return self.I.global_value(a)
        try:
            return self.st.h[a]
        except KeyError:
            raise Undecided('read of dead or unmerged memory')

    def get(self, a, path):
        return self.walk(self.base_val(a), path)

    def walk(self, v, path):
        i = 0
        n = len(path)
        while i < n:
            s = path[i]
            tv = type(v)
            if type(s) is int:
                if tv is Agg:
                    try:
                        v = v.f[s]
                    except IndexError:
                        raise Undecided('missing field')
                elif tv is Clo:
                    v = v.f[s]
                elif tv is Ref:
                    pass
                elif tv is Sum:
                    ks = list(v.alts)
                    if len(ks) == 1:
                        v = v.alts[ks[0]][s]
                    else:
                        raise Undecided('field of ambiguous enum')
                elif tv is Seq or tv is It or tv is Obj:
                    # internals of a library type
                    raise Undecided('internal field of %s' % tv.__name__)
                elif v is None:
                    raise Undecided('uninitialised')
                else:
                    raise Undecided('field of %s' % tv.__name__)
            elif s[0] == 'v':
                if tv is Sum:
                    if s[1] not in v.alts:
                        raise Infeasible()
                    v = Agg(s[1], v.alts[s[1]])
                elif tv is Agg and type(v.v) is int and v.v != s[1]:
                    raise Infeasible()
            elif s[0] == 'e':
                v = self.elem(v, s[1])
            elif s[0] == 'p':
                pass
            else:
                raise Undecided('projection %r' % (s,))
            i += 1
            if v is None and i < n:
                raise Undecided('uninitialised')
        return v

    def elem(self, v, idx):
        if type(v) is not Seq:
            raise Undecided('index of %s' % type(v).__name__)
        idx = self.simp(idx)
        if type(idx) is int and v.flat():
            if 0 <= idx < len(v.e):
                return v.e[idx]
            raise Undecided('index out of range in model')
        if not v.flat():
            k = self.find_elem(v, idx)
            e = v.e[k]
            if type(e) is Run:
                if e.info and e.info[0] == 'fill':
                    return e.info[1]
                raise Undecided('element of opaque run')
            return e
        # symbolic index into a flat sequence
        n = len(v.e)
        if n <= 64:
            try:
                out = v.e[n - 1]
                for j in range(n - 2, -1, -1):
                    c = dd.restrict(dd.eq(idx, j), self.st.pc)
                    if type(c) is int and c == 0:
                        continue
                    out = merge_val(c, v.e[j], out)
                return out
            except NoMerge:
                pass
        return v.e[self.conc(idx)]

    def find_elem(self, v, idx):
        """position in v.e of the element with symbolic index idx"""
        off = 0
        for k, e in enumerate(v.e):
            if type(e) is Run:
                nxt = dd.add(off, e.len)
                if self.decide(dd.bnot(dd.le(off, idx))):
                    break
                if self.decide(dd.lt(idx, nxt)):
                    return k
                off = nxt
            else:
                if self.decide(dd.eq(off, idx)):
                    return k
                off = dd.add(off, 1)
        raise Undecided('index not found')

    def put(self, a, path, val):
        if type(a) is tuple:
            # a static: its contents outlive the call (the event keeps executions with different writes apart)
            self.event('static', a)
            if a not in self.st.h:
                self.st.h[a] = self.I.global_value(a)
        if not path:
            self.st.h[a] = val
            return
        self.st.h[a] = self.upd(self.st.h.get(a), path, 0, val)

    def upd(self, v, path, i, val):
        if i == len(path):
            return val
        s = path[i]
        tv = type(v)
        if type(s) is int:
            if v is None:
                f = [None] * (s + 1)
                f[s] = self.upd(None, path, i + 1, val)
                return Agg(0, tuple(f))
            if tv is Agg:
                f = list(v.f)
                while len(f) <= s:
                    f.append(None)
                f[s] = self.upd(f[s], path, i + 1, val)
                return Agg(v.v, tuple(f))
            if tv is Clo:
                f = list(v.f)
                f[s] = self.upd(f[s], path, i + 1, val)
                return Clo(v.ty, v.fn, tuple(f))
            raise Undecided('field write into %s' % tv.__name__)
        if s[0] == 'v':
            if v is None:
                r = self.upd(Agg(s[1], ()), path, i + 1, val)
                return r
            if tv is Sum:
                if s[1] not in v.alts:
                    raise Infeasible()
                r = self.upd(Agg(s[1], v.alts[s[1]]), path, i + 1, val)
                d = dict(v.alts)
                d[s[1]] = r.f
                return Sum(v.t, d)
            return self.upd(v, path, i + 1, val)
        if s[0] == 'e':
            if tv is not Seq:
                raise Undecided('element write')
            idx = self.simp(s[1])
            if type(idx) is not int and v.flat() and len(v.e) <= 64 and i + 1 == len(path):
                try:
                    return Seq(tuple(merge_val(dd.eq(idx, j), val, x) for j, x in enumerate(v.e)))
                except NoMerge:
                    idx = self.conc(idx)
            if not v.flat():
                k = self.find_elem(v, idx)
                if type(v.e[k]) is Run:
                    raise Undecided('write into opaque run')
            else:
                k = self.conc(idx)
            if k >= len(v.e):
                raise Undecided('element write out of range')
            return Seq(v.e[:k] + (self.upd(v.e[k], path, i + 1, val),) + v.e[k + 1:])
        if s[0] == 'p':
            return self.upd(v, path, i + 1, val)
        raise Undecided('write projection %r' % (s,))

    # ---- slices
    def load(self, r):
        """value behind a reference"""
        if type(r) is not Ref:
            raise Undecided('deref of %s' % type(r).__name__)
        v = self.get(r.a, r.p)
        if r.r is not None:
            return Seq(self.cut(v, r.r[0], r.r[1]))
        return v

    def store(self, r, val):
        if type(r) is not Ref:
            raise Undecided('store through %s' % type(r).__name__)
        if r.r is not None:
            v = self.get(r.a, r.p)
            st, ln = r.r
            pre = self.cut(v, 0, st)
            tot = seqlen(v)
            end = dd.add(st, ln)
            post = self.cut(v, end, dd.sub(tot, end))
            self.put(r.a, r.p, Seq(pre + val.e + post))
            return
        self.put(r.a, r.p, val)

    def cut(self, v, st, ln):
        """elements [st, st+ln) of a sequence value"""
        if type(v) is not Seq:
            raise Undecided('slice of %s' % type(v).__name__)
        st = self.simp(st)
        ln = self.simp(ln)
        if v.flat():
            if type(st) is not int:
                st = self.conc(st)
            if type(ln) is not int:
                ln = self.conc(ln)
            if st == 0 and ln == len(v.e):
                return v.e
            if st + ln > len(v.e):
                raise Undecided('slice model out of range')
            return v.e[st:st + ln]
        if type(st) is int and st == 0 and same(ln, seqlen(v)):
            return v.e
        end = dd.add(st, ln)
        k = self.split_at(v.e, st)
        rest = k[1]
        m = self.split_at(rest, ln)
        return m[0]

    def split_at(self, e, pos):
        """split an element tuple at a symbolic position"""
        off = 0
        for k, x in enumerate(e):
            if same(off, pos):
                return e[:k], e[k:]
            n = x.len if type(x) is Run else 1
            nxt = dd.add(off, n)
            if type(x) is Run and not same(nxt, pos):
                if self.decide(dd.eq(off, pos)):
                    return e[:k], e[k:]
                if not self.decide(dd.le(nxt, pos)):
                    d = self.simp(dd.sub(pos, off))
                    a = Run(x.name, d, x.byte, x.cls, x.off, x.info)
                    b = Run(x.name, dd.sub(x.len, d), x.byte, x.cls, dd.add(x.off, d), x.info)
                    return e[:k] + (a,), (b,) + e[k + 1:]
            elif type(x) is not Run and type(off) is not int and not same(nxt, pos):
                if self.decide(dd.eq(off, pos)):
                    return e[:k], e[k:]
            elif type(x) is not Run and type(pos) is not int:
                if self.decide(dd.eq(off, pos)):
                    return e[:k], e[k:]
            off = nxt
        if same(off, pos) or self.decide(dd.eq(off, pos)):
            return e, ()
        raise Undecided('split position beyond end')

    def deref(self, v):
        """strip references until a non-reference (slices are loaded)"""
        while type(v) is Ref:
            v = self.load(v)
        return v

    def call(self, c, args):
        """call a callee record; returns the value on the chosen path"""
        outs = None
        if self.pos < len(self.log):
            o = self.choose(None)
        else:
            outs = self.I.call_outs(self, c, args)
            if outs is None:
                raise Undecided('no body and no model for ' + c['d'])
            o = self.choose(outs)
        return self.adopt(o)

    def run(self, fid, args):
        if self.pos < len(self.log):
            o = self.choose(None)
        else:
            o = self.choose(self.I.run_fn(self.st, fid, args))
        return self.adopt(o)

    def adopt(self, o):
        s = o.st.copy()
        s.nxt = self.st.nxt
        self.st = s
        if o.kind == 'ret':
            return o.val
        if o.kind == 'panic':
            raise PanicExc((o.val, o.where))
        if o.kind == 'exit':
            raise ExitExc((o.val, o.where))
        raise UndecOut(o.val, o.where)

    def apply(self, f, args):
        """call a closure / function value with untupled args; returns (value, f')"""
        if type(f) is Ref:
            v = self.load(f)
            if type(v) is Clo:
                return self.apply_clo(v, f, args), f
            return self.apply(v, args)
        if type(f) is Clo:
            if f.fn is None or f.fn < 0:
                raise Undecided('closure without body')
            if not f.f and len(args) == 1:
                # without captures: a function of its argument, evaluated once for each definite scalar
                x = args[0]
                while type(x) is Ref and x.r is None and x.vt is None:
                    x = self.load(x)
                if type(x) is int:
                    return self.pure(f, args, x), f
            fn = self.I.P.fns[f.fn]
            selfty = fn['body']['locals'][1]
            if self.I.P.kind(selfty) in ('ref', 'ptr'):
                r = self.tmp(f)
                v = self.run(f.fn, [r] + list(args))
                nf = self.st.h.pop(r.a, f)
                return v, nf
            return self.run(f.fn, [f] + list(args)), f
        if type(f) is FnVal:
            return self.call(f.c, list(args)), f
        raise Undecided('call of %s' % type(f).__name__)

    def pure(self, f, args, x):
        key = (f.fn, x)
        if self.pos < len(self.log):
            o = self.log[self.pos]
            if type(o) is Known:
                self.pos += 1
                return o.val
        else:
            o = self.I.known.get(key)
            if o is not None:
                self.log.append(o)
                self.pos += 1
                return o.val
        selfty = self.I.P.fns[f.fn]['body']['locals'][1]
        a = self.tmp(f) if self.I.P.kind(selfty) in ('ref', 'ptr') else f
        was = self.st
        if self.pos < len(self.log):
            o = self.choose(None)
        else:
            outs = self.I.run_fn(self.st, f.fn, [a] + list(args))
            o = self.choose(outs)
            if len(outs) == 1 and o.kind == 'ret' and type(o.val) is int and o.st.pc is was.pc and o.st.ev is was.ev and o.st.h.keys() == was.h.keys() and all(
                    o.st.h[k] is v for k, v in was.h.items()):
                self.I.known[key] = Known(o.val)
        v = self.adopt(o)
        if type(a) is Ref:
            self.st.h.pop(a.a, None)
        return v

    def apply_clo(self, clo, r, args):
        fn = self.I.P.fns[clo.fn]
        selfty = fn['body']['locals'][1]
        if self.I.P.kind(selfty) in ('ref', 'ptr'):
            return self.run(clo.fn, [r] + list(args))
        return self.run(clo.fn, [clo] + list(args))


class Known:
    """the result of a closure without captures on a definite scalar"""
    __slots__ = ('val',)

    def __init__(self, val):
        self.val = val


class UndecOut(Exception):
    def __init__(self, why, where):
        self.why = why
        self.where = where


def expand_lin(v):
    """a one-atom linear form with a small range as a diagram of constants"""
    (a, k), = v.t
    e = dd.expand(a)
    return dd.add(dd.scale(e, k), v.c)


def seqlen(v):
    if type(v) is not Seq:
        raise Undecided('length of %s' % type(v).__name__)
    if v.flat():
        return len(v.e)
    n = 0
    for e in v.e:
        n = dd.add(n, e.len if type(e) is Run else 1)
    return n


class FnInfo:
    __slots__ = ('rpo', 'chain', 'live', 'succ', 'addr')


class Interp:
    def __init__(self, prog, models=None, ws=('at_asm', 'at_obj', 'at_mac', 'at_x64', 'vprobe')):
        self.known = {}
        self.P = prog
        self.ws = set(ws)
        self.info = {}
        self.gcache = {}
        self.steps = 0
        self.fault = False
        self.visited = set()      # workspace functions analysed
        self.calls = 0
        self.states = 0
        self.merges = 0
        self.sites = set()
        if models is None:
            from . import models as m
            models = m
        self.M = models.Models(self)
        self.depth = 0

    def cursor_grow(self, cx, r):
        """is this reference (inside a Cursor) to a Vec (which grows) rather than an array?"""
        return True

    def global_value(self, key):
        v = self.gcache.get(key)
        if v is None:
            v = self.P.global_value(key[1], key[2])
            self.gcache[key] = v
        return v

    # ---------------------------------------------------------------- function structure
    def fninfo(self, fid):
        r = self.info.get(fid)
        if r is not None:
            return r
        body = self.P.fns[fid]['body']
        bl = body['blocks']
        n = len(bl)
        succ = [succs(b['t']) for b in bl]
        # reverse postorder
        order = []
        seen = [0] * n
        stack = [(0, iter(succ[0]))]
        seen[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if not seen[v]:
                    seen[v] = 1
                    stack.append((v, iter(succ[v])))
                    break
            else:
                order.append(u)
                stack.pop()
        order.reverse()
        rpo = {u: i for i, u in enumerate(order)}
        pred = {u: [] for u in order}
        for u in order:
            for v in succ[u]:
                pred[v].append(u)
        # dominators
        idom = {order[0]: order[0]}
        ch = True
        while ch:
            ch = False
            for u in order[1:]:
                new = None
                for p in pred[u]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, b = p, new
                            while a != b:
                                while rpo[a] > rpo[b]:
                                    a = idom[a]
                                while rpo[b] > rpo[a]:
                                    b = idom[b]
                            new = a
                if idom.get(u) != new:
                    idom[u] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == idom[b]:
                    return False
                b = idom[b]
        loops = {}
        for u in order:
            for v in succ[u]:
                if dom(v, u):
                    bodyset = loops.setdefault(v, {v})
                    st = [u]
                    while st:
                        x = st.pop()
                        if x not in bodyset:
                            bodyset.add(x)
                            st.extend(pred[x])
        chain = {}
        for u in order:
            hs = [h for h in loops if u in loops[h]]
            hs.sort(key=lambda h: rpo[h])
            chain[u] = hs
        r = FnInfo()
        r.rpo = rpo
        r.chain = chain
        r.succ = succ
        r.live, r.addr = liveness(body, succ, order)
        self.info[fid] = r
        return r

    def key(self, info, v, u=None, ku=None):
        """ordering key of block v reached from u whose key was ku"""
        ch = info.chain[v]
        out = []
        its = {}
        uch = ()
        if u is not None:
            uch = info.chain[u]
            for i, h in enumerate(uch):
                its[h] = ku[2 * i + 1]
        for h in ch:
            if h in its:
                it = its[h] + (1 if v == h else 0)
            else:
                it = 0
            if it > Limits.loop:
                raise Undecided('loop not bounded within %d iterations' % Limits.loop)
            out.append(info.rpo[h])
            out.append(it)
        out.append(info.rpo[v])
        return tuple(out)

    # ---------------------------------------------------------------- running
    def run_fn(self, st, fid, args):
        fn = self.P.fns[fid]
        body = fn['body']
        if body is None:
            raise Undecided('no body for ' + fn['n'])
        if fn['c'] in self.ws:
            self.visited.add(fid)
        self.calls += 1
        self.depth += 1
        if self.depth > 120:
            self.depth -= 1
            raise Undecided('call depth')
        try:
            return self._run(st, fn, fid, body, args)
        finally:
            self.depth -= 1

    def _run(self, st, fn, fid, body, args):
        info = self.fninfo(fid)
        nl = len(body['locals'])
        base = st.nxt
        s0 = st.copy()
        s0.nxt = base + nl
        for i in range(nl):
            s0.h.pop(base + i, None)
        args = list(args)
        if body['spread'] is not None and body['spread'] >= 0 and len(args) == 2 and body['nargs'] != 2:
            args = [args[0]] + list(args[1].f)
        if len(args) != body['nargs']:
            raise Undecided('arity mismatch calling ' + fn['n'])
        for i, a in enumerate(args):
            s0.h[base + 1 + i] = a
        pending = {}
        heap = []
        outs = []
        k0 = self.key(info, 0)
        pending[k0] = (0, [s0])
        heap.append(k0)
        while heap:
            k = heapq.heappop(heap)
            b, sts = pending.pop(k)
            if len(sts) > 1:
                sts = self.merge_states(sts, info.live.get(b), base, nl, info.addr)
            for s in sts:
                for r in self.exec_block(s, fn, body, b, base):
                    if r[0] == 'goto':
                        tgt = r[2]
                        try:
                            kk = self.key(info, tgt, b, k)
                        except Undecided as e:
                            outs.append(Out('undec', r[1], str(e), self.where(fn, 0)))
                            continue
                        p = pending.get(kk)
                        if p is None:
                            pending[kk] = (tgt, [r[1]])
                            heapq.heappush(heap, kk)
                        else:
                            p[1].append(r[1])
                    elif r[0] == 'ret':
                        s2 = r[1]
                        v = s2.h.get(base, UNIT if self.P.ty(body['locals'][0]).get('size') == 0 else None)
                        if v is UNIT:
                            v = self.P.zst(body['locals'][0])
                        s2.nxt = base
                        for i in range(nl):
                            s2.h.pop(base + i, None)
                        if s2.hn < st.hn:
                            s2.h[base] = v
                            collect(st.h, s2, st.hn)
                            del s2.h[base]
                        outs.append(Out('ret', s2, v))
                    else:
                        outs.append(r[1])
        return self.merge_outs(outs)

    def where(self, fn, line):
        sp = fn.get('sp')
        return '%s (%s:%s)' % (fn['n'], sp[0] if sp else '?', line or (sp[1] if sp else 0))

    def merge_outs(self, outs):
        res = [o for o in outs if o.kind != 'ret']
        acc = []
        for o in outs:
            if o.kind != 'ret':
                continue
            done = False
            for i, a in enumerate(acc):
                m = self.try_merge(a.st, o.st, a.val, o.val)
                if m is not None:
                    acc[i] = Out('ret', m[0], m[1])
                    done = True
                    break
            if not done:
                acc.append(o)
        return acc + res

    def merge_states(self, sts, live, base, nl, addr):
        if live is not None:
            for s in sts:
                for i in range(nl):
                    if i not in live and i not in addr:
                        s.h.pop(base + i, None)
        acc = []
        for s in sts:
            for i, a in enumerate(acc):
                m = self.try_merge(a, s)
                if m is not None:
                    acc[i] = m[0]
                    break
            else:
                acc.append(s)
        if len(acc) > Limits.states:
            raise Undecided('too many partitions')
        return acc

    def try_merge(self, a, b, va=None, vb=None):
        if a.ev is not b.ev and a.events() != b.events():
            return None
        pc = dd.bor(a.pc, b.pc)
        g = dd.restrict(a.pc, pc)
        s = State()
        s.pc = pc
        s.ev = a.ev
        s.nxt = a.nxt
        s.hn = min(a.hn, b.hn)
        h = {}
        bh = b.h
        values.CARE[0] = (a.pc, b.pc)
        try:
            if va is not None or vb is not None:
                v = va if va is vb else merge_val(g, va, vb)
            else:
                v = None
            for k, x in a.h.items():
                y = bh.get(k, bh)
                if y is bh:
                    continue
                if x is y:
                    h[k] = x
                elif x is None or y is None:
                    continue
                else:
                    h[k] = merge_val(g, x, y)
        except NoMerge:
            return None
        finally:
            values.CARE[0] = None
        s.h = h
        self.merges += 1
        return s, v

    def exec_block(self, st, fn, body, b, base):
        blk = body['blocks'][b]
        work = [[]]
        res = []
        self.states += 1
        while work:
            log = work.pop()
            cx = Cx(self, st.copy(), log, work, fn, base)
            self.steps += 1
            if self.steps > Limits.steps:
                raise Undecided('step budget')
            if not self.steps & 255 or dd.METER.over:
                dd.METER.look()
            try:
                for s in blk['s']:
                    self.stmt(cx, body, s)
                r = self.term(cx, body, blk['t'])
                if r is not None:
                    if cx.st.hn < st.hn:
                        collect(st.h, cx.st, st.hn)
                    res.append((r[0], cx.st) + tuple(r[1:]))
            except Infeasible:
                pass
            except PanicExc as e:
                w = e.info[1] or self.where(fn, cx.line)
                res.append(('x', Out('panic', cx.st, e.info[0], w)))
            except ExitExc as e:
                res.append(('x', Out('exit', cx.st, e.code[0], e.code[1] or self.where(fn, cx.line))))
            except UndecOut as e:
                res.append(('x', Out('undec', cx.st, e.why, e.where)))
            except Undecided as e:
                res.append(('x', Out('undec', cx.st, str(e), self.where(fn, cx.line))))
        return res

    # ---------------------------------------------------------------- statements
    def stmt(self, cx, body, s):
        k = s[0]
        if k == '=':
            cx.line = s[3]
            v = self.rvalue(cx, body, s[2], s[1])
            self.assign(cx, s[1], v)
        elif k == 'sx':
            cx.st.h.pop(cx.base + s[1], None)
        elif k == 'sl':
            cx.st.h.pop(cx.base + s[1], None)
        elif k == 'sd':
            a, p, r = self.place(cx, s[1])
            try:
                old = cx.get(a, p)
            except Undecided:
                old = None
            if type(old) is Agg:
                cx.put(a, p, Agg(s[2], old.f))
            else:
                cx.put(a, p, Agg(s[2], ()))
        elif k == 'cno':
            self.copy_elems(cx, self.operand(cx, s[1]), self.operand(cx, s[2]), self.operand(cx, s[3]))

    def copy_elems(self, cx, src, dst, n):
        for r in (src, dst):
            if type(r) is not Ref or r.vt is not None or not r.p or type(r.p[-1]) is not tuple or r.p[-1][0] != 'e':
                raise Undecided('copy_nonoverlapping')
        a = Ref(src.a, src.p[:-1], (src.p[-1][1], n))
        b = Ref(dst.a, dst.p[:-1], (dst.p[-1][1], n))
        cx.store(b, cx.load(a))

    def assign(self, cx, place, v):
        if not place[1]:
            cx.st.h[cx.base + place[0]] = v
            return
        a, p, r = self.place(cx, place)
        if r is not None:
            raise Undecided('assignment to unsized place')
        cx.put(a, p, v)

    def place(self, cx, place):
        """(alloc, path, range)"""
        a = cx.base + place[0]
        p = ()
        r = None
        for pr in place[1]:
            k = pr[0]
            if k == '*':
                v = cx.get(a, p)
                if r is not None:
                    raise Undecided('deref of slice place')
                if type(v) is not Ref:
                    raise Undecided('deref of %s' % type(v).__name__)
                a, p, r = v.a, v.p, v.r
            elif k == 'f':
                if r is not None:
                    raise Undecided('field of slice')
                v = None
                p = p + (pr[1],)
            elif k == 'v':
                p = p + (('v', pr[1]),)
            elif k == 'i':
                idx = cx.simp(cx.base_val(cx.base + pr[1]))
                if r is not None:
                    idx = cx.simp(dd.add(r[0], idx))
                    r = None
                p = p + (('e', idx),)
            elif k == 'c':
                off, mn, fe = pr[1], pr[2], pr[3]
                if r is not None:
                    idx = dd.add(r[0], off) if not fe else dd.sub(dd.add(r[0], r[1]), off)
                    r = None
                else:
                    idx = off if not fe else dd.sub(seqlen(cx.get(a, p)), off)
                p = p + (('e', cx.simp(idx)),)
            elif k == 's':
                frm, to, fe = pr[1], pr[2], pr[3]
                if r is None:
                    r = (0, seqlen(cx.get(a, p)))
                if fe:
                    r = (dd.add(r[0], frm), dd.sub(dd.sub(r[1], frm), to))
                else:
                    r = (dd.add(r[0], frm), to - frm)
            elif k == 'o':
                pass
            else:
                raise Undecided('projection ' + k)
        return a, p, r

    def read(self, cx, place):
        base = cx.base
        if not place[1]:
            try:
                v = cx.st.h[base + place[0]]
            except KeyError:
                raise Undecided('read of uninitialised local')
        else:
            a, p, r = self.place(cx, place)
            v = cx.get(a, p)
            if r is not None:
                v = Seq(cx.cut(v, r[0], r[1]))
        if type(v) is Node:
            return dd.restrict(v, cx.st.pc)
        if v is None:
            raise Undecided('uninitialised value')
        return v

    def operand(self, cx, o):
        k = o[0]
        if k == 'cp':
            return self.read(cx, o[1])
        if k == 'mv':
            v = self.read(cx, o[1])
            if not o[1][1]:
                cx.st.h.pop(cx.base + o[1][0], None)
            return v
        if k == 'k':
            return self.P.const(o[1], o[2])
        if k == 'z':
            return self.P.zst(o[1])
        if k == 'rc':
            # runtime check flags (ub_checks etc.): off
            return 0
        raise Undecided('operand %r' % (o[:1],))

    def operand_ty(self, body, o):
        if o[0] in ('cp', 'mv'):
            return self.place_ty(body, o[1])
        if o[0] in ('k', 'z', '?'):
            return o[1]
        return None

    def place_ty(self, body, place):
        t = body['locals'][place[0]]
        P = self.P
        var = None
        for pr in place[1]:
            k = pr[0]
            if k == '*':
                t = P.pointee(t)
            elif k == 'f':
                t = pr[2]
            elif k in ('i', 'c'):
                t = P.ty(t)['e']
            elif k == 'o':
                t = pr[1]
            if t is None:
                return None
        return t

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, cx, body, rv, dest):
        k = rv[0]
        if k == 'use':
            return self.operand(cx, rv[1])
        if k == 'tls':
            if len(rv) < 4 or rv[3] is None:
                raise Undecided('thread-local')
            self.P.tls[rv[1]] = {'m': rv[3]}
            return Ref(('g', ('tls', rv[1]), rv[2]), ())
        if k in ('ref', 'addr'):
            a, p, r = self.place(cx, rv[2])
            if p and p[-1] and type(p[-1]) is int:
                # a field of a library object that holds a reference
                pass
            if r is None:
                # reborrow of `*x` where x points to an unsized place keeps the range
                pass
            return Ref(a, p, r)
        if k == 'bin':
            return self.binop(cx, body, rv[1], rv[2], rv[3], False)
        if k == 'cbin':
            return self.binop(cx, body, rv[1], rv[2], rv[3], True)
        if k == 'un':
            return self.unop(cx, body, rv[1], rv[2])
        if k == 'cast':
            return self.cast(cx, body, rv[1], rv[2], rv[3])
        if k == 'agg':
            ak = rv[1]
            ops = tuple(self.operand(cx, o) for o in rv[2])
            if ak[0] == 'tuple':
                return Agg(0, ops)
            if ak[0] == 'array':
                return Seq(ops)
            if ak[0] == 'adt':
                if ak[3] is not None and ak[3] >= 0 and self.P.ty(ak[1]).get('ak') == 'union':
                    return ops[0]
                return Agg(ak[2], ops)
            if ak[0] == 'closure':
                ty = self.P.ty(ak[1])
                return Clo(ak[1], ty['fn'], ops)
            if ak[0] == 'rawptr':
                d, m = ops
                if type(d) is Ref:
                    if type(m) in SCALARS:
                        start = 0
                        p = d.p
                        if p and type(p[-1]) is tuple and p[-1][0] == 'e':
                            start = p[-1][1]
                            p = p[:-1]
                        elif d.r is not None:
                            start = d.r[0]
                        return Ref(d.a, p, (start, m))
                    return d
            raise Undecided('aggregate %r' % (ak[0],))
        if k == 'discr':
            t = self.place_ty(body, rv[1])
            v = self.read(cx, rv[1])
            return self.discriminant(cx, v, t)
        if k == 'len':
            a, p, r = self.place(cx, rv[1])
            if r is not None:
                return r[1]
            return seqlen(cx.get(a, p))
        if k == 'repeat':
            v = self.operand(cx, rv[1])
            n = rv[2]
            if type(n) is not int:
                raise Undecided('repeat count')
            if n > 65536:
                return Seq((fill(v, n),)) if type(v) is int else Seq((v,) * n)
            return Seq((v,) * n)
        raise Undecided('rvalue ' + k)

    def discriminant(self, cx, v, t):
        ds = self.P.discr(t) if t is not None else None
        if type(v) is Agg:
            x = v.v
        elif type(v) is Sum:
            x = v.t
        elif type(v) is Ref or type(v) in SCALARS:
            raise Undecided('discriminant of %s' % type(v).__name__)
        else:
            raise Undecided('discriminant of %s' % type(v).__name__)
        x = cx.simp(x)
        if ds is None:
            return x
        if type(x) is int:
            return ds[x]
        if all(d == i for i, d in enumerate(ds)):
            return x
        if type(x) is Lin:
            x = expand_lin(x)
        return dd.apply1(('discr', t), lambda i: ds[i] if 0 <= i < len(ds) else 0, x)

    def binop(self, cx, body, op, oa, ob, checked):
        a = self.operand(cx, oa)
        b = self.operand(cx, ob)
        ta = self.operand_ty(body, oa)
        return self.arith(cx, op, a, b, ta, checked)

    def arith(self, cx, op, a, b, ta, checked=False):
        if op == 'Offset':
            return self.M.ptr_offset(cx, a, b)
        if type(a) not in SCALARS or type(b) not in SCALARS:
            if op in ('Eq', 'Ne') and type(a) is Ref and type(b) is Ref:
                if a == b:
                    return 1 if op == 'Eq' else 0
                raise Undecided('pointer comparison')
            if op == 'BitAnd' and type(a) is Ref and type(b) is int:
                return 0            # references are aligned
            if op in ('Eq', 'Ne') and (type(a) is Ref or type(b) is Ref) and (same(a, 0) or same(b, 0)):
                return 0 if op == 'Eq' else 1
            if op in ('Eq', 'Ne') and type(a) is Agg and type(b) is Agg and a == UNIT and b == UNIT:
                return 1 if op == 'Eq' else 0
            raise Undecided('arithmetic on %s/%s' % (type(a).__name__, type(b).__name__))
        ii = self.P.intinfo(ta) if ta is not None else None
        w, sg = ii if ii else (64, False)
        if op == 'Eq':
            return dd.eq(a, b)
        if op == 'Ne':
            return dd.bnot(dd.eq(a, b))
        if op == 'Lt':
            return dd.lt(a, b)
        if op == 'Le':
            return dd.le(a, b)
        if op == 'Gt':
            return dd.lt(b, a)
        if op == 'Ge':
            return dd.le(b, a)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            f = {'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'xor'}[op]
            if w == 1:
                return dd.band(a, b) if f == 'and' else dd.bor(a, b) if f == 'or' else dd.bxor(a, b)
            return dd.bitop(f, a, b, w, sg)
        op0 = op.replace('Unchecked', '')
        if op0 in ('Add', 'Sub', 'Mul'):
            r = dd.add(a, b) if op0 == 'Add' else dd.sub(a, b) if op0 == 'Sub' else dd.mul(a, b)
            if checked:
                return Agg(0, (r, overflow(r, w, sg)))
            return dd.wrap(r, w, sg)
        if op0 in ('Shl', 'Shr'):
            k = cx.conc(b)
            if checked:
                ov = 1 if not (0 <= k < w) else 0
                k &= w - 1
                r = dd.shl(a, k, w, sg) if op0 == 'Shl' else dd.shr(a, k, w, sg)
                return Agg(0, (r, ov))
            k &= w - 1
            return dd.shl(a, k, w, sg) if op0 == 'Shl' else dd.shr(a, k, w, sg)
        if op in ('Div', 'Rem'):
            m = cx.conc(b)
            if m == 0:
                raise Undecided('division by zero')
            a = cx.simp(a)
            if type(a) is int:
                q = abs(a) // abs(m)
                if (a < 0) != (m < 0):
                    q = -q
                return q if op == 'Div' else a - q * m
            if dd.interval(a)[0] < 0 or m < 0:
                raise Undecided('signed division')
            return dd.div(a, m) if op == 'Div' else dd.rem(a, m)
        if op == 'Cmp':
            lt = dd.lt(a, b)
            eq = dd.eq(a, b)
            return Agg(dd.ite(lt, 0, dd.ite(eq, 1, 2)), ())
        raise Undecided('operator ' + op)

    def unop(self, cx, body, op, o):
        a = self.operand(cx, o)
        t = self.operand_ty(body, o)
        if op == 'Not':
            w, sg = self.P.intinfo(t)
            if w == 1:
                return dd.bnot(a)
            return dd.inv(a, w, sg)
        if op == 'Neg':
            w, sg = self.P.intinfo(t)
            return dd.wrap(dd.sub(0, a), w, sg)
        if op == 'PtrMetadata':
            if type(a) is Ref:
                if a.r is not None:
                    return a.r[1]
                return UNIT
        raise Undecided('unary ' + op)

    def cast(self, cx, body, kind, o, ty):
        v = self.operand(cx, o)
        P = self.P
        if kind == 'IntToInt':
            t0 = self.operand_ty(body, o)
            if type(v) is Agg and not v.f:          # fieldless enum
                v = self.discriminant(cx, v, t0)
            w, sg = P.intinfo(ty)
            return dd.wrap(v, w, sg)
        if kind.startswith('PointerCoercion(Unsize'):
            return self.unsize(cx, v, self.operand_ty(body, o), ty)
        if kind.startswith('PointerCoercion(ReifyFnPointer') or kind.startswith('PointerCoercion(ClosureFnPointer') or kind.startswith('PointerCoercion(UnsafeFnPointer'):
            return v
        if kind in ('PtrToPtr', 'PointerCoercion(MutToConstPointer)', 'FnPtrToPtr'):
            if type(v) is Ref and v.p and type(v.p[-1]) is tuple and v.p[-1][0] == 'e':
                t0 = P.pointee(self.operand_ty(body, o))
                t1 = P.pointee(ty)
                i0 = P.intinfo(t0) if t0 is not None else None
                i1 = P.intinfo(t1) if t1 is not None else None
                if i0 != i1 and not (i0 and i1 and i0[0] == i1[0]):
                    raise Undecided('pointer cast between element types')
            if type(v) is Ref and v.r is not None:
                k = P.kind(P.pointee(ty)) if P.pointee(ty) is not None else None
                if k not in ('slice', 'str'):
                    return Ref(v.a, v.p + (('e', v.r[0]),))
            return v
        if kind in ('Transmute', 'BoxDerefTransmute'):
            if type(v) is Ref or type(v) is FnVal:
                return v
            t0 = self.operand_ty(body, o)
            i0 = P.intinfo(t0) if t0 is not None else None
            i1 = P.intinfo(ty)
            if i0 and i1 and type(v) in SCALARS:
                return dd.wrap(v, *i1)
            if i1 and type(v) is Agg and not v.f:
                return dd.wrap(self.discriminant(cx, v, t0), *i1)
            k0 = P.ty(t0) if t0 is not None else {}
            k1 = P.ty(ty)
            if type(v) is Seq and i1 and v.flat():
                r = 0
                for i, e in enumerate(v.e):
                    r = dd.add(r, dd.scale(e, 1 << (8 * i)))
                return dd.wrap(join_bytes(v.e), *i1)
            if k1['k'] == 'array' and i0 and type(v) in SCALARS:
                return Seq(split_bytes(v, k1['size']))
            if type(v) is Seq or (type(v) is Agg and k1['k'] == k0.get('k')):
                return v
            raise Undecided('transmute %s to %s' % (k0.get('s'), k1['s']))
        if kind in ('PointerExposeAddress', 'PointerExposeProvenance'):
            from .m_map import nondet
            w, sg = P.intinfo(ty)
            return dd.wrap(nondet(cx, 'an address', 64), w, sg)
        raise Undecided('cast ' + kind)

    def unsize(self, cx, v, t0, ty):
        P = self.P
        if type(v) is not Ref:
            raise Undecided('unsize of %s' % type(v).__name__)
        pt = P.pointee(t0)
        pn = P.pointee(ty)
        if pt is not None and P.kind(pt) == 'array':
            return Ref(v.a, v.p, (0, P.ty(pt)['n']))
        if pn is not None and P.kind(pn) == 'dyn':
            return Ref(v.a, v.p, v.r, pt if v.vt is None else v.vt)
        if v.r is not None or v.vt is not None:
            return v
        raise Undecided('unsize')

    # ---------------------------------------------------------------- terminators
    def term(self, cx, body, t):
        k = t[0]
        if k == 'goto':
            return ('goto', t[1])
        if k == 'ret':
            return ('ret',)
        if k == 'switch':
            cx.line = t[4]
            v = cx.simp(self.operand(cx, t[1]))
            if type(v) is int:
                ty = self.operand_ty(body, t[1])
                for x, b in t[2]:
                    if self.sameint(v, x, ty):
                        return ('goto', b)
                return ('goto', t[3])
            if cx.pos < len(cx.log):
                o = cx.choose(None)
                cx.st.pc = o[1]
                return ('goto', o[0])
            ty = self.operand_ty(body, t[1])
            ii = self.P.intinfo(ty)
            by = {}
            rest = cx.st.pc
            for x, b in t[2]:
                if ii and ii[1] and x >> (ii[0] - 1):
                    x -= 1 << ii[0]
                c = dd.band(rest, dd.eq(v, x))
                rest = dd.band(rest, dd.bnot(c))
                by[b] = dd.bor(by.get(b, 0), c)
            by[t[3]] = dd.bor(by.get(t[3], 0), rest)
            opts = [(b, c) for b, c in by.items() if not (type(c) is int and c == 0)]
            o = cx.choose(opts)
            cx.st.pc = o[1]
            return ('goto', o[0])
        if k == 'assert':
            cx.line = t[5]
            c = self.operand(cx, t[1])
            if not t[2]:
                c = dd.bnot(c)
            if cx.decide(c):
                return ('goto', t[4])
            raise PanicExc((t[3], None))
        if k == 'drop':
            self.M.drop(cx, body, t)
            return ('goto', t[2])
        if k == 'call':
            cx.line = t[6] if len(t) > 6 else 0
            callee = t[1]
            args = [self.operand(cx, a) for a in t[3]]
            if callee is None:
                f = self.operand(cx, t[2])
                v, _ = cx.apply(f, args)
            else:
                v = self.M.call(cx, callee, args, body, t)
            if t[5] is None or t[5] < 0:
                raise Undecided('return from diverging call ' + str(callee and callee['d']))
            self.assign(cx, t[4], v)
            return ('goto', t[5])
        if k == 'unreachable':
            raise Infeasible()
        if k in ('resume', 'abort'):
            raise PanicExc((k, None))
        raise Undecided('terminator ' + k)

    def sameint(self, v, x, ty):
        ii = self.P.intinfo(ty)
        if ii and ii[1]:
            return (v & ((1 << ii[0]) - 1)) == (x & ((1 << ii[0]) - 1))
        return v == x

    def call_outs(self, cx, c, args):
        """outcomes of calling a callee record from a model (function values)"""
        work = [[]]
        outs = []
        while work:
            log = work.pop()
            c2 = Cx(self, cx.st.copy(), log, work, cx.fn, cx.base)
            c2.line = cx.line
            try:
                v = self.M.call(c2, c, args, None, None)
                outs.append(Out('ret', c2.st, v))
            except Infeasible:
                pass
            except PanicExc as e:
                outs.append(Out('panic', c2.st, e.info[0], e.info[1]))
            except ExitExc as e:
                outs.append(Out('exit', c2.st, e.code[0], e.code[1]))
            except UndecOut as e:
                outs.append(Out('undec', c2.st, e.why, e.where))
        return outs

    def root(self, name, args, st=None):
        fid = self.P.byname[name]
        return self.run_fn(st if st is not None else State(), fid, args)


def fill(v, n):
    from .values import fill as f
    return f(v, n)


def overflow(r, w, sg):
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sg else (0, (1 << w) - 1)
    return dd.bnot(dd.band(dd.le(r, hi), dd.le(lo, r)))


def split_bytes(v, n):
    if type(v) is int:
        return tuple((v >> (8 * i)) & 0xff for i in range(n))
    bs = dd.to_bits(v, 8 * n)
    return tuple(dd.from_bits(bs[8 * i:8 * i + 8]) for i in range(n))


def join_bytes(es):
    if all(type(e) is int for e in es):
        return sum(e << (8 * i) for i, e in enumerate(es))
    bs = ()
    for e in es:
        bs = bs + dd.to_bits(e, 8)
    return dd.from_bits(bs)


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return list(dict.fromkeys([b for _, b in t[2]] + [t[3]]))
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[5]] if t[5] is not None and t[5] >= 0 else []
    if k == 'assert':
        return [t[4]]
    return []


def liveness(body, succ, order):
    bl = body['blocks']
    addr = set()
    use = {}
    dfn = {}

    def op(o, u, d):
        if o[0] in ('cp', 'mv'):
            pl(o[1], u, d)

    def pl(p, u, d):
        if p[0] not in d:
            u.add(p[0])
        for x in p[1]:
            if x[0] == 'i' and x[1] not in d:
                u.add(x[1])

    def wr(p, u, d):
        if p[1]:
            pl(p, u, d)
        elif p[0] not in u:
            d.add(p[0])

    for b in order:
        u = set()
        d = set()
        for s in bl[b]['s']:
            if s[0] == '=':
                r = s[2]
                k = r[0]
                if k in ('use', 'repeat'):
                    op(r[1], u, d)
                elif k in ('ref', 'addr'):
                    pl(r[2], u, d)
                    if not any(x[0] == '*' for x in r[2][1]):
                        addr.add(r[2][0])
                elif k in ('bin', 'cbin'):
                    op(r[2], u, d)
                    op(r[3], u, d)
                elif k == 'un' or k == 'cast':
                    op(r[2], u, d)
                elif k == 'agg':
                    for o in r[2]:
                        op(o, u, d)
                elif k in ('discr', 'len'):
                    pl(r[1], u, d)
                wr(s[1], u, d)
            elif s[0] == 'sd':
                pl(s[1], u, d)
            elif s[0] == 'cno':
                op(s[1], u, d)
                op(s[2], u, d)
                op(s[3], u, d)
        t = bl[b]['t']
        if t[0] == 'switch':
            op(t[1], u, d)
        elif t[0] == 'assert':
            op(t[1], u, d)
        elif t[0] == 'drop':
            pl(t[1], u, d)
        elif t[0] == 'call':
            for a in t[3]:
                op(a, u, d)
            if t[1] is None:
                op(t[2], u, d)
            wr(t[4], u, d)
        elif t[0] == 'ret':
            if 0 not in d:
                u.add(0)
        use[b] = u
        dfn[b] = d
    live = {b: set() for b in order}
    ch = True
    while ch:
        ch = False
        for b in reversed(order):
            o = set()
            for s in succ[b]:
                o |= live[s]
            n = use[b] | (o - dfn[b])
            if n != live[b]:
                live[b] = n
                ch = True
    return live, addr
