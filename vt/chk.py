"""Obligations, reporting and evidence."""
import hashlib
import json
import os
import random
import sys
import time
import traceback

from . import build, dd
from .dd import Lin, Node, Undecided
from .interp import Interp, State, PanicExc
from .ir import Program
from .values import Agg, Seq, Ref, Run, Sum, Obj, Opaque, SCALARS

ROOT = build.HERE
OUTDIR = os.environ.get('VT_OUT', os.path.join(ROOT, 'evidence'))


class Stop(Exception):
    pass


_progs = {}


def program(which):
    p = _progs.get(which)
    if p is None:
        p = _progs[which] = Program(build.dump(which))
    return p


def load_findings():
    p = os.path.join(ROOT, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding:'):
                    out.append(line[8:].strip())
    return out


class Check:
    def __init__(self, pid, tier='quick'):
        self.pid = pid
        self.tier = tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rnd = random.Random(self.seed)
        self.t0 = time.time()
        self.n_ob = 0
        self.n_ok = 0
        self.trivial = 0
        self.viol = []
        self.undec = []
        self.entries = {}
        self.samples = []
        self.assume = []
        self.rules = {}
        self.interps = []
        self.known = [f for f in load_findings() if ('property=%s ' % pid) in f + ' ']
        self.known_hit = []
        self.notes = []
        self.counts = {}
        self.longest = self.largest = 0

    # ------------------------------------------------------------------ programs
    def interp(self, which='probe'):
        I = Interp(program(which))
        self.interps.append(I)
        return I

    # ------------------------------------------------------------------ obligations
    def rule(self, name, text):
        self.rules[name] = text

    def ob(self, pc, ok, rule, where, what, show=None, funcs=None):
        """obligation: pc => ok.  `show(env)` renders the counterexample."""
        self.n_ob += 1
        dd.METER.begin()
        try:
            # conjuncts are judged one by one: the first that can fail is the violation
            bad, env, why = 0, None, None
            for k in (ok if type(ok) is list else [ok]):
                try:
                    b = dd.band(pc, dd.bnot(k))
                    if type(b) is int and b == 0:
                        continue
                    env = dd.witness(b, self.rnd, funcs=funcs)
                    if env is None:
                        why = why or 'not proved, and no concrete counterexample found'
                        continue
                    bad = b
                    break
                except Undecided as e:
                    why = why or str(e)
            if env is None and why:
                return self.undecided(rule, where, what, why)
        finally:
            dd.METER.end()
        if type(bad) is int and bad == 0:
            self.n_ok += 1
            if len(self.samples) < 12 and self.rnd.random() < 0.2 or len(self.samples) < 2:
                self.samples.append('%s: %s [%s]' % (where, what, rule))
            return True
        bases, unk = dd.base_atoms(bad)
        if unk:
            return self.undecided(rule, where, what, 'depends on an unmodelled value')
        cex = {}
        for b in sorted(bases):
            a = dd.ATOMS[b]
            if a.kind == 'in':
                cex[a.name] = env.atom(b)
        s = None
        if show is not None:
            try:
                s = show(env)
            except Exception as e:           # rendering must not hide the finding
                s = 'rendering failed: %r' % e
        return self.violation(rule, where, what, cex, s)

    def fail(self, rule, where, what, detail=None):
        """a violation that needs no values"""
        self.n_ob += 1
        return self.violation(rule, where, what, {}, detail)

    def passed(self, rule, where, what):
        self.n_ob += 1
        self.n_ok += 1
        if len(self.samples) < 12 and self.rnd.random() < 0.2 or len(self.samples) < 2:
            self.samples.append('%s: %s [%s]' % (where, what, rule))
        return True

    def violation(self, rule, where, what, cex, s):
        key = '%s @ %s' % (rule, where)
        for k in self.known:
            if k.split(' ', 1)[1].startswith(key):
                if k not in self.known_hit:
                    self.known_hit.append(k)
                    print('KNOWN-FINDING: property=%s %s' % (self.pid, k.split(' ', 1)[1]))
                return False
        self.viol.append({'rule': rule, 'where': where, 'what': what, 'counterexample': cex, 'detail': s})
        if len(self.viol) >= 25:
            raise Stop()
        return False

    def undecided(self, rule, where, what, why):
        self.undec.append({'rule': rule, 'where': where, 'what': what, 'why': why})
        return None

    def guard(self, rule, where, fn):
        """run a part of the check; anything the analysis does not cover leaves it undecided"""
        try:
            return fn()
        except Stop:
            raise
        except Undecided as e:
            self.undecided(rule, where, 'analysis', str(e))
        except Exception as e:
            if os.environ.get('VT_DEBUG'):
                print('\n'.join(traceback.format_exc().splitlines()[-6:]))
            self.undecided(rule, where, 'analysis', 'internal: %r' % (e,))

    # ------------------------------------------------------------------ running functions
    def outs(self, I, name, args, st=None, pc=1):
        fid = I.P.byname.get(name)
        if fid is None:
            raise Undecided('no function ' + name)
        st = st if st is not None else State()
        if not (type(pc) is int and pc == 1):
            st.pc = dd.band(st.pc, pc)
        self.entries[name] = self.entries.get(name, 0) + 1
        dd.METER.begin()
        t = time.monotonic()
        try:
            return I.run_fn(st, fid, args)
        finally:
            dd.METER.end()
            self.longest = max(self.longest, time.monotonic() - t)
            self.largest = max(self.largest, dd.METER.nodes)

    def where(self, I, name):
        """file:line of the repository function behind a probe entry point"""
        fid = I.P.byname.get(name)
        return name if fid is None else name

    # ------------------------------------------------------------------ the end
    def finish(self, level='other', explanation='', floor=1, level_note=None):
        wall = time.time() - self.t0
        visited = {}
        states = calls = 0
        models = {}
        inl = set()
        for I in self.interps:
            for fid, n in I.visited.items() if isinstance(I.visited, dict) else ((x, 1) for x in I.visited):
                f = I.P.fns[fid]
                if f['c'] in I.ws:
                    visited[f['n']] = visited.get(f['n'], 0) + n
            states += I.states
            calls += I.calls
            for k, v in I.M.used.items():
                models[k] = models.get(k, 0) + v
            inl |= I.M.inlined
        os.makedirs(OUTDIR, exist_ok=True)
        cov = {
            'explanation': explanation,
            'rules': self.rules,
            'obligations': self.n_ob,
            'discharged': self.n_ok,
            'undecided': len(self.undec),
            'undecided_items': self.undec[:40],
            'entry_points': self.entries,
            'functions_interpreted': sorted(k for k in visited if not k.startswith('vprobe::')),
            'abstract_calls': calls,
            'abstract_block_states': states,
            'library_models_used': models,
            'library_functions_inlined': len(inl),
            'longest_execution_s': round(self.longest, 1),
            'largest_execution_nodes': self.largest,
            'samples': self.samples,
            'known_findings_reported': self.known_hit,
        }
        cov.update(self.counts)
        ev = {
            'property': self.pid,
            'tier': self.tier,
            'seed': self.seed,
            'level': level,
            'coverage': cov,
            'assumptions': self.assume,
            'wall_s': round(wall, 3),
            'violations': len(self.viol),
        }
        tmp = os.path.join(OUTDIR, '.%s.json.tmp' % self.pid)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(OUTDIR, self.pid + '.json'))
        for u in self.undec[:20]:
            print('UNDECIDED: property=%s %s @ %s: %s (%s)' % (self.pid, u['rule'], u['where'], u['what'], u['why']))
        print('%s: %d obligations, %d discharged, %d undecided, %d violations, %.1fs' % (
            self.pid, self.n_ob, self.n_ok, len(self.undec), len(self.viol), wall))
        if self.viol:
            path = os.path.join(OUTDIR, self.pid + '.violation.json')
            with open(path, 'w') as f:
                json.dump(self.viol, f, indent=1, default=str)
            v = self.viol[0]
            for v in self.viol[:6]:
                print('  %s @ %s: %s' % (v['rule'], v['where'], v['what']))
                if v['detail']:
                    print('    ' + str(v['detail'])[:600])
                if v['counterexample']:
                    print('    with ' + ', '.join('%s=%s' % kv for kv in list(v['counterexample'].items())[:24])[:600])
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        path = os.path.join(OUTDIR, self.pid + '.violation.json')
        if os.path.exists(path):
            os.unlink(path)
        if self.n_ok < floor:
            print('NOTE: property=%s only %d obligations were discharged (the unchanged tree discharges at least %d)' % (self.pid, self.n_ok, floor))
        return 0


def short(sp):
    f = sp[0]
    i = f.find('at-')
    return '%s:%d' % (f[i:] if i >= 0 else f, sp[1])


def home(I, name, hint=None):
    """the repository function behind a probe entry point, as 'path (file:line)'"""
    P = I.P
    fid = P.byname.get(name)
    if fid is None:
        return name
    seen = {fid}
    todo = [fid]
    best = None
    while todo:
        x = todo.pop(0)
        b = P.fns[x]['body']
        if not b:
            continue
        for bl in b['blocks']:
            t = bl['t']
            if t[0] != 'call' or not t[1]:
                continue
            g = t[1].get('i')
            if g is None or g < 0 or g in seen:
                continue
            seen.add(g)
            f = P.fns[g]
            if f['c'].startswith('at_'):
                s = '%s (%s)' % (f['n'], short(f['sp']))
                if hint is None or hint in f['n']:
                    return s
                best = best or s
            if f['c'] == 'vprobe':
                todo.append(g)
    return best or name


# ---------------------------------------------------------------------- values
def adt(P, name):
    for i, t in enumerate(P.types):
        if t['k'] == 'adt' and t['s'] == name:
            return i
    # the same type may be shown under the path it is re-exported from
    if '<' not in name:
        c, l = name.split('::')[0] + '::', '::' + name.split('::')[-1]
        g = [i for i, t in enumerate(P.types) if t['k'] == 'adt' and t['s'].startswith(c) and t['s'].endswith(l)]
        if len(g) == 1:
            return g[0]
    raise Undecided('no type ' + name)


def struct(P, name, **fields):
    t = P.ty(adt(P, name))
    fs = t['variants'][0]['f']
    names = [f[0] for f in fs]
    if set(names) != set(fields):
        raise Undecided('fields of %s are %s' % (name, names))
    return Agg(0, tuple(fields[n] for n in names))


def variant(P, name, vname, *fields):
    t = P.ty(adt(P, name))
    for i, v in enumerate(t['variants']):
        if v['n'] == vname:
            if len(v['f']) != len(fields):
                raise Undecided('payload of %s::%s' % (name, vname))
            return Agg(i, tuple(fields))
    raise Undecided('no variant %s::%s' % (name, vname))


def vnames(P, name):
    return [v['n'] for v in P.ty(adt(P, name))['variants']]


def field(P, name, v, fname, vi=0):
    t = P.ty(adt(P, name))
    for i, f in enumerate(t['variants'][vi]['f']):
        if f[0] == fname:
            return v.f[i]
    raise Undecided('no field %s.%s' % (name, fname))


def enum(P, name, var):
    """an arbitrary value of a field-less enum"""
    n = len(vnames(P, name))
    return Agg(dd.var(var, 0, n - 1), ())


def lookup(v, table):
    """the scalar table[v] for a symbolic index"""
    r = table[-1]
    for i in range(len(table) - 2, -1, -1):
        r = dd.ite(dd.eq(v, i), table[i], r)
    return r


def le_bytes(v, n):
    if type(v) is int:
        return [(v >> (8 * i)) & 255 for i in range(n)]
    b = dd.to_bits(v, 8 * n)
    return [dd.from_bits(b[8 * i:8 * i + 8]) for i in range(n)]


def be_bytes(v, n):
    return le_bytes(v, n)[::-1]


def from_le(bs):
    if all(type(e) is int for e in bs):
        return sum(e << (8 * i) for i, e in enumerate(bs))
    bits = ()
    for e in bs:
        bits += tuple(dd.to_bits(e, 8))
    return dd.from_bits(bits)


def eqs(xs, ys):
    """the conjuncts of all_eq, for Check.ob"""
    return [dd.eq(a, b) for a, b in zip(xs, ys)]


def all_eq(xs, ys):
    r = 1
    for a, b in zip(xs, ys):
        r = dd.band(r, dd.eq(a, b))
    return r


def new_state(pc=1):
    s = State()
    s.pc = pc
    return s


def put(st, v, rng=False):
    """store v in the state, return a reference (a slice reference if rng)"""
    a = st.hn
    st.hn -= 1
    st.h[a] = v
    if rng:
        from .interp import seqlen
        return Ref(a, (), (0, seqlen(v)))
    return Ref(a)


def simp_val(v, pc):
    """v simplified under the condition pc"""
    if type(pc) is int:
        return v
    if type(v) is Node:
        return dd.restrict(v, pc)
    if type(v) is Agg:
        return Agg(simp_val(v.v, pc), tuple(simp_val(x, pc) for x in v.f))
    if type(v) is Seq:
        out = []
        for x in v.e:
            y = simp_val(x, pc)
            if type(y) is Run and type(y.len) is int and y.len <= 64 and y.info and y.info[0] == 'fill' and type(y.info[1]) in SCALARS:
                out += [y.info[1]] * y.len
            else:
                out.append(y)
        return Seq(tuple(out))
    if type(v) is Sum:
        t = dd.restrict(v.t, pc) if type(v.t) is Node else v.t
        if type(t) is int:
            return Agg(t, tuple(simp_val(x, pc) for x in v.alts[t]))
        ts = dd.termset(t) if type(t) is Node else None
        return Sum(t, {k: tuple(simp_val(x, pc) for x in f) for k, f in v.alts.items() if ts is None or k in ts})
    if type(v) is Run and type(v.len) is Node:
        return Run(v.name, dd.restrict(v.len, pc), v.byte, v.cls, v.off, v.info)
    return v


def evs(env, x):
    """concrete rendering of an abstract value under an assignment"""
    if type(x) in SCALARS:
        return int(env.val(x))
    if type(x) is Seq:
        return [evs(env, e) for e in x.e]
    if type(x) is Run:
        return '<%s x %s>' % (x.name, int(env.val(x.len)))
    if type(x) is Agg:
        return [evs(env, x.v)] + [evs(env, e) for e in x.f] if x.f else evs(env, x.v)
    return repr(x)


def hexs(env, bs):
    try:
        return ' '.join('%02x' % int(env.val(b)) if type(b) in SCALARS else evs(env, b) for b in bs)
    except Exception as e:
        return repr(e)
