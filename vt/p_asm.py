"""at-asm: C19 - C27, C33.  Source programs with symbolic names, literals, strings and white space are
assembled by the interpreter; the abstract object is read back and compared with what the source says."""
import random

from . import asmprog as ap
from . import dd
from .asmprog import (Names, Prog, St, REGS, R16, R32, R64, assemble, content, data, el, empty, externals, glob, label, labels, lit,
                      mov_imm, mov_rr, mov_sym, num, push_i, push_r, relocs, ret, section, syscall)
from .chk import all_eq, home, lookup
from .dd import Undecided

ASM = ap.ASM


def distinct(N, names):
    for i, a in enumerate(names):
        for b in names[:i]:
            if len(a) == len(b):
                N.also(dd.bnot(all_eq(a, b)))


def strdata(N, r, kind='db', lab=None):
    return data(kind, [('s', [N.str8(r)])], lab)


def lit2(n):
    """text and value of a number"""
    return el(str(n)), n


def fixed(pid):
    """programs written out"""
    out = []

    def p(fn):
        N = Names('%s.p%d' % (pid, len(out)))
        ls = fn(N)
        out.append(Prog('program %d' % len(out), N, ls))

    def a(N):
        n = [N.name(4), N.name(4), N.name(4)]
        distinct(N, n)
        return [glob(n[0]), section('D'), strdata(N, 3, 'db', n[1]), section('T'), label(n[0]), mov_sym(64, 'rsi', n[1]), mov_imm(32, 'edx', *N.dec(32)), label(n[2]), syscall(), ret()]
    p(a)

    def b(N):
        n = [N.name(3), N.name(3), N.name(3), N.name(3)]
        distinct(N, n)
        return [mov_sym(32, 'r9d', n[3]), label(n[0]), label(n[1]), push_r('r12'), section('D'), label(n[2]), strdata(N, 5, 'dq'), data('dw', [num(258), lit('abc')], n[3]), glob(n[3]), section('T'),
                mov_sym(64, 'r15', n[0]), glob(n[1])]
    p(b)

    def c(N):
        n = [N.name(2), N.name(5), N.name(5)]
        distinct(N, n)
        return [section('B'), label(n[0]), section('D'), label(n[1]), section('B'), label(n[2]), glob(n[2]), glob(n[1]), section('T'), mov_sym(64, 'rax', n[2]), mov_sym(64, 'rbx', n[0]), mov_sym(64, 'rcx', n[1])]
    p(c)

    def d(N):
        n = [N.name(1), N.name(2), N.name(3)]
        return [section('D'), strdata(N, 1), section('T'), strdata(N, 7, 'dw', n[0]), ret(), section('D'), strdata(N, 2, 'dd', n[1]), section('T'), label(n[2]), push_i(*N.dec(31)), ret(), glob(N.name(3)), glob(n[1])]
    p(d)

    def e(N):
        n = [N.name(6), N.name(6)]
        distinct(N, n)
        return [label(n[0]), section('T'), ret(), section('T'), ret(), label(n[1]), glob(n[0]), glob(n[0])]
    p(e)

    def f(N):
        # names that are prefixes and suffixes of one another
        return [glob(el('foo')), label(el('foobar')), ret(), label(el('foo')), syscall(), label(el('fo')), section('D'), label(el('bar')), data('db', [num(1)], el('o')), section('B'), label(el('foo_')),
                section('T'), mov_sym(64, 'rax', el('bar')), mov_sym(64, 'rax', el('fo')), mov_sym(32, 'eax', el('foobar')), mov_sym(64, 'rdx', el('o'))]
    p(f)

    def g(N):
        # names that resemble keywords, registers and numbers
        ns = ['raxx', 'section1', 'globals', 'move', 'dbs', 'x0', 'ret_', 'r16', 'text', '_main', 'a.b', '.data1', 'r8dd', 'pushq', 'DB', 'RAX', 'Main']
        out = []
        for i, x in enumerate(ns):
            out += [label(el(x)), data('db', [num(i)], el(x + '_d')), glob(el(x)) if i % 3 == 0 else empty()]
        return out + [mov_sym(64, 'rax', el(x)) for x in ns]
    p(g)

    def h(N):
        n = [N.name(3) for _ in range(8)]
        distinct(N, n)
        out = [glob(x) for x in n[::2]]
        for i, x in enumerate(n):
            out += [section('TDB'[i % 3]), label(x)]
            if i % 3 != 2:
                out.append(data(['db', 'dw', 'dd', 'dq'][i % 4], [num(i), lit('x' * i)]))
        return out + [section('T')] + [mov_sym(64 if i % 2 else 32, 'rdi' if i % 2 else 'edi', x) for i, x in enumerate(n)]
    p(h)

    def i(N):
        n = [N.name(4), N.name(4)]
        distinct(N, n)
        return [section('D'), mov_sym(64, 'rdi', n[1]), label(n[0]), ret(), label(n[1]), mov_sym(32, 'esi', n[0]), section('T'), syscall(), mov_sym(64, 'r8', n[0])]
    p(i)
    p(lambda N: [])
    p(lambda N: [empty(), empty()])
    p(lambda N: [section('B'), section('D'), section('T')])
    p(lambda N: [section('D'), data('db', [num(7)])])
    p(lambda N: [mov_rr(16, 'cx', 'r8w'), mov_imm(16, 'r15w', *N.dec(16)), mov_imm(32, 'r8d', *N.hex(32)), push_i(*N.hex(31)), push_r('rax'), mov_rr(64, 'r8', 'rdi'), mov_rr(32, 'eax', 'esp'), syscall(), ret()])

    def j(N):
        # names that differ in the case of a letter only
        return [glob(el('Foo')), label(el('foo')), ret(), label(el('Foo')), section('D'), data('db', [num(1)], el('FOO')), glob(el('bar_')), label(el('bar-')), section('B'), label(el('BAR_')), label(el('bar_')),
                section('T'), mov_sym(64, 'rax', el('FOO')), mov_sym(32, 'eax', el('bar_')), mov_sym(64, 'rax', el('foo'))]
    p(j)

    def k(N):
        # the same symbol again and again
        n = [N.name(4), N.name(3)]
        out = [mov_sym(64, 'rax', n[0]), mov_sym(64, 'rax', n[0]), label(n[0]), mov_sym(32, 'r8d', n[0]), mov_sym(32, 'r8d', n[0]), mov_sym(32, 'ecx', n[1]), section('D'), mov_sym(64, 'rax', n[0]), mov_sym(64, 'rax', n[0]),
               mov_sym(32, 'r8d', n[0]), label(n[1]), mov_sym(64, 'r9', n[1]), mov_sym(64, 'r9', n[1])]
        return out
    p(k)

    def m(N):
        # every register that takes an address
        n = [N.name(5), N.name(2)]
        return [label(n[0])] + [mov_sym(64, r, n[i % 2]) for i, r in enumerate(R64)] + [section('D'), strdata(N, 2, 'dw', n[1])] + [mov_sym(32, r, n[i % 2]) for i, r in enumerate(R32)]
    p(m)

    def o(N):
        # names of hundreds of characters that agree for long
        n = [el('x' * 254), el('x' * 255), el('x' * 256), el('x' * 299 + 'y'), el('x' * 300)]
        return [glob(n[1]), label(n[0]), ret(), label(n[1]), section('D'), data('dd', [num(1)], n[2]), label(n[3]), section('T'), glob(n[4]), label(n[4])] + [mov_sym(64, 'rdx', x) for x in n]
    p(o)

    def q(N):
        # more labels, references and data than a byte counts
        out = [section('D')]
        for i in range(130):
            out.append(data('db', [num(i)], el('d%d' % i)))
        out += [section('T'), ret()]
        for i in range(130):
            out.append(label(el('t%d' % i)))
        out += [ret(), section('D'), label(el('last'))]
        out += [glob(el('t129')), glob(el('d0')), section('T')] + [mov_sym(64, 'rax', el(x)) for x in ('last', 't129', 't0', 'd129', 'd128', 'd1')]
        return out
    p(q)

    def t(N):
        # every change from one section to another, and the same one again
        out = []
        for i, k in enumerate('TDBDTBTTDDBBTDTBD'):
            out += [section(k), label(el('s%d' % i))]
            if k != 'B':
                out += [data('db', [num(i)]), push_i(*lit2(i)), label(el('e%d' % i))]
        return out + [section('T')] + [mov_sym(64, 'rsi', el('s%d' % i)) for i in range(17)]
    p(t)

    def u(N):
        # data that is zero or empty, alike statements in a row, a label before each
        out = []
        for k in 'DT':
            out.append(section(k))
            for i, w in enumerate(['db', 'dw', 'dd', 'dq']):
                out += [data(w, [num(0)], el('z%d%s' % (i, k))), data(w, [num(0)]), data(w, [num(0), num(0), num(0)]), data(w, [lit('')], el('y%d%s' % (i, k))), data(w, [lit('same')]), data(w, [lit('same')])]
            out += [ret(), ret(), push_r('rax'), push_r('rax'), push_i(*lit2(0)), mov_imm(64, 'rax', *lit2(0)), mov_imm(32, 'eax', *lit2(0)), mov_imm(16, 'ax', *lit2(0)), data('dq', [num(0)] * 5), label(el('w' + k))]
        return out + [mov_sym(64, 'rax', el(x)) for x in ('wD', 'wT', 'z3D', 'y0T', 'z0D')]
    p(u)

    def r(N):
        # many global names
        ns = ['g%d' % i for i in range(70)]
        return [x for n in ns for x in (glob(el(n)), label(el(n)), label(el(n + '_')))] + [ret()]
    p(r)

    def s(N):
        # many references
        return [label(el('a')), section('D'), label(el('b'))] + [mov_sym(64, 'rsi', el('ab'[i % 2])) for i in range(260)] + [section('T'), mov_sym(32, 'ebx', el('b'))]
    p(s)

    def long(N):
        # names longer than a byte counts which differ at their ends only
        a, b, c, d = (el('n' * 299 + x) for x in 'abcd')
        return [glob(b), glob(d), label(a), ret(), label(b), mov_sym(64, 'rsi', d), section('D'), label(c), data('db', [num(1), lit('two')], d), section('T'), mov_sym(32, 'ecx', a), mov_sym(64, 'r9', c), mov_sym(64, 'r9', b)]
    p(long)
    p(lambda N: [x for x in long(N) if not (x.eff and x.eff[0] == 'ins' and x.eff[2])])
    p(lambda N: [strdata(N, 0), label(N.name(2)), strdata(N, 4, 'dq'), label(N.name(3)), strdata(N, 6, 'dd'), label(N.name(4)), strdata(N, 1, 'dw'), label(N.name(5))])
    return out


def generated(pid, seed, count, lo, hi):
    """programs assembled from randomly drawn kinds of statements; their contents stay symbolic"""
    rnd = random.Random('%s %s' % (pid, seed))
    for q in range(count):
        N = Names('%s.g%d' % (pid, q))
        out = []
        names = []
        cur = 'T'
        pend = []
        for _ in range(rnd.randint(lo, hi)):
            k = rnd.choice(['sect', 'sect', 'label', 'data', 'data', 'ldata', 'mi', 'ms', 'ms', 'rr', 'push', 'ret', 'empty', 'glob'])
            if k == 'sect':
                cur = rnd.choice('TTDDB')
                out.append(section(cur))
            elif k == 'label':
                names.append(N.name(len(names) + 1))
                out.append(label(names[-1]))
            elif k == 'empty':
                out.append(empty())
            elif k == 'glob':
                pend.append(len(out))
                out.append(None)
            elif cur == 'B':
                continue
            elif k in ('data', 'ldata'):
                lab = None
                if k == 'ldata':
                    names.append(N.name(len(names) + 1))
                    lab = names[-1]
                kind = rnd.choice(['db', 'dw', 'dd', 'dq'])
                its = []
                for _ in range(rnd.randint(1, 3)):
                    m = rnd.randint(0, 3)
                    if m == 0:
                        its.append(('s', [N.str8(rnd.randint(0, 7))]))
                    elif m == 1:
                        its.append(lit('hello'[:rnd.randint(0, 5)]))
                    else:
                        t, v = rnd.choice([N.dec, N.hex])(8 * ap.WIDTH[kind])
                        its.append(('n', t, v))
                out.append(data(kind, its, lab))
            elif k == 'mi':
                w = rnd.choice([64, 32, 16])
                out.append(mov_imm(w, rnd.choice(REGS[w]), *rnd.choice([N.dec, N.hex])(w)))
            elif k == 'ms':
                pend.append(len(out))
                out.append(rnd.choice([64, 32]))
            elif k == 'rr':
                w = rnd.choice([64, 32, 16])
                out.append(mov_rr(w, rnd.choice(REGS[w]), rnd.choice(REGS[w])))
            elif k == 'push':
                out.append(push_r(rnd.choice(R64)) if rnd.random() < 0.5 else push_i(*N.dec(31)))
            else:
                out.append(rnd.choice([ret, syscall])())
        for i in pend:
            w = out[i]
            if w is None:
                out[i] = glob(rnd.choice(names) if names and rnd.random() < 0.8 else N.name(40))
            else:
                out[i] = mov_sym(w, rnd.choice(REGS[w]), rnd.choice(names)) if names else ret()
        yield Prog('generated %d' % q, N, out, last_nl=rnd.random() < 0.9)


def programs(ck, pid):
    for p in fixed(pid):
        yield p
    n = 60 if ck.tier == 'quick' else 1200
    for p in generated(pid, ck.seed, n, 2, 10 if ck.tier == 'quick' else 14):
        yield p


EXPL = ('abstract interpretation of at_asm::Assembler (read_from, write_into and everything below) on source programs whose names, literals, strings and white space are symbolic; the abstract '
        'object that results is read back by an independent Mach-O reader and an independent instruction decoder and compared with the meaning of the source')
BOUNDS = ['program shapes: the listed programs and the generated ones (up to 14 statements); contents, names, numbers and string lengths symbolic',
          'source text is ASCII where it is symbolic', 'symbol names are distinct and contain no NUL']


def run_all(ck, rule, fn, hint, acceptance=False, floor=100):
    I = ck.interp()

    def go():
        w = home(I, ASM, hint)
        for p in programs(ck, ck.pid):
            for pc, f in assemble(ck, I, p, rule, acceptance):
                try:
                    fn(ck, pc, f, p, rule, w)
                except Undecided as e:
                    ck.undecided(rule, w, p.tag, str(e))
                except ap.Malformed as e:
                    ck.undecided(rule, w, p.tag, str(e))
    ck.guard(rule, 'programs', go)
    ck.assume += BOUNDS
    return dict(level='other', explanation=EXPL, floor=floor)


def c19(ck):
    ck.rule('label', 'the address of a label is the position, in its section, of the first byte emitted after it')
    return run_all(ck, 'label', labels, 'read_from')


def c20(ck):
    ck.rule('content', 'a section holds exactly the bytes of the statements it was selected for, in source order')
    return run_all(ck, 'content', content, 'read_from', acceptance=True)


def c21(ck):
    ck.rule('external', 'a symbol is external exactly when a global directive names it')
    return run_all(ck, 'external', externals, 'read_from')


def c22(ck):
    ck.rule('reloc', 'one absolute relocation at the immediate field of every symbolic operand, and no other')
    return run_all(ck, 'reloc', relocs, 'read_from')
