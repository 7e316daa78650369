"""at-asm as a program: C28 - C32.  Errors, files, arguments, determinism, input/output failures."""
import random

from . import asmprog as ap
from . import dd
from .asmprog import ASM, Names, Prog, data, el, empty, glob, label, lit, mov_imm, mov_rr, mov_sym, num, push_i, push_r, ret, section, syscall
from .chk import home, put, short, simp_val
from .dd import Undecided
from .interp import State, long_loops
from .models import m_core
from .p_text import differ, same_elems
from .values import Agg, Obj, Ref, Run, Seq, SCALARS

MAIN = 'at_asm::main'
EXPL = ('abstract interpretation of the command line program (main and everything below it) against an abstract file system, argument vector and standard streams; '
        'every path from the start to the end of the program is enumerated')


def text(*p):
    return Seq(tuple(el(*p)))


def path_of(p):
    return p if type(p) is Seq else text(p)


def start(ck, I, args, files, pc=1):
    """the executions of the program: args and files are texts or Seqs"""
    st = State()
    st.h['args'] = Seq(tuple(path_of(a) for a in args))
    for k, v in files:
        st.h['fs:' + m_core.skey(path_of(k))] = v
    return ck.outs(I, MAIN, [], st, pc)


def scalar_of(v):
    while type(v) is Agg and len(v.f) == 1 and type(v.v) is int and v.v == 0:
        v = v.f[0]
    return v


def success(I, o):
    """1 / 0 / None for unknown: the exit status of an execution is zero"""
    if o.kind == 'panic':
        return 0
    if o.kind == 'exit':
        return dd.eq(o.val, 0) if type(o.val) in SCALARS else None
    if o.kind != 'ret':
        return None
    v = o.val
    f = I.P.fns[I.P.byname[MAIN]]
    rt = I.P.ty(f['body']['locals'][0]) if f.get('body') and f['body'].get('locals') else None
    s = rt['s'] if rt else '()'
    if s.startswith('std::result::Result') or s.startswith('core::result::Result'):
        if type(v) is not Agg or type(v.v) is not int:
            return None
        if v.v == 1:
            return 0
        v = v.f[0]
        if type(v) is Agg and not v.f:
            return 1
    if 'ExitCode' in s:
        c = scalar_of(v)
        return dd.eq(c, 0) if type(c) in SCALARS else None
    return 1


TOUCH = ('create', 'truncate', 'write', 'remove', 'rename')


def touched(o, key=None):
    r = []
    for e in o.st.events():
        if e[0] in TOUCH and (key is None or key in e[1:]):
            r.append(e)
    return r


def said(o):
    out = []
    for e in o.st.events():
        if e[0] in ('stderr', 'stdout'):
            out += list(e[1].e) if type(e[1]) is Seq else [None]
            out.append(0)
    if o.kind == 'panic' and isinstance(o.val, str):
        out += list(o.val.encode())
    return out


def has_number(es, k):
    """1 / 0 / None: the text has the number k, standing alone"""
    s = ''
    for e in es:
        if type(e) is int:
            s += chr(e) if e < 128 else '?'
        elif type(e) is Run and e.info and e.info[0] == 'dec' and type(e.info[1]) is int:
            s += str(e.info[1])
        else:
            s += '\x01'
    n = ''
    for c in s + ' ':
        if c.isdigit():
            n += c
        else:
            if n and int(n) == k and not n.startswith('0'):
                return 1
            n = ''
    return None if '\x01' in s or any(e is None for e in es) else 0


def render(es):
    return repr(''.join(chr(e) if type(e) is int and 32 <= e < 127 else '' if e == 0 else '\\n' if e == 10 else '?' for e in es))


# ---------------------------------------------------------------------- C28
BAD = ['frobnicate', 'frobnicate rax, 1', 'mov', 'mov rax', 'mov rax,', 'mov rax 1', 'mov 1, rax', 'mov rax, 1 2', 'mov rax, rbx, rcx', 'mov rax, 1 +', 'mov eax, 4294967296', 'mov ax, 65536',
       'push', 'push eax', 'push 2147483648', 'push rax, rbx', 'ret 1', 'syscall x', 'section', 'section .foo', 'section .text .data', 'global', 'global a b', 'db', 'dw ', 'db "abc', 'x db', 'db 256',
       'dw 65536', 'dd 4294967296', 'dq 18446744073709551616', 'a b', 'foo bar:', 'lbl: ret', 'Mov rax, 1', 'db -1', 'retn', '"', ',']
GOOD = ['', 'mov rax, 1', '  ; note', 'db "a;b", 3', '\t', 'lab@:', 'section .data', 'n@ dw 513', 'ret ; end', '\r', 'section .text', 'push r9', 'global glo@', 'glo@:', 'syscall', 'mov rcx, lab@', 'mov eax, ebx\r', 'dq 1, 2']


def bad_programs(ck):
    """(tag, text, names, line number, condition of being bad)"""
    rnd = random.Random('C28 %d' % ck.seed)
    deep = ck.tier != 'quick'

    def before(n, off, labs=True):
        r = []
        for i in range(n):
            g = GOOD[(off + i) % len(GOOD)]
            if '@' in g:
                g = g.replace('@', str(i // len(GOOD)))
            r.append(g)
        return r
    # every kind of bad line, at varied positions, with and without anything after it
    for q, b in enumerate(BAD):
        for n in ([rnd.randint(0, 14), 0] if not deep else range(0, 20)):
            pre = before(n, rnd.randrange(len(GOOD)) if n else 0)
            fol = rnd.choice(['', '\n', '\nret\n', '\r\nmov rax, 1\n', '\nalso bad\n'])
            yield 'line %d: %s' % (n + 1, b), el('\n'.join(pre + [b]) + fol), None, n + 1, 1
    # every position, after every kind of line
    for n in range(0, 2 * len(GOOD) + 1):
        yield 'line %d after %d lines of every kind' % (n + 1, n), el('\n'.join(before(n, 0) + ['bogus line']) + '\n'), None, n + 1, 1
    for g in GOOD:
        if '@' in g:
            continue
        for n in (1, 2, 5):
            yield 'line %d after %r %d times' % (n + 1, g, n), el('\n'.join([g] * n + ['bogus line']) + '\n'), None, n + 1, 1
    for n in (257, 300) if not deep else (255, 256, 257, 300, 999, 1500):
        yield 'line %d of a long program' % (n + 1), el('\n'.join((['', '; c', 'ret'] + [''] * n)[:n] + ['bogus line']) + '\n'), None, n + 1, 1
    # in every section, freshly selected and with something in it
    for q, b in enumerate(BAD):
        for i, k in enumerate(('text', 'data', 'bss')):
            pre = 'section .%s\n' % k
            yield 'line 2: %s in .%s' % (b, k), el(pre + b + '\n'), None, 2, 1
            pre = 'ret\n' + pre + ('a:\nglobal a\n' if k == 'bss' else 'x db 1\nret\n')
            yield 'line 5: %s in .%s after something else' % (b, k), el(pre + b + '\nret\n'), None, 5, 1
    # data and instructions where no bytes can be stored
    for b in ('db 1', 'x dw 2', 'mov rax, 1', 'ret', 'push rbx', 'syscall', 'dq "s"'):
        yield 'line 4: %s in .bss' % b, el('ret\nsection .bss\n\n' + b + '\n'), None, 4, 1
    # numbers that do not fit, symbolic
    for form, w, how in (('mov eax, @', 32, 'dec'), ('mov ax, @', 16, 'hex'), ('push @', 31, 'dec'), ('db @', 8, 'dec'), ('dw @', 16, 'hex'), ('dd @', 32, 'dec'), ('db 1, @, 2', 8, 'hex')):
        N = Names('C28.' + form.replace(' ', '') + how)
        t, v = getattr(N, how)(64)
        a, b = form.split('@')
        yield 'line 3: %s with a number beyond %d bits' % (form, w), el('ret\n\n', a, t, b, '\nret\n'), N, 3, dd.lt((1 << w) - 1, v)
    # an unknown word
    for n in (2, 5, 9):
        N = Names('C28.word%d' % n)
        W = N.chars(n - 1, ap.letter, ap.ident)
        yield 'line 2: an unknown word of %d characters' % n, el('ret\n', '_', W, ' 5\nret\n'), N, 2, 1
    N = Names('C28.pad')
    yield 'line 3: a bad line after a comment of any length', el('ret ; ', N.run(ap.printable, 0, 60000), '\n', N.run(ap.blank, 0, 60000), '\nbogus line\n'), N, 3, 1


def good_programs(ck):
    from .p_asm import fixed, generated
    n = 20 if ck.tier == 'quick' else 300
    for p in fixed('C28'):
        yield p
    for p in generated('C28', ck.seed, n, 2, 9):
        yield p


def c28(ck):
    rule = 'line'
    ck.rule(rule, 'a line that cannot be parsed: nonzero status, a report with the number of that line, and nothing created, truncated or written')
    ck.rule('quiet', 'a program whose every line is accepted: status zero and nothing reported')
    I = ck.interp('bin')
    w = home(I, MAIN, 'read_from')

    def one(tag, src, N, k, bad):
        def sh(e):
            return 'source: ' + ap.source(e, src)
        for o in start(ck, I, ['at-asm', 'in.asm'], [('in.asm', Seq(tuple(src)))], N.pc if N else 1):
            pc = dd.band(o.st.pc, bad)
            if type(pc) is int and pc == 0:
                continue
            if o.kind == 'undec':
                ck.undecided(rule, w, tag, '%s at %s' % (o.val, o.where))
                continue
            s = success(I, o)
            if s is None:
                ck.undecided(rule, w, tag, 'the status is not known')
                continue
            if not ck.ob(pc, dd.bnot(s), rule, w, tag + ': the program ends with status 0', sh):
                continue
            t = touched(o)
            if t:
                ck.ob(pc, 0, rule, w, tag + ': %s of %s although the line is refused' % (t[0][0], t[0][1]), sh)
                continue
            m = said(o)
            h = has_number(m, k)
            if h is None or (h == 0 and o.kind == 'ret'):
                ck.undecided(rule, w, tag, 'the report is not known')
            elif h == 0 and o.kind == 'panic':
                ck.ob(pc, 0, rule, w, tag + ': the program aborts (%s at %s) without naming line %d' % (o.val, o.where, k), sh)
            else:
                ck.ob(pc, h, rule, w, tag + ': the report %s does not name line %d' % (render(m), k), sh)
    for tag, src, N, k, bad in bad_programs(ck):
        ck.guard(rule, tag, lambda: one(tag, src, N, k, bad))

    def good(p):
        for o in start(ck, I, ['at-asm', 'in.asm'], [('in.asm', Seq(tuple(p.text)))], p.pc):
            pc = dd.band(o.st.pc, p.accept)
            if type(pc) is int and pc == 0:
                continue
            if o.kind == 'undec':
                ck.undecided('quiet', w, p.tag, '%s at %s' % (o.val, o.where))
                continue
            s = success(I, o)
            if s is None:
                ck.undecided('quiet', w, p.tag, 'the status is not known')
                continue
            if not ck.ob(pc, s, 'quiet', w, p.tag + ': correct lines, and the status is not 0 (%s at %s)' % (o.kind, o.where), p.show):
                continue
            m = said(o)
            ck.ob(pc, 0 if m else 1, 'quiet', w, p.tag + ': correct lines, and yet %s is reported' % render(m), p.show)
    for p in good_programs(ck):
        ck.guard('quiet', p.tag, lambda: good(p))
    # a line number that does not fit in 16 bits
    n = 65600
    src = el('ret' + '\n' * n + 'bogus line\n')
    with long_loops(n + 50):
        ck.guard(rule, 'long', lambda: one('line %d after blank lines' % (n + 1), src, None, n + 1, 1))
    ck.assume += ['bad lines: the %d listed kinds and the symbolic ones, at positions up to %d, and %d after blank lines' % (len(BAD), 300 if ck.tier == 'quick' else 1500, n + 1)]
    return dict(level='other', explanation=EXPL, floor=150)


# ---------------------------------------------------------------------- C29
def reference(ck, J, src, pc):
    st = State()
    return [o for o in ck.outs(J, ASM, [put(st, Seq(tuple(src)), True)], st, pc)]


def same(ck, pc, a, b, rule, w, tag, sh):
    a, b = simp_val(a, pc), simp_val(b, pc)
    if a == b:
        return ck.passed(rule, w, tag)
    k = same_elems(pc, a.e, b.e)
    if k is None:
        if all(type(x) is not Run for x in a.e + b.e):
            return ck.ob(pc, 0, rule, w, tag, sh)
        return differ(ck, pc, a, b, rule, w, tag, sh)
    return ck.ob(pc, k, rule, w, tag, sh)


REFUSED = [('a bad first line', b'frob\nret\n'), ('a bad last line', b'mov rax, 1\ndb 1\nfrob\n'), ('a bad last line without an end', b'ret\nfrob'), ('a bad line in the middle', b'ret\nmov rax\nret\n'),
           ('a number that does not fit', b'ret\ndb 1, 2, 256\n'), ('data in .bss', b'ret\nsection .bss\ndb 1\n'), ('code in .bss', b'section .bss\nret\n'), ('an undefined symbol', b'mov rax, nowhere\n'),
           ('an undefined symbol later', b'ret\nfoo:\nmov rax, foo\nmov rbx, bar\n'), ('a global name that is not defined, and a bad line', b'global x\nfrob\n'),
           ('bytes that are not UTF-8', b'ret\n; \xff\xfe\nret\n'), ('a bad line after a long program', b'ret\n' * 40 + b'frob\n')]


def c29(ck):
    rule = 'untouched'
    ck.rule(rule, 'a refused input: the output path is not created, truncated or written, on any path through the program')
    ck.rule('exact', 'an accepted input: the output path holds exactly the assembled object, whatever it held before')
    ck.rule('fault', 'opening or reading the input fails: the output path is not touched')
    I = ck.interp('bin')
    J = ck.interp()
    w = home(I, MAIN, 'read_from')
    old = Seq(tuple(range(1, 200)))
    big = Seq(tuple([0x41] * 5000))
    ways = [(['at-asm', 'in.asm'], 'in.o'), (['at-asm', '-o', 'out/x', 'in.asm'], 'out/x'), (['at-asm', 'in.asm', '-o', 'x.bin'], 'x.bin')]

    def refused(tag, src, args, out, before, pc=1, sh=None, bad=1):
        fs = [('in.asm', Seq(tuple(src)))] if src is not None else []
        if before is not None:
            fs.append((out, before))
        for o in start(ck, I, args, fs, pc):
            c = dd.band(o.st.pc, bad)
            if type(c) is int and c == 0:
                continue
            t = touched(o, out)
            if t:
                ck.ob(c, 0, rule, w, '%s: %s of the output path' % (tag, t[0][0]), sh or (lambda e: 'arguments %s; source %r' % (args[1:], src if src is None else bytes(src))))
                continue
            if o.kind == 'undec':
                ck.undecided(rule, w, tag, '%s at %s' % (o.val, o.where))
                continue
            if o.st.h.get('fs:' + out) != before:
                ck.ob(c, 0, rule, w, '%s: the output path is changed' % tag, sh)
                continue
            ck.passed(rule, w, tag)
    for tag, src in REFUSED:
        for q, (args, out) in enumerate(ways):
            for before in ((old, None) if q == 0 or ck.tier != 'quick' else (old,)):
                ck.guard(rule, tag, lambda: refused(tag, src, args, out, before))
    ck.guard(rule, 'no input', lambda: refused('the input does not exist', None, ways[0][0], 'in.o', old))
    ck.guard(rule, 'no input', lambda: refused('the input does not exist', None, ways[1][0], 'out/x', None))
    for form, wd in (('mov eax, @', 32), ('push @', 31), ('db 1, @', 8), ('dd @', 32)):
        N = Names('C29.' + form.replace(' ', ''))
        t, v = N.dec(64)
        a, b = form.split('@')
        src = el('ret\nx:\n', a, t, b, '\n')
        ck.guard(rule, form, lambda: refused('%s with a number beyond %d bits' % (form, wd), src, ways[0][0], 'in.o', old, N.pc, lambda e: 'source: ' + ap.source(e, src), dd.lt((1 << wd) - 1, v)))

    def accepted(p, args, out, before, inp='in.asm'):
        fs = [(inp, Seq(tuple(p.text)))]
        if before is not None:
            fs.append((out, before))
        ref = reference(ck, J, p.text, p.pc)
        for o in start(ck, I, args, fs, p.pc):
            pc0 = dd.band(o.st.pc, p.accept)
            if type(pc0) is int and pc0 == 0:
                continue
            if o.kind == 'undec':
                ck.undecided('exact', w, p.tag, '%s at %s' % (o.val, o.where))
                continue
            s = success(I, o)
            for r in ref:
                pc = dd.band(pc0, r.st.pc)
                if type(pc) is int and pc == 0:
                    continue
                if r.kind != 'ret':
                    if r.kind == 'undec':
                        ck.undecided('exact', w, p.tag, '%s at %s' % (r.val, r.where))
                    continue
                if s is None or (type(s) is int and s == 0):
                    ck.undecided('exact', w, p.tag, 'the program does not succeed')
                    continue
                g = o.st.h.get('fs:' + out)
                if type(g) is not Seq:
                    ck.ob(pc, 0, 'exact', w, p.tag + ': success, and the output path does not exist', p.show)
                    continue
                same(ck, pc, g, r.val, 'exact', w, '%s: the output path (%s) holds something other than the object' % (p.tag, 'new' if before is None else 'with another file before'), p.show)
                for e in touched(o):
                    if out not in e[1:]:
                        live = [k for k in e[1:] if o.st.h.get('fs:' + str(k)) is not None]
                        if live:
                            ck.ob(pc, 0, 'exact', w, '%s: %s of %s, which is not the output path' % (p.tag, e[0], e[1]), p.show)
    from .p_asm import fixed, generated
    ps = list(fixed('C29')) + list(generated('C29', ck.seed, 15 if ck.tier == 'quick' else 300, 2, 9))
    for q, p in enumerate(ps):
        args, out = ways[q % 3]
        ck.guard('exact', p.tag, lambda: accepted(p, args, out, [None, old, big][(q // 3 + q) % 3]))
    p0 = Prog('the output path is the input path', None, [ret(), label(el('a')), mov_sym(64, 'rax', el('a'))])
    ck.guard('exact', p0.tag, lambda: accepted(p0, ['at-asm', '-o', 'in.asm', 'in.asm'], 'in.asm', None))
    p1 = Prog('an empty input', None, [])
    ck.guard('exact', p1.tag, lambda: accepted(p1, ways[0][0], 'in.o', big))

    # objects of any size, over an output that may be longer or shorter
    huge = Seq(tuple([0x42] * 12000))
    for n in (600, 5000):
        p2 = Prog('a string of %d characters' % n, None, [section('D'), data('db', [('s', el('q' * n))]), ret()])
        alike = [r.val for r in reference(ck, J, p2.text, p2.pc) if r.kind == 'ret' and all(type(x) is int for x in r.val.e)]
        for before in [None, huge] + [Seq(x.e[:-1] + (x.e[-1] ^ 1,)) for x in alike] + [Seq(x.e + (0,)) for x in alike] + [Seq(x.e[:-1]) for x in alike]:
            ck.guard('exact', p2.tag, lambda: accepted(p2, ways[0][0], 'in.o', before))
    for r in range(2 if ck.tier == 'quick' else 8):
        N = Names('C29.any%d' % r)
        p3 = Prog('a string of any length 8q+%d' % r, N, [section('D'), data('db', [('s', [N.str8(r)])]), ret()])
        M = Names('C29.old%d' % r)
        prev = Seq((M.run(lambda b: dd.le(b, 127), 0, 1 << 24, 'previous'),))
        p3.pc = dd.band(p3.pc, M.pc)
        for before in (None, old, prev):
            ck.guard('exact', p3.tag, lambda: accepted(p3, ways[0][0], 'in.o', before))

    # the input cannot be read to its end
    def faults(p, args, out, before):
        I.fault = True
        try:
            os_ = start(ck, I, args, [('in.asm', Seq(tuple(p.text))), (out, before)], p.pc)
        finally:
            I.fault = False
        for o in os_:
            es = o.st.events()
            fl = [i for i, e in enumerate(es) if e[0] == 'fault' and e[1] in ('open', 'read')]
            if not fl:
                continue
            op = [e for e in es[:fl[0]] if e[0] == 'open']
            if op and op[-1][1] == out and es[fl[0]][1] == 'open':
                continue        # the fault is the opening of the output itself
            tag = '%s, %s fault %d' % (p.tag, es[fl[0]][1], es[fl[0]][2])
            t = touched(o, out)
            if t:
                ck.ob(o.st.pc, 0, 'fault', w, tag + ': %s of the output path' % t[0][0], p.show)
            elif o.kind == 'undec':
                ck.undecided('fault', w, tag, '%s at %s' % (o.val, o.where))
            else:
                ck.passed('fault', w, tag)
    pf = [Prog('two lines', None, [ret(), ret()]), Prog('a program with data', None, [ret(), label(el('a')), mov_sym(64, 'rax', el('a')), section('D'), data('db', [num(3)])])]
    for p in pf:
        for args, out in ways[:2]:
            ck.guard('fault', p.tag, lambda: faults(p, args, out, old))
    ck.assume += ['a file system in which the input does not change while it is read', 'programs: the listed and generated ones, contents symbolic']
    return dict(level='other', explanation=EXPL, floor=60)


# ---------------------------------------------------------------------- C30
def c30(ck):
    rule = 'paths'
    ck.rule(rule, 'the one input path is read and the output path (given, or the input path with its last extension replaced by "o") is written; nothing else is opened')
    ck.rule('unusable', 'an unusable command line ends with failure and touches no file')
    I = ck.interp('bin')
    w = home(I, MAIN)
    w = MAIN + ' (at-asm/src/main.rs)' if w == MAIN else w
    src = b'mov rax, 1\nret\n'

    def usable(tag, args, inp, out, pc=1, show=None):
        ki, ko = m_core.skey(path_of(inp)), m_core.skey(path_of(out))
        for o in start(ck, I, args, [(inp, Seq(tuple(src)))], pc):
            if o.kind == 'undec':
                ck.undecided(rule, w, tag, '%s at %s' % (o.val, o.where))
                continue
            s = success(I, o)
            if s is None:
                ck.undecided(rule, w, tag, 'the status is not known')
                continue
            if not ck.ob(o.st.pc, s, rule, w, '%s: a usable command line fails (%s at %s)' % (tag, o.val, o.where), show):
                continue
            rd = [e[1] for e in o.st.events() if e[0] == 'open' and e[2][0]]
            wr = set(e[1] for e in o.st.events() if e[0] in TOUCH)
            if o.st.h.get('fs:' + ki) is None or ki not in rd:
                ck.ob(o.st.pc, 0, rule, w, '%s: the input path is not read (read: %s)' % (tag, rd), show)
                continue
            g = o.st.h.get('fs:' + ko)
            if type(g) is not Seq or not g.e:
                ck.ob(o.st.pc, 0, rule, w, '%s: the output is not at %s (touched: %s)' % (tag, ko, sorted(wr)), show)
                continue
            left = [k for k in wr if k != ko and o.st.h.get('fs:' + str(k)) is not None]
            ck.ob(o.st.pc, 0 if left else 1, rule, w, '%s: another path is touched: %s' % (tag, left), show)

    def unusable(tag, args, files, pc=1):
        for o in start(ck, I, args, [(f, Seq(tuple(src))) for f in files], pc):
            t = touched(o)
            if t:
                ck.ob(o.st.pc, 0, 'unusable', w, '%s: %s of %s' % (tag, t[0][0], t[0][1]), lambda e: 'arguments %s' % (args[1:],))
                continue
            if o.kind == 'undec':
                ck.undecided('unusable', w, tag, '%s at %s' % (o.val, o.where))
                continue
            s = success(I, o)
            if s is None:
                ck.undecided('unusable', w, tag, 'the status is not known')
                continue
            ck.ob(o.st.pc, dd.bnot(s), 'unusable', w, tag + ': success', lambda e: 'arguments %s' % (args[1:],))

    DEF = [('in.asm', 'in.o'), ('dir/in.asm', 'dir/in.o'), ('a.b.asm', 'a.b.o'), ('name', 'name.o'), ('.hidden', '.hidden.o'), ('dir.d/name', 'dir.d/name.o'), ('dir.d/x.y', 'dir.d/x.o'), ('/abs/p.s', '/abs/p.o'),
           ('../up.asm', '../up.o'), ('x.asm.asm', 'x.asm.o'), ('./a.S', './a.o'), ('asm', 'asm.o'), ('in.asm.bak', 'in.asm.o'), ('a-o.asm', 'a-o.o'), ('o', 'o.o'), ('x.', 'x.o'), ('--o', '--o.o'), ('-O', '-O.o'), ('-out.asm', '-out.o'), ('-o.asm', '-o.o'), ('-i', '-i.o'), ('-oo', '-oo.o'), ('--output', '--output.o'), ('a b.asm', 'a b.o')]
    for prog in ('at-asm', '/usr/bin/at-asm', './x.y'):
        for i, o in DEF if prog == 'at-asm' or ck.tier != 'quick' else DEF[:3]:
            ck.guard(rule, i, lambda: usable('%s %s' % (prog, i), [prog, i], i, o))
    OUT = ['x', 'x.o', 'd/e/f.bin', '/tmp/z', 'in', 'in.obj', '..x', 'noext', '-', 'a.b.c', '--', 'in.asm.o']
    for i in ('in.asm', 'p/q.s', 'plain'):
        for o in OUT:
            ck.guard(rule, o, lambda: usable('-o %s %s' % (o, i), ['at-asm', '-o', o, i], i, o))
            ck.guard(rule, o, lambda: usable('%s -o %s' % (i, o), ['at-asm', i, '-o', o], i, o))
    # names of any letters and any length
    n = [0]

    def sym(*parts):
        n[0] += 1
        N = Names('C30.%d' % n[0])
        r = []
        for p in parts:
            r += el(p) if type(p) is str else [N.run(ap.ident, p[0], p[1])] if len(p) == 2 else list(N.chars(p[0], ap.ident, ap.ident))
        return N, r

    def both(*parts):
        return Seq(tuple(parts))
    for k in ((1,), (4,), (7,)) if ck.tier == 'quick' else [(q,) for q in range(1, 12)]:
        k = (k[0], 0, 0)
        for pre, suf in (('', '.asm'), ('d/', '.s'), ('d.e/', '.x.asm'), ('/r/', '')):
            N, r = sym(pre, k, suf)
            e = both(*(r[:len(r) - len(suf.split('.')[-1]) - 1] if suf else r), *el('.o'))
            sh = lambda env, r=r: 'input path ' + ap.source(env, r)
            ck.guard(rule, 'sym', lambda: usable('an input path of %d letters after %r, ending %r' % (k[0], pre, suf), ['at-asm', both(*r)], both(*r), e, N.pc, sh))
            M, q = sym('o/', k, '.bin')
            pc = dd.band(N.pc, M.pc)
            ck.guard(rule, 'sym', lambda: usable('symbolic input and output paths', ['at-asm', '-o', both(*q), both(*r)], both(*r), both(*q), pc, sh))
            ck.guard(rule, 'sym', lambda: usable('symbolic input and output paths, the option last', ['at-asm', both(*r), '-o', both(*q)], both(*r), both(*q), pc, sh))
    # names of any visible characters
    vis = lambda b: dd.band(ap.rng(b, 33, 126), dd.bnot(ap.anyof(b, '/')))
    for k in (1, 2, 3, 6):
        N = Names('C30.v%d' % k)
        r = list(N.chars(k, vis, vis))
        M = Names('C30.u%d' % k)
        q = list(M.chars(k, vis, vis))
        pc = dd.band(N.pc, M.pc)
        if k == 2:
            pc = dd.band(pc, dd.bnot(dd.band(dd.eq(r[0], ord('-')), dd.eq(r[1], ord('o')))))
        sh = lambda env, r=r, q=q: 'input path %s, output path %s' % (ap.source(env, r), ap.source(env, q))
        x, y = both(*(el('d/') + r)), both(*(el('o/') + q))
        ck.guard(rule, 'sym', lambda: usable('-o and paths of %d visible characters below directories' % k, ['at-asm', '-o', y, x], x, y, pc, sh))
        x = both(*r)
        ck.guard(rule, 'sym', lambda: usable('an input path of %d visible characters' % k, ['at-asm', '-o', 'o/out', x], x, 'o/out', pc, sh))
        ck.guard(rule, 'sym', lambda: usable('an input path of %d visible characters, the option last' % k, ['at-asm', x, '-o', 'o/out'], x, 'o/out', pc, sh))
        y = both(*q)
        ck.guard(rule, 'sym', lambda: usable('an output path of %d visible characters' % k, ['at-asm', '-o', y, 'd/in.asm'], 'd/in.asm', y, pc, sh))
    F = ['in.asm', 'a', 'b', 'A', 'B', 'x.o']
    for a in (['p'], ['p', '-o', 'x.o'], ['p', 'a', 'b'], ['p', '-o', 'x.o', 'a', 'b'], ['p', 'a', '-o', 'x.o', 'b'], ['p', 'a', 'b', '-o', 'x.o'], ['p', 'in.asm', '-o'], ['p', '-o'], ['p', 'a', 'b', 'A'], ['p', 'a', 'b', 'A', 'B'],
              ['p', 'in.asm', 'in.asm'], ['p', '-o', 'x.o', '-o', 'y.o', 'a'], ['p', '-o', 'x.o', 'a', '-o', 'y.o'], ['p', 'a', '-o', 'x.o', '-o', 'y.o'], ['p', 'a', 'b', '-o'], ['p', '-o', '-o', 'x.o', 'a', 'b'], ['p', 'a', 'b', 'A', 'B', 'in.asm']):
        ck.guard('unusable', ' '.join(a), lambda: unusable(' '.join(a[1:]) or '(no arguments)', a, F))
    for a in (['p', 'missing.asm'], ['p', '-o', 'x.o', 'missing.asm'], ['p', 'missing.asm', '-o', 'x.o']):
        ck.guard('unusable', ' '.join(a), lambda: unusable('input that does not exist: ' + ' '.join(a[1:]), a, F))
    ck.assume += ['argument vectors: the listed shapes; path texts concrete or symbolic as listed', 'arguments are valid UTF-8']
    return dict(level='other', explanation=EXPL, floor=80)


# ---------------------------------------------------------------------- C32
def handle(st, key, content, rd, wr):
    n = st.h.get('nfh', 0)
    st.h['nfh'] = n + 1
    st.h['fs:' + key] = content
    st.h['fh:%d' % n] = Obj('fh', key, 0, rd, wr, 0)
    return put(st, Obj('file', n))


def completed(I, o, name):
    """1 / 0 / None: the operation says it succeeded"""
    if name == MAIN:
        return success(I, o)
    if o.kind == 'panic':
        return 0
    if o.kind == 'exit':
        return dd.eq(o.val, 0) if type(o.val) in SCALARS else None
    if o.kind != 'ret':
        return None
    return o.val if type(o.val) in SCALARS else 1


def noio(c):
    """a condition without its choices of which operation fails"""
    if type(c) is int:
        return c
    for v in dd.support(c):
        i = dd.VARS[v]
        if i[0] == 'pred' and type(i[1]) is tuple and i[1] and i[1][0] == 'io':
            p = dd.pred(i[1])
            c = dd.bor(dd.restrict(dd.band(c, p), p), dd.restrict(dd.band(c, dd.bnot(p)), dd.bnot(p)))
    return c


def same_val(ck, pc, a, b, rule, w, t, show):
    a, b = simp_val(a, pc), simp_val(b, pc)
    if a == b:
        return ck.passed(rule, w, t)
    if type(a) is Seq and type(b) is Seq:
        return same(ck, pc, a, b, rule, w, t, show)
    if type(a) is Agg and type(b) is Agg and type(a.v) is int and type(b.v) is int and len(a.f) == len(b.f):
        if a.v != b.v:
            return ck.ob(pc, 0, rule, w, t, show)
        r = True
        for x, y in zip(a.f, b.f):
            r = same_val(ck, pc, x, y, rule, w, t, show) and r
        return r
    if type(a) in SCALARS and type(b) in SCALARS:
        return ck.ob(pc, dd.eq(a, b), rule, w, t, show)
    return ck.undecided(rule, w, t, 'results of different shapes')


def faulted(ck, I, rule, w, tag, name, make, result, pc=1, show=None):
    """make() -> (args, state); result(out) -> what the operation produced"""
    args, st = make()
    ref = ck.outs(I, name, args, st, pc)
    args, st = make()
    I.fault = True
    try:
        outs = ck.outs(I, name, args, st, pc)
    finally:
        I.fault = False
    n = 0
    for o in outs:
        fl = [e for e in o.st.events() if e[0] == 'fault']
        if not fl:
            if o.kind == 'undec':
                ck.undecided(rule, w, tag, '%s at %s' % (o.val, o.where))
            continue
        kind, k = fl[0][1], fl[0][2]
        t = '%s: %s at operation %d' % (tag, kind if kind.startswith('short') else kind + ' failure', k)
        if o.kind == 'undec':
            ck.undecided(rule, w, t, '%s at %s' % (o.val, o.where))
            continue
        s = completed(I, o, name)
        if s is None:
            ck.undecided(rule, w, t, 'the status is not known')
            continue
        c = noio(dd.band(o.st.pc, s))
        n += 1
        if type(c) is int and c == 0:
            ck.passed(rule, w, t)
            continue
        if not kind.startswith('short'):
            ck.ob(c, 0, rule, w, t + ', and the operation completes as if it had succeeded', show)
            continue
        # a short transfer may be completed by another one: the result has to be the same
        g = result(o)
        hit = 0
        for r in ref:
            both = dd.band(c, r.st.pc)
            if (type(both) is int and both == 0) or r.kind == 'undec':
                continue
            if completed(I, r, name) != 1:
                continue
            hit = 1
            same_val(ck, both, g, result(r), rule, w, t + ', and the result is another one', show)
        if not hit:
            ck.undecided(rule, w, t, 'no execution to compare with')
    ck.counts['faults'] = ck.counts.get('faults', 0) + n
    return n


def c32(ck):
    from . import p_mac, p_obj
    rule = 'fault'
    ck.rule(rule, 'no execution in which one input or output operation fails (or transfers less than asked, with a different result) completes as if it had succeeded')
    ck.rule('early', 'a reader whose input ends before the record does not return a record')
    deep = ck.tier != 'quick'
    B = ck.interp('bin')
    I = ck.interp()

    # the program
    from .p_asm import fixed, generated
    def prog(p, args, out):
        def make():
            st = State()
            st.h['args'] = Seq(tuple(path_of(a) for a in args))
            st.h['fs:in.asm'] = Seq(tuple(p.text))
            st.h['fs:' + out] = Seq((1, 2, 3))
            return [], st
        faulted(ck, B, rule, home(B, MAIN, 'read_from'), 'at-asm, ' + p.tag, MAIN, make, lambda o: o.st.h.get('fs:' + out), p.pc, p.show)
    N = Names('C32.p')
    t, v = N.dec(64)
    ps = [Prog('an empty program', None, []), Prog('one line', None, [ret()]), Prog('one line without an end', None, [ret()], last_nl=False),
          Prog('text and data', N, [mov_imm(64, 'rax', t, v), label(el('foo')), mov_sym(64, 'rdi', el('foo')), glob(el('foo')), section('D'), data('db', [lit([N.str8(3)])]), empty(), data('dq', [num(7)], el('bar'))])]
    ps += list(generated('C32', ck.seed, 4 if not deep else 40, 3, 8))
    for p in ps:
        for args, out in ((['at-asm', 'in.asm'], 'in.o'), (['at-asm', '-o', 'x', 'in.asm'], 'x')) if deep else ((['at-asm', 'in.asm'], 'in.o'),):
            ck.guard(rule, p.tag, lambda: prog(p, args, out))

    # the library: assembling from one stream into another
    def lib(p):
        def make():
            st = State()
            a = handle(st, 'src', Seq(tuple(p.text)), 1, 0)
            b = handle(st, 'dst', Seq(()), 0, 1)
            return [a, b], st
        n = 'vprobe::asm::asm_file'
        faulted(ck, I, rule, home(I, n, 'read_from'), 'Assembler, ' + p.tag, n, make, lambda o: o.st.h.get('fs:dst'), p.pc, p.show)
    for p in ps:
        ck.guard(rule, p.tag, lambda: lib(p))

    # object files
    def obj(c):
        def make():
            st = State()
            a = put(st, c.v)
            return [a, handle(st, 'dst', Seq(()), 0, 1)], st
        n = 'vprobe::obj::wf_obj'
        faulted(ck, I, rule, home(I, n, 'write_into'), 'writing ' + c.tag, n, make, lambda o: o.st.h.get('fs:dst'), c.pc, c.show)
    cs = list(p_obj.cases(I.P, 'quick', 'C32'))
    rnd = random.Random('C32 %d' % ck.seed)
    for c in (cs if deep else cs[:3] + rnd.sample(cs[3:], min(5, len(cs) - 3))):
        ck.guard(rule, c.tag, lambda: obj(c))

    # records
    def writer(kind, r):
        n = 'vprobe::mac::wf_' + kind

        def make():
            st = State()
            a = r.v if kind == 'reloc' else put(st, r.v)
            return [a, handle(st, 'dst', Seq(()), 0, 1)], st
        faulted(ck, I, rule, home(I, n, 'write_into'), 'writing %s %s' % (kind, r.label), n, make, lambda o: o.st.h.get('fs:dst'), r.pc)

    def reader(kind, r, order):
        n = 'vprobe::mac::rf_' + kind
        bs = r.bytes(order)

        def make(k=None):
            st = State()
            args = [] if kind == 'header' else [put(st, Seq(tuple(p_mac.HDR[order])), True)]
            return args + [handle(st, 'src', Seq(tuple(bs if k is None else bs[:k])), 1, 0)], st
        w = home(I, n, 'read_from' if kind == 'header' else 'read_from_in')
        faulted(ck, I, rule, w, 'reading %s %s (%s)' % (kind, r.label, order), n, make, lambda o: o.val, r.pc)
        ks = range(len(bs)) if deep else sorted(set([0, 1, len(bs) - 1, len(bs) // 2] + [rnd.randrange(len(bs)) for _ in range(4)]))
        for k in ks:
            args, st = make(k)
            for o in ck.outs(I, n, args, st, r.pc):
                t = '%s of %d bytes ending after %d (%s)' % (kind, len(bs), k, order)
                if o.kind == 'undec':
                    ck.undecided('early', w, t, '%s at %s' % (o.val, o.where))
                else:
                    ck.ob(o.st.pc, 0 if o.kind == 'ret' else 1, 'early', w, t + ': a value is returned')
    for kind, gen in p_mac.RECS.items():
        def recs():
            for i, r in enumerate(gen(ck, I, 'c32.%s.' % kind)):
                if i >= (2 if not deep else 6):
                    break
                ck.guard(rule, 'write ' + kind, lambda: writer(kind, r))
                for order in ('le', 'be'):
                    if kind != 'header' or order == 'le':
                        ck.guard(rule, 'read ' + kind, lambda: reader(kind, r, order))
        ck.guard(rule, kind, recs)

    def whole():
        for r, label_ in p_mac.lcs(ck, I, 'c32.lc.', 3 if not deep else 4):
            r.label = label_
            ck.guard(rule, label_, lambda: writer('lc', r))
    ck.guard(rule, 'load commands', whole)
    ck.assume += ['one fault per execution, at every operation in turn', 'operations that fail return an error value, as the standard library documents; the files are regular files']
    return dict(level='other', explanation=EXPL + '; in fault mode every read, write, open and flush of a file may fail or, where the interface allows it, transfer a single byte', floor=300)


# ---------------------------------------------------------------------- C31
import re  # noqa: E402

STRONG = [(r'std::time::(SystemTime|Instant)::now', 'the clock'), (r'std::env::(var|var_os|vars|vars_os|home_dir)$', 'an environment variable'),
          (r'std::env::(current_dir|current_exe|temp_dir)$', 'a path of the environment'), (r'std::process::id$', 'the process id'), (r'std::thread::current$|Thread::id$|ThreadId', 'the thread identity'),
          (r'RandomState', 'a random hash'), (r'available_parallelism', 'the number of processors'), (r'getrandom|^rand::|::rand::', 'random numbers'),
          (r'fmt::rt::Argument.*new_pointer|fmt::Pointer', 'an address'), (r'(const|mut)_ptr.*::(addr|expose_provenance|expose_addr)$', 'an address'),
          (r'fs::Metadata.*::(modified|accessed|created)$|MetadataExt', 'file metadata'), (r'std::hash::(random|DefaultHasher::new)?RandomState', 'a random hash'),
          (r'LocalKey', 'thread-local state'), (r'^core::arch::.*rdtsc|_rdtsc|_rdrand', 'the clock')]
HASHIT = re.compile(r'(HashMap|HashSet)(<.*>|::<.*>)?::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain)')


def sources(P):
    """call sites in workspace functions of anything whose result is not a function of the input: [(kind, strong, function, place)]"""
    out = []
    for f in P.fns:
        b = f.get('body')
        if not b or not f['c'].startswith('at_'):
            continue
        calm = False
        found = []
        for bl in b['blocks']:
            for s in bl['s']:
                if s[0] == '=' and type(s[2]) is list and s[2] and s[2][0] == 'cast' and str(s[2][1]).startswith('PointerExpose'):
                    found.append(('an address', 1, s[3]))
                if s[0] == '=' and type(s[2]) is list and s[2] and s[2][0] == 'tls':
                    found.append(('thread-local state', 1, s[3]))
            t = bl['t']
            if t[0] != 'call' or not t[1]:
                continue
            c = t[1]
            d = c['d']
            g = c.get('i')
            full = d + ' ' + (P.fns[g]['n'] if g is not None and g >= 0 else '')
            if '::sort' in d or 'BTree' in d:
                calm = True
            for rx, what in STRONG:
                if re.search(rx, d) and not (what == 'a random hash' and 'Hash' in d and 'RandomState' not in d):
                    found.append((what, 1, t[6] if len(t) > 6 else 0))
                    break
            else:
                it = HASHIT.search(d)
                if not it and d.endswith('IntoIterator::into_iter') and any(type(x) is int and re.match(r"&?('\w+ )?(mut )?std::collections::(hash_\w+::)?Hash(Map|Set)<", P.tys(x)) for x in c['a']):
                    it = True
                if it:
                    found.append(('the iteration order of a hash table', 0, t[6] if len(t) > 6 else 0))
        for what, strong, line in found:
            out.append((what, strong, f['n'], '%s:%s' % (short(f['sp']).rsplit(':', 1)[0], line), calm))
    return out


def callers(P, name):
    """a call path from an entry point to a function"""
    pred = {}
    todo = list(P.roots)
    for r in todo:
        pred[r] = None
    tgt = None
    while todo:
        x = todo.pop(0)
        if P.fns[x]['n'] == name:
            tgt = x
            break
        b = P.fns[x].get('body')
        if not b:
            continue
        for bl in b['blocks']:
            t = bl['t']
            if t[0] == 'call' and t[1]:
                g = t[1].get('i')
                if g is not None and g >= 0 and g not in pred:
                    pred[g] = x
                    todo.append(g)
    r = []
    while tgt is not None:
        r.append(P.fns[tgt]['n'])
        tgt = pred[tgt]
    return ' <- '.join(r)


def is_nd(i):
    if i[0] == 'pred':
        return type(i[1]) is tuple and i[1] and i[1][0] == 'nondet'
    a = dd.ATOMS[i[1]]
    return str(a.name).startswith('nondet:')


def any_nd(c):
    """there is a choice of the nondeterministic values for which c"""
    if type(c) is int:
        return c
    for v in sorted(dd.support(c), reverse=True):
        if is_nd(dd.VARS[v]):
            p = dd.mk(v, 0, 1)
            c = dd.bor(dd.restrict(dd.band(c, p), p), dd.restrict(dd.band(c, dd.bnot(p)), dd.bnot(p)))
    return c


def has_nd(x):
    if type(x) is Run:
        return x.name.startswith('nondet:') or has_nd(x.len) or (x.info is not None and any(has_nd(y) for y in x.info[1:]))
    if type(x) in SCALARS and type(x) is not int:
        acc, unk = dd.base_atoms(x)
        return any(str(dd.ATOMS[a].name).startswith('nondet:') for a in acc) or \
            any(dd.VARS[v][0] == 'pred' and is_nd(dd.VARS[v]) for v in dd.support(x))
    return False


def c31(ck):
    rule = 'same'
    ck.rule(rule, 'assembling the same source twice, one after the other, gives the same bytes')
    ck.rule('depend', 'no byte of the object depends on a value the source text does not determine')
    ck.rule('source', 'a source of nondeterminism that can be reached from the entry points is shown to have no influence on the object')
    I = ck.interp()
    B = ck.interp('bin')
    w = home(I, ASM, 'read_from')
    NAME = 'vprobe::asm::asm_twice'
    seen = {}
    und = [0]
    sites = []
    for P in (I.P, B.P):
        for s in sources(P):
            if s[:4] not in [x[0][:4] for x in sites]:
                sites.append((s, P))
    ck.counts['functions_scanned'] = sum(1 for P in (I.P, B.P) for f in P.fns if f['c'].startswith('at_') and f.get('body'))
    ck.counts['call_sites_scanned'] = sum(1 for P in (I.P, B.P) for f in P.fns if f['c'].startswith('at_') and f.get('body') for bl in f['body']['blocks'] if bl['t'][0] == 'call')
    ck.counts['sources_found'] = len(sites)

    def depends(pc, val, tag, show, whence):
        bad = 0
        for i, x in enumerate(val.e):
            if not has_nd(x):
                continue
            bad += 1
            if bad > 40:
                break
            if type(x) is Run:
                ck.ob(any_nd(pc), 0, 'depend', w, '%s: the object contains %s' % (tag, whence), show)
                return
            y = simp_val(x, pc)
            hit = 0
            for b in dd.to_bits(y, 8):
                k = dd.band(any_nd(dd.band(pc, b)), any_nd(dd.band(pc, dd.bnot(b))))
                hit = dd.bor(hit, k)
            if not ck.ob(hit, 0, 'depend', w, '%s: byte %d of the object depends on %s' % (tag, i, whence), show):
                return

    def compare(outs, get, tag, show, sw):
        """executions that differ only in nondeterministic choices must agree"""
        for a in range(len(outs)):
            for b in range(a):
                x, y = outs[a], outs[b]
                pc = dd.band(any_nd(x.st.pc), any_nd(y.st.pc))
                if type(pc) is int and pc == 0:
                    continue
                if x.kind == 'undec' or y.kind == 'undec':
                    continue
                if (x.kind == 'ret') != (y.kind == 'ret'):
                    ck.ob(pc, 0, 'depend', sw, '%s: accepted or refused, depending on %s' % (tag, whence(x, y)), show)
                elif x.kind == 'ret':
                    p, q = get(x), get(y)
                    if type(p) is Seq and type(q) is Seq:
                        same(ck, pc, p, q, 'depend', sw, '%s: the object depends on %s' % (tag, whence(x, y)), show)

    def whence(*os_):
        r = []
        for o in os_:
            for e in o.st.events():
                if e[0] == 'nondet' and e[1] not in r:
                    r.append(e[1])
        return ', '.join(r) or 'something outside the source text'

    def one(p):
        st = State()
        outs = ck.outs(I, NAME, [put(st, Seq(tuple(p.text)), True)], st, p.pc)
        nd = False
        for o in outs:
            for e in o.st.events():
                if e[0] == 'nondet':
                    seen[e[1]] = 1
                    nd = True
            if o.kind == 'undec':
                und[0] += 1
                ck.undecided(rule, w, p.tag, '%s at %s' % (o.val, o.where))
            if o.kind != 'ret':
                continue
            a, b = o.val.f
            if type(a) is not Seq or type(b) is not Seq:
                ck.undecided(rule, w, p.tag, 'the object is not a byte list')
                continue
            if not any(e[0] == 'nondet' for e in o.st.events()):
                same(ck, o.st.pc, a, b, rule, w, p.tag + ': the second object differs from the first', p.show)
            else:
                depends(o.st.pc, a, p.tag, p.show, whence(o))
        if nd:
            compare(outs, lambda o: o.val.f[0], p.tag, p.show, w)

    def prog(p):
        outs = start(ck, B, ['at-asm', 'in.asm'], [('in.asm', Seq(tuple(p.text)))], p.pc)
        nd = False
        for o in outs:
            for e in o.st.events():
                if e[0] == 'nondet':
                    seen[e[1]] = 1
                    nd = True
            if o.kind == 'undec':
                und[0] += 1
                ck.undecided('depend', w, p.tag, '%s at %s' % (o.val, o.where))
            elif o.kind == 'ret':
                g = o.st.h.get('fs:in.o')
                if type(g) is Seq:
                    if any(e[0] == 'nondet' for e in o.st.events()):
                        depends(o.st.pc, g, p.tag, p.show, whence(o))
                    else:
                        ck.passed('depend', w, p.tag + ': nothing but the source text was consulted')
        if nd:
            compare(outs, lambda o: o.st.h.get('fs:in.o'), p.tag, p.show, w)
    from .p_asm import fixed, generated
    ps = list(fixed('C31')) + list(generated('C31', ck.seed, 20 if ck.tier == 'quick' else 400, 2, 9))
    for p in ps:
        ck.guard(rule, p.tag, lambda: one(p))
    for q, p in enumerate(ps):
        if q % 3 == 0 or ck.tier != 'quick':
            ck.guard('depend', p.tag, lambda: prog(p))
    for (what, strong, fn, place, calm), P in sites:
        where = '%s (%s)' % (fn, place)
        decided = not und[0] and (what in seen or (what.startswith('the iteration order') and any(k.startswith('the iteration order') for k in seen)))
        if decided:
            ck.passed('source', where, what)
        elif strong or (und[0] and not calm):
            ck.fail('source', where, '%s is consulted, and nothing shows that it has no influence on the object' % what, 'reached by ' + callers(P, fn))
        else:
            ck.undecided('source', where, what, 'not reached by the analysed programs')
    if not sites:
        ck.passed('source', 'all crates', 'no call site consults a source of nondeterminism')
    ck.assume += ['standard library functions other than the listed sources are functions of their arguments', 'a hash table shows its entries in the order of insertion or in the reverse order']
    return dict(level='other', explanation='every call site of every workspace function reachable from the program and library entry points is scanned for sources of nondeterminism; the assembler is run '
                'abstractly twice in a row on symbolic programs, with the sources (clock, environment, addresses, hash order, state kept in statics) as free values, and the two objects are compared', floor=40)
