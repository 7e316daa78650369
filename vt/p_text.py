"""at-asm: C23 - C27 and C33.  What the text of a line means: registers, numbers, strings, separators, trailing text."""
import random

from . import asmprog as ap
from . import dd
from .asmprog import (ASM, Names, Prog, St, REGS, R16, R32, R64, WIDTH, assemble, content, data, el, empty, glob, label, lit, mov_imm,
                      mov_rr, mov_sym, num, push_i, push_r, ret, section, syscall, walks)
from .chk import all_eq, home, put, simp_val
from .dd import Undecided
from .interp import State
from .macho import File, Malformed
from .values import Run, Seq

EXPL = ('abstract interpretation of at_asm::Assembler (read_from, write_into and everything below) on lines whose numbers, strings, words and white space are symbolic; '
        'the object that results is read back by an independent Mach-O reader and an independent x86-64 decoder')


def run(ck, rule, progs, hint, acceptance=True, fn=content):
    I = ck.interp()

    def go():
        w = home(I, ASM, hint)
        for p in progs:
            try:
                for pc, f in assemble(ck, I, p, rule, acceptance):
                    fn(ck, pc, f, p, rule, w)
            except (Undecided, Malformed) as e:
                ck.undecided(rule, w, p.tag, str(e))
    ck.guard(rule, 'programs', go)


def chunks(xs, n):
    for i in range(0, len(xs), n):
        yield xs[i:i + n]


# ---------------------------------------------------------------------- C23
def c23_progs(ck):
    deep = ck.tier != 'quick'
    for w in (64, 32, 16):
        for how in ('dec', 'hex'):
            for i, regs in enumerate(chunks(REGS[w], 4)):
                N = Names('C23.i%d%s%d' % (w, how, i))
                ls = []
                ok = 1
                for r in regs:
                    t, v = getattr(N, how)(64)
                    ok = dd.band(ok, dd.le(v, (1 << w) - 1))
                    ls.append(mov_imm(w, r, t, v))
                yield Prog('mov %s, %s literal' % ('/'.join(regs), how), N, ls, ok)
    rnd = random.Random('C23 %d' % ck.seed)
    for w in (64, 32, 16):
        R = REGS[w]
        if deep:
            ps = [(a, b) for a in R for b in R]
        else:
            k = rnd.randint(1, 15)
            ps = [(R[i], R[-1 - i]) for i in range(16)] + [(R[i], R[(i + k) % 16]) for i in range(16)]
        for i, c in enumerate(chunks(ps, 32)):
            N = Names('C23.rr%d.%d' % (w, i))
            yield Prog('mov between %d bit registers %d' % (w, i), N, [mov_rr(w, a, b) for a, b in c])
    yield Prog('push of every register', None, [push_r(r) for r in R64])
    for how in ('dec', 'hex'):
        N = Names('C23.push' + how)
        t, v = getattr(N, how)(64)
        yield Prog('push of a %s literal' % how, N, [push_i(t, v)], dd.le(v, (1 << 31) - 1))
    N = Names('C23.sum')
    for w in (64, 32, 16):
        for sg in '+-':
            N = Names('C23.sum%d%s' % (w, sg))
            (t, v), (u, x) = N.dec(64), N.hex(64)
            r = dd.wrap(dd.add(v, x) if sg == '+' else dd.sub(v, x), 64, False)
            yield Prog('mov %s, a %s b' % (REGS[w][9], sg), N, [mov_imm(w, REGS[w][9], el(t, ' %s ' % sg, u), r)], dd.le(r, (1 << w) - 1))
    yield Prog('ret and syscall', None, [ret(), syscall(), ret(), ret(), syscall()])
    for w in (64, 32):
        N = Names('C23.sym%d' % w)
        n = N.name(5)
        yield Prog('mov r%d, symbol' % w, N, [mov_sym(w, r, n) for r in REGS[w]] + [label(n)])


def c23(ck):
    ck.rule('insn', 'every line assembles to the bytes that decode to the instruction it writes; an immediate that does not fit is refused')
    run(ck, 'insn', c23_progs(ck), 'read_from')
    ck.assume += ['literals are written in full (any 64 bit value) in decimal or hexadecimal', 'register pairs: %s' % ('all 256 of each width' if ck.tier != 'quick' else '32 of each width; the thorough tier takes all 256')]
    return dict(level='other', explanation=EXPL, floor=60)


# ---------------------------------------------------------------------- C24
def wordch(b):
    """visible, and of no meaning to the line syntax"""
    return dd.band(ap.rng(b, 33, 126), dd.bnot(ap.anyof(b, ',;":')))


def raw(ck, I, text, pc):
    st = State()
    return ck.outs(I, ASM, [put(st, Seq(tuple(text)), True)], st, pc)


def plain(es):
    out = []
    for x in es:
        if type(x) is Run:
            break
        out.append(x)
    return out


def text_of(f):
    s = ap.header(f, 'T')
    return (s, f.find(s.offset)) if s is not None else (None, None)


def c24(ck):
    from . import x86
    rule = 'names'
    ck.rule(rule, 'a word is taken for a register exactly when it is the name of that register at that width')
    I = ck.interp()
    forms = []
    for n in range(1, 6 if ck.tier == 'quick' else 8):
        forms += [('mov @, 5', n, None), ('push @', n, 64), ('mov rbx, @', n, 64), ('mov ebx, @', n, 32), ('mov bx, @', n, 16)]

    def one(form, n, w2):
        w = home(I, ASM, 'read_from')
        N = Names('C24.%s.%d' % (form.replace(' ', ''), n))
        W = N.chars(n, ap.letter, wordch)
        a, b = form.split('@')
        text = el(a, W, b, '\n')
        sizes = [16, 32, 64] if w2 is None else [w2]
        known = [(z, i, nm) for z in sizes for i, nm in enumerate(REGS[z]) if len(nm) == n]

        def sh(e):
            return 'source: ' + ap.source(e, text)
        legal = 0
        for z, i, nm in known:
            legal = dd.bor(legal, all_eq(W, list(nm.encode())))
        what = '%s with a word of %d characters' % (form, n)
        def judge(pc, f):
            _, i = text_of(f)
            if i is None:
                ck.undecided(rule, w, what, 'no text')
                return
            for c, ins in x86.decode(plain(f.e[i:i + 15]), pc):
                if type(c) is int and c == 0:
                    continue
                ok = 0
                if ins is not None:
                    for z, r, nm in known:
                        if form.startswith('mov @'):
                            good = ins.op == 'movi' and (ins.size == z or z == 64 and ins.size == 32) and dd.eq(ins.reg, r)
                        elif form.startswith('push'):
                            good = ins.op == 'push' and ins.mem is None and dd.eq(ins.reg, r)
                        else:
                            good = ins.op == 'mov_rm_r' and ins.mem is None and ins.size == z and dd.band(dd.eq(ins.reg, 3), dd.eq(ins.reg2, r))
                        if good is not False:
                            ok = dd.bor(ok, dd.band(all_eq(W, list(nm.encode())), good))
                ck.ob(c, ok, rule, w, what + ': denotes another register or width', sh)
        for o in raw(ck, I, text, N.pc):
            if o.kind == 'undec':
                ck.undecided(rule, w, what, '%s at %s' % (o.val, o.where))
                continue
            if o.kind != 'ret':
                ck.ob(o.st.pc, dd.bnot(legal), rule, w, what + ': the name of a register is not understood', sh)
                continue
            pc = o.st.pc
            if not ck.ob(pc, legal, rule, w, what + ': a word that names no such register is accepted as one', sh):
                continue
            for pc, f in ap.files(ck, pc, o.val, rule, w, what):
                judge(pc, f)
    for a in forms:
        ck.guard(rule, a[0], lambda: one(*a))
    ck.assume += ['words of 1 to %d visible characters that start with a letter; longer words are no register names' % (5 if ck.tier == 'quick' else 7)]
    return dict(level='other', explanation=EXPL, floor=20)


# ---------------------------------------------------------------------- C25
def c25_progs(ck):
    deep = ck.tier != 'quick'
    out = []

    def p(tag, N, st, ok=1):
        out.append(Prog(tag, N, [section('D'), st], ok))
    for k, w in WIDTH.items():
        for how in ('dec', 'hex'):
            N = Names('C25.%s.%s' % (k, how))
            t, v = getattr(N, how)(64)
            p('%s %s literal' % (k, how), N, data(k, [('n', t, v)]), dd.le(v, (1 << 8 * w) - 1))
        for r in range(8):
            N = Names('C25.%s.s%d' % (k, r))
            p('%s of a string of length 8q+%d' % (k, r), N, data(k, [('s', [N.str8(r)])]))
        for n in range(0, 10 if deep else 5):
            N = Names('C25.%s.c%d' % (k, n))
            p('%s of a string of %d characters' % (k, n), N, data(k, [('s', N.chars(n, ap.instring, ap.instring))]))
        for s in ('a;b', 'a, b,c', ' x ', 'section .text', 'l:', '0x10', 'mov rax, 1 ; x', '\t', 'é', '日本', 'x€', "'", '\\n', '\\', '%s{}', '7'):
            N = None
            p('%s "%s"' % (k, s), N, data(k, [lit(s)]))
        for i, sep in enumerate([', ', ',', ' ', ' , ', ' ,', '\t', ',\t ', '   ']):
            N = Names('C25.%s.l%d' % (k, i))
            its = []
            ok = 1
            for j in range(3):
                t, v = (N.dec, N.hex)[(i + j) % 2](64)
                ok = dd.band(ok, dd.le(v, (1 << 8 * w) - 1))
                its.append(('n', t, v))
            p('%s of three numbers separated by %r' % (k, sep), N, data(k, its, None, sep), ok)
            N = Names('C25.%s.m%d' % (k, i))
            t, v = N.hex(8 * w)
            u, x = N.dec(8 * w)
            its = [('n', t, v), ('s', [N.str8((3 * i + w) % 8)]), lit('q' * (i % 4)), ('n', u, x), ('s', [N.str8((i + 5) % 8)])]
            p('%s of numbers and strings separated by %r' % (k, sep), N, data(k, its, None, sep))
            p('%s of numbers and strings separated by %r, labelled' % (k, sep), N, data(k, its[1:], el('lab'), sep))
        N = Names('C25.%s.w' % k)
        t, v = N.dec(8 * w)
        u, x = N.hex(8 * w)
        p('%s with any white space' % k, N, data(k, [('n', t, v), ('s', [N.str8(1)]), ('n', u, x)], None, [N.ws(0), ord(','), N.ws(0)]))
        p('%s separated by any white space' % k, N, data(k, [('n', t, v), ('s', [N.str8(6)]), ('n', u, x)], None, [N.ws()]))
        for q in range(2 if not deep else 20):
            rnd = random.Random('C25 %s %d %d' % (k, q, ck.seed))
            N = Names('C25.%s.r%d' % (k, q))
            its = []
            for _ in range(rnd.randint(4, 9)):
                m = rnd.randint(0, 3)
                if m == 0:
                    its.append(('s', [N.str8(rnd.randint(0, 7))]))
                elif m == 1:
                    its.append(('s', N.chars(rnd.randint(0, 6), ap.instring, ap.instring)))
                elif m == 2:
                    its.append(('n',) + N.dec(8 * w))
                else:
                    its.append(('n',) + N.hex(8 * w))
            p('%s: generated list %d' % (k, q), N, data(k, its, None, rnd.choice([', ', ' ', ' , ', ','])))
    N = Names('C25.seq')
    ls = [section('D')]
    for i, k in enumerate(['db', 'dq', 'dw', 'dd', 'dw', 'db']):
        t, v = N.hex(8 * WIDTH[k])
        ls.append(data(k, [('n', t, v), ('s', [N.str8(i)])], el('l%d' % i) if i % 2 else None))
    out.append(Prog('directives of every width in a row', N, ls))
    return out


def c25(ck):
    ck.rule('data', 'a directive emits its items in order, at its width, little-endian, strings zero padded to the width; a number that does not fit is refused')
    run(ck, 'data', c25_progs(ck), 'read_from')
    ck.assume += ['strings are ASCII where they are symbolic (listed strings contain other characters too)', 'number of items per directive up to 9']
    return dict(level='other', explanation=EXPL, floor=200)


# ---------------------------------------------------------------------- C26
def hexcase(N, n):
    """n hexadecimal digits in either case"""
    nm = N.fresh('hx')
    out = []
    v = 0
    for i in range(n):
        d = dd.var('%s[%d]' % (nm, i), 0, 21)
        N.also(dd.domain(d))
        out.append(ap.lookup(d, list(b'0123456789abcdefABCDEF')))
        v = dd.add(dd.scale(v, 16), dd.from_bits(dd.to_bits(dd.restrict(ap.lookup(d, list(range(16)) + list(range(10, 16))), N.pc), 4)))
    return el('0x', out), v


def c26_progs(ck):
    M = (1 << 64) - 1
    lens = (1, 2, 3, 5, 19, 20, 21, 24) if ck.tier == 'quick' else tuple(range(1, 41))
    hlens = (1, 2, 4, 7, 8, 15, 16, 17, 20) if ck.tier == 'quick' else tuple(range(1, 33))
    lits = [('any decimal literal', lambda N: N.dec(64), False), ('any hexadecimal literal', lambda N: N.hex(64), False),
            ('any decimal literal up to 2^80', lambda N: N.dec(0, 0, 1 << 80), True), ('any hexadecimal literal up to 2^80', lambda N: N.hex(0, 0, 1 << 80), True)]
    for n in lens:
        lits.append(('%d decimal digits' % n, lambda N, n=n: N.digits(n), n > 19))
    for n in hlens:
        lits.append(('%d hexadecimal digits' % n, lambda N, n=n: N.digits(n, 16), n > 16))
    for n in (1, 2, 4):
        lits.append(('%d hexadecimal digits of either case' % n, lambda N, n=n: hexcase(N, n), False))
    for v in (0, 1, 9, 10, 127, 128, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, M, M + 1, M + 2, 10 * M, 1 << 65, 1 << 128):
        lits.append(('%d' % v, lambda N, v=v: (el(str(v)), v), v > M))
        lits.append(('0x%x' % v, lambda N, v=v: (el('0x%x' % v), v), v > M))
        lits.append(('0x%X' % v, lambda N, v=v: (el('0x%X' % v), v), v > M))
    lits += [('leading zeros', lambda N: (el('0000000000000000000000000000012'), 12), False), ('leading zeros (hexadecimal)', lambda N: (el('0x00000000000000000000012'), 18), False)]
    for i, (tag, mk, big) in enumerate(lits):
        for form in ('dq', 'mov'):
            if form == 'mov' and big and 'hexadecimal digits' in tag:
                continue
            N = Names('C26.l%d%s' % (i, form))
            t, v = mk(N)
            ok = dd.le(v, M) if type(v) is not int else int(v <= M)
            if type(v) is int and v > M:
                v = 0
            if form == 'dq':
                if type(ok) is int and ok == 0 or not big:
                    st = data('dq', [('n', t, v)])
                else:
                    st = data('dq', [('n', t, dd.wrap(v, 64, False))])
            else:
                st = mov_imm(64, 'r11', t, v if not big or type(v) is int else dd.wrap(v, 64, False))
            yield Prog('%s in %s' % (tag, form), N, [st], ok)
    # junk that must not be taken for a number
    for j in ('0x', '0x0x5', '1_000', '12a', '0b1', '-5', '0xg', '5h', '1.5', '1e3', '0x 5', '5-', '0x-5', "'a'", '--1', '0x1_0', '1 000x', '٣', '\uff11', '0o7', '0h1'):
        yield Prog('db %s' % j, None, [St(el('db ' + j), None)], 0)
        yield Prog('push %s' % j, None, [St(el('push ' + j), None)], 0)
        if ' ' not in j:
            yield Prog('mov cx, %s' % j, None, [St(el('mov cx, ' + j), None)], 0)
            yield Prog('mov rcx, 1 + %s' % j, None, [St(el('mov rcx, 1 + ' + j), None)], 0)
            yield Prog('mov rcx, %s - 1' % j, None, [St(el('mov rcx, ' + j + ' - 1'), None)], 0)
    # sums
    for a in ('dec', 'hex'):
        for b in ('dec', 'hex'):
            for sg in '+-':
                N = Names('C26.s%s%s%s' % (a, b, sg))
                (t, v), (u, x) = getattr(N, a)(64), getattr(N, b)(64)
                r = dd.wrap(dd.add(v, x) if sg == '+' else dd.sub(v, x), 64, False)
                yield Prog('%s %s %s' % (a, sg, b), N, [mov_imm(64, 'rdx', el(t, ' %s ' % sg, u), r)])
                N = Names('C26.z%s%s%s' % (a, b, sg))
                (t, v), (u, x) = getattr(N, a)(64), getattr(N, b)(64)
                r = dd.wrap(dd.add(v, x) if sg == '+' else dd.sub(v, x), 64, False)
                yield Prog('%s %s %s in 16 bits' % (a, sg, b), N, [mov_imm(16, 'dx', el(t, ' %s ' % sg, u), r)], dd.le(r, 65535))
    for q, (a, b) in enumerate([(0, 0), (0, 1), (M, 1), (M, M), (1, M), (5, 5), (1 << 63, 1 << 63), (0, M)]):
        for sg in '+-':
            r = (a + b if sg == '+' else a - b) & M
            yield Prog('%d %s %d' % (a, sg, b), None, [mov_imm(64, 'rdx', el('%d %s 0x%x' % (a, sg, b)), r)])
    for x in ('5 +', '5 -', '+ 5', '- 5', '5 5', '5 + + 5', '5 * 5', '5 + 5 + 5', '5 + rax', '5 - x', '5 + 99999999999999999999', '99999999999999999999 + 5', '0x10000000000000000 - 1', '5 +-'):
        yield Prog('mov rax, %s' % x, None, [St(el('mov rax, ' + x), None)], 0)


def c26(ck):
    ck.rule('number', 'a literal denotes its value, a larger one is refused; sums and differences are taken modulo 2^64')
    run(ck, 'number', c26_progs(ck), 'read_from')
    ck.assume += ['literals: any value written in any number of digits up to 40, and every text of the listed numbers of digits']
    return dict(level='other', explanation=EXPL, floor=150)


# ---------------------------------------------------------------------- C27
FORMS = ['section .text', 'section .data', 'section .bss', 'global foo', 'foo:', 'ret', 'syscall', 'push rax', 'push r15', 'push 5', 'push 0x1ff', 'mov rax, 5', 'mov r9, 0x10',
         'mov rax, 5 + 6', 'mov rax, 6 - 5', 'mov rax, rbx', 'mov rax, foo', 'mov eax, 5', 'mov r8d, 5 - 1', 'mov eax, ebx', 'mov eax, foo', 'mov ax, 5', 'mov r8w, 1 + 1', 'mov ax, bx',
         'db 1', 'dw 1, 2', 'dd "x"', 'dq 1', 'foo db 1', 'bar dw "ab", 3', 'foo dd 7', 'foo dq "x"']
DATA = ('db', 'dw', 'dd', 'dq')


def junkch(b):
    return dd.band(ap.rng(b, 33, 126), dd.bnot(ap.anyof(b, ';"')))


def junk1(b):
    """first character of trailing text that is no item of a data directive"""
    return dd.band(junkch(b), dd.bnot(dd.bor(ap.digit(b), ap.anyof(b, '+,'))))


def c27_progs(ck):
    top = 3 if ck.tier == 'quick' else 5
    for i, f in enumerate(FORMS):
        isdata = any(k in f.split() for k in DATA)
        pre = [label(el('foo'))] if 'foo' in f and f.startswith('mov') else []
        for n in range(1, top + 1):
            for sep in (' ', '\t', ', ', ',', '  ') if not (isdata and n > 1) else (' ', ', '):
                if sep in (',',) and not isdata and 'mov' not in f and 'push' not in f:
                    continue
                N = Names('C27.%d.%d%s' % (i, n, sep.encode().hex()))
                first = junk1 if isdata else (lambda b: dd.band(junkch(b), dd.bnot(ap.anyof(b, ','))))
                W = N.chars(n, first, junkch)
                t = el(f, sep, W)
                yield Prog('%s%s<%d characters>' % (f, sep, n), N, pre + [St(t, None)], 0)
        for n in (4, 5, 6, 7, 8) if ck.tier == 'quick' else (6, 7, 8, 9, 10, 12, 16):
            N = Names('C27.%d.w%d' % (i, n))
            yield Prog('%s <word of %d characters>' % (f, n), N, pre + [St(el(f, ' ', N.chars(n, lambda b: dd.band(junk1(b), dd.bnot(ap.anyof(b, ','))), junkch)), None)], 0)
        for j in ('ret', 'mov rax, 1', 'section .text', 'foo2:', 'x y', 'rax', ': ;', '# c', '// c', '5 rax' if not isdata else 'rax 5', '+ 1' if not isdata and 'mov' not in f else '* 2'):
            yield Prog('%s %s' % (f, j), None, pre + [St(el(f + ' ' + j), None)], 0)
        if isdata:
            for j in ('5x', '0x', '"', '"a', '5 "', "'a'"):
                yield Prog('%s %s' % (f, j), None, [St(el(f + ', ' + j), None)], 0)
        else:
            N = Names('C27.%d.d' % i)
            yield Prog('%s <number>' % f, N, pre + [St(el(f, ' ', N.dec(64)[0]), None)], 0)
            yield Prog('%s, <number>' % f, N, pre + [St(el(f, ', ', N.dec(64)[0]), None)], 0)
            yield Prog('%s <string>' % f, N, pre + [St(el(f, ' "', N.chars(3, ap.instring, ap.instring), '"'), None)], 0)
    for f in ('foo::', 'foo:bar', 'foo: bar:', 'foo:db 1', 'foo:ret', 'sectionx .text', 'section.text', 'section .text.', 'section .textx', 'section ".text"', 'globalfoo', 'retx', 'ret;', 'syscalls',
              'movrax, 5', 'mov rax 5', 'mov rax', 'mov', 'push', 'pushrax', 'mov , 5', 'mov rax,', 'mov rax,,5', 'mov rax rbx, 5', 'mov rax,5 6', 'db', 'foo db', 'foo bar db 1', 'db1', 'global', 'section',
              'foo bar', 'foo', ':', 'db "a" "b', 'db 1 2 x', 'push 1 2', 'push 1, 2', 'push rax rbx', 'mov ax, 1 2', 'mov r8d, 1 +', 'mov eax, ebx ecx', 'mov ax, bx cx', 'mov rax, foo foo', 'section .text .data',
              'global foo bar', 'global foo, bar', 'ret 5', 'syscall 0x80', 'foo: db 1', 'foo: ret', 'rep ret', 'lock mov rax, 5'):
        if f in ('ret;', 'foo::', ':'):
            continue
        yield Prog(f, None, [label(el('foo0')), St(el(f), None)], 0)


def c27(ck):
    rule = 'whole'
    ck.rule(rule, 'no object is produced from a line that carries more than a complete statement')
    I = ck.interp()

    def go():
        w = home(I, ASM, 'read_from')
        for p in c27_progs(ck):
            try:
                for o in raw(ck, I, p.text, p.pc):
                    if o.kind == 'undec':
                        ck.undecided(rule, w, p.tag, '%s at %s' % (o.val, o.where))
                    elif o.kind == 'ret':
                        ck.ob(o.st.pc, 0, rule, w, p.tag + ': assembled although the line carries more than the statement', p.show)
                    else:
                        ck.passed(rule, w, p.tag + ': refused')
            except Undecided as e:
                ck.undecided(rule, w, p.tag, str(e))
    ck.guard(rule, 'lines', go)
    ck.assume += ['trailing text: one word of up to %d arbitrary visible characters, any number, any string, and the listed texts' % (3 if ck.tier == 'quick' else 5)]
    return dict(level='other', explanation=EXPL, floor=300)


# ---------------------------------------------------------------------- C33
# ~ white space that must be there, _ white space that may be there, {x} symbolic parts
SHAPES = ['section~.data', 'section~.text', 'section~.bss', 'global~{n}', '{n}:', 'ret', 'syscall', 'push~rbx', 'push~{d31}', 'mov~rax_,_{d64}', 'mov~r10d_,_{h32}', 'mov~cx_,_{d16}', 'mov~rax_,_r9',
          'mov~r9d_,_esi', 'mov~ax_,_r9w', 'mov~rdi_,_{d64}~+~{h64}', 'mov~rdi_,_{h64}~-~{d64}', 'mov~esi_,_{d8}~+~{d8}', 'mov~rsi_,_{m}', 'mov~edi_,_{m}', 'db~{d8}', 'db~{d8}_,_{h8}_,_{d8}', 'dw~{s}_,_{d16}',
          'dd~{d32}_,_{s}', 'dq~{s}_,_{s}', 'lab~db~{d8}_,_{s}', 'lab~dw~{s}', 'lab~dd~{h32}', 'lab~dq~{d64}_,_{h64}',
          'db~{q0}_,_{d8}', 'lab~db~{q1}_,_{q2}', 'dw~{q3}_,_{q4}_,_{h16}', 'dq~{q5}', 'dd~{q6}_,_{d32}']

# strings with characters that mean something outside a string
QUOTED = ['a;b', ';', ' ; section .text', 'x: db 1, 2', '\t two  blanks ', "it's;", 'global x ;;']


def pieces(shape):
    out = []
    cur = ''
    i = 0
    while i < len(shape):
        c = shape[i]
        if c in '~_' or c == '{':
            if cur:
                out.append(('t', cur))
                cur = ''
            if c == '{':
                j = shape.index('}', i)
                out.append(('v', shape[i + 1:j]))
                i = j
            else:
                out.append((c, ''))
        else:
            cur += c
        i += 1
    if cur:
        out.append(('t', cur))
    return out


class Ctx:
    """a program of two or three lines around one line under test"""

    def __init__(self, tag, shape):
        self.N = Names(tag)
        self.vals = []
        self.shape = [('_', '')] + pieces(shape) + [('_', '')]
        self.name = shape
        self.m = self.N.name(4)
        for k, v in self.shape:
            if k != 'v':
                continue
            if v in ('n', 'm'):
                self.vals.append(self.m)
            elif v == 's':
                self.vals.append(el('"', self.N.str8(len(self.vals) + 2), '"'))
            elif v[0] == 'q':
                self.vals.append(el('"' + QUOTED[int(v[1:])] + '"'))
            else:
                self.vals.append((self.N.dec if v[0] == 'd' else self.N.hex)(int(v[1:]))[0])
        self.refers = '{m}' in shape or 'global' in shape
        self.gaps = [i for i, (k, _) in enumerate(self.shape) if k in '~_']

    def line(self, gap):
        """gap(i, kind, normal) -> elements"""
        out = []
        it = iter(self.vals)
        for i, (k, v) in enumerate(self.shape):
            if k == 't':
                out += el(v)
            elif k == 'v':
                out += next(it)
            else:
                normal = [32] if k == '~' or (out and out[-1] == 44) else []
                out += gap(i, k, normal)
        return out

    def around(self, mid, nl=(10,), last=True):
        pre = el('section .data', list(nl), 'db 7', list(nl), 'section .text', list(nl), 'push rcx', list(nl))
        post = el('section .text', list(nl), 'ret')
        if self.refers:
            post += el(list(nl), self.m, ':')
        if last:
            post += list(nl)
        return pre + mid + post


def variants(ck, C):
    """(what, text) of programs that mean the same"""
    N = C.N
    same = lambda i, k, n: n
    NL = [10]

    def cls(k):
        return N.ws(1 if k == '~' else 0)
    yield 'white space between all tokens', C.around(C.line(lambda i, k, n: [cls(k)]) + NL)
    for g in C.gaps:
        yield 'white space at place %d' % g, C.around(C.line(lambda i, k, n: [cls(k)] if i == g else n) + NL)
        yield 'a tab at place %d' % g, C.around(C.line(lambda i, k, n: [9] if i == g else n) + NL)
    yield 'the least white space', C.around(C.line(lambda i, k, n: [32] if k == '~' else []) + NL)
    t = C.line(same)
    yield 'a comment', C.around(t + el(';', N.run(ap.printable, 0, 1 << 16, 'rem')) + NL)
    yield 'a comment after white space', C.around(t + el(N.ws(), ';', N.run(ap.printable, 0, 1 << 16, 'rem')) + NL)
    yield 'a comment with a semicolon and quotes', C.around(t + el(' ; "a ; b" \' ";') + NL)
    yield 'a comment with an open quote', C.around(t + el(' ; say "') + NL)
    for c in (';', ';;', ' ;"', ' ; it\'s "one" "', '\t; ";" ; "', ' ;a,b: "c'):
        yield 'a comment `%s`' % c.strip(), C.around(t + el(c) + NL)
    yield 'a comment with a statement', C.around(t + el('; ret') + NL)
    yield 'an empty line before', C.around(NL + t + NL)
    yield 'an empty line after', C.around(t + NL + NL)
    yield 'a blank line before', C.around(el(N.ws()) + NL + t + NL)
    yield 'a blank line after', C.around(t + NL + el(N.ws()) + NL)
    yield 'a comment line before', C.around(el(N.ws(0), ';', N.run(ap.printable, 0, 1 << 16, 'rem')) + NL + t + NL)
    yield 'comment lines around', C.around(el('; x: db 1') + NL + t + NL + el('\t;') + NL)
    yield 'no end of line at the end', C.around(t + NL, last=False)
    yield 'carriage returns', C.around(t + [13, 10], nl=(13, 10))
    if ck.tier != 'quick':
        for g in C.gaps:
            yield 'a form feed at place %d' % g, C.around(C.line(lambda i, k, n: [12] if i == g else n) + NL)
            yield 'two tabs and a blank at place %d' % g, C.around(C.line(lambda i, k, n: [9, 9, 32] if i == g else n) + NL)
            for h in C.gaps:
                if h > g:
                    yield 'white space at places %d and %d' % (g, h), C.around(C.line(lambda i, k, n: [cls(k)] if i in (g, h) else n) + NL)
        yield 'many empty lines', C.around(NL * 9 + t + NL * 5)


def same_elems(pc, a, b):
    if len(a) != len(b):
        return None
    ok = 1
    for x, y in zip(a, b):
        if type(x) is Run or type(y) is Run:
            if x == y:
                continue
            if type(x) is Run and type(y) is Run and x.name == y.name and x.info == y.info:
                d = dd.band(dd.eq(x.off, y.off), dd.eq(x.len, y.len))
                c = dd.band(pc, dd.bnot(d))
                if type(c) is int and c == 0:
                    continue
            return None
        ok = dd.band(ok, dd.eq(x, y))
    return ok


def c33(ck):
    rule = 'layout'
    ck.rule(rule, 'the same statements with other white space, blank lines and comments give the same object')
    I = ck.interp()

    def one(q, shape):
        w = home(I, ASM, 'read_from')
        C = Ctx('C33.%d' % q, shape)
        sfx = []
        base = C.around(C.line(lambda i, k, n: n) + [10])
        ref = []
        for o in raw(ck, I, base, C.N.pc):
            if o.kind == 'undec':
                ck.undecided(rule, w, shape, '%s at %s' % (o.val, o.where))
            else:
                ref.append(o)
        for what, text in variants(ck, C):
            def sh(e, text=text):
                return 'source: %s; plainly: %s' % (ap.source(e, text), ap.source(e, base))
            for o in raw(ck, I, text, C.N.pc):
                tag = '%s: %s' % (shape, what)
                if o.kind == 'undec':
                    ck.undecided(rule, w, tag, '%s at %s' % (o.val, o.where))
                    continue
                for r in ref:
                    pc = dd.band(o.st.pc, r.st.pc)
                    if type(pc) is int and pc == 0:
                        continue
                    if (o.kind == 'ret') != (r.kind == 'ret'):
                        ck.ob(pc, 0, rule, w, tag + ': %s, the plain text is %s' % (('assembled', 'refused') if o.kind == 'ret' else ('refused', 'assembled')), sh)
                        continue
                    if o.kind != 'ret':
                        ck.passed(rule, w, tag + ': refused alike')
                        continue
                    a = simp_val(o.val, pc)
                    b = simp_val(r.val, pc)
                    if a == b:
                        ck.passed(rule, w, tag + ': the same object')
                        continue
                    ok = same_elems(pc, a.e, b.e)
                    if ok is None:
                        # of different shape: judged on the contents
                        if all(type(x) is not Run for x in a.e + b.e):
                            ck.ob(pc, 0, rule, w, tag + ': another object', sh)
                        else:
                            differ(ck, pc, a, b, rule, w, tag, sh)
                        continue
                    ck.ob(pc, ok, rule, w, tag + ': another object', sh)
    for q, s in enumerate(SHAPES):
        ck.guard(rule, s, lambda: one(q, s))
    ck.assume += ['white space is made of blanks and tabs (form feeds in the thorough tier), of any length up to 65536; comments are printable ASCII of any length']
    return dict(level='other', explanation=EXPL, floor=300)


def differ(ck, pc, a, b, rule, w, tag, sh):
    """two objects of different shape: a definite difference in the sizes, or undecided"""
    def length(s):
        n = 0
        for x in s.e:
            n = dd.add(n, x.len if type(x) is Run else 1)
        return n
    same = dd.eq(length(a), length(b))
    bad = dd.band(pc, dd.bnot(same))
    if not (type(bad) is int and bad == 0):
        ck.ob(pc, same, rule, w, tag + ': an object of another size', sh)
    else:
        ck.undecided(rule, w, tag, 'the objects have different shapes')
