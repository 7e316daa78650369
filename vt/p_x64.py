"""at-x64: C01 - C05."""
from . import dd, x86
from .chk import (Check, adt, all_eq, eqs, enum, evs, from_le, hexs, lookup, new_state, put, simp_val, struct, variant, vnames)
from .dd import Undecided
from .values import Agg, Seq, Ref

T = 'at_x64::reg::Reg%d'
MEM = 'at_x64::mem::Mem64'
X = 'vprobe::x64::'

# probe entry -> the repository construct it exercises
SRC = {
    'mov_r64_r64': '<Mov<Reg64, Reg64> as Instruction>::bytecode', 'mov_r32_r32': '<Mov<Reg32, Reg32> as Instruction>::bytecode',
    'mov_r16_r16': '<Mov<Reg16, Reg16> as Instruction>::bytecode', 'mov_r64_imm': '<Mov<Reg64, u64> as Instruction>::bytecode',
    'mov_r32_imm': '<Mov<Reg32, u32> as Instruction>::bytecode', 'mov_r16_imm': '<Mov<Reg16, u16> as Instruction>::bytecode',
    'mov_mem_r64': '<Mov<Mem64, Reg64> as Instruction>::bytecode', 'lea': '<Lea<Reg64, Mem64> as Instruction>::bytecode',
    'push_i8': '<Push<u8> as Instruction>::bytecode', 'push_i16': '<Push<u16> as Instruction>::bytecode',
    'push_i32': '<Push<u32> as Instruction>::bytecode', 'push_r16': '<Push<Reg16> as Instruction>::bytecode',
    'push_r64': '<Push<Reg64> as Instruction>::bytecode', 'pop_r16': '<Pop<Reg16> as Instruction>::bytecode',
    'pop_r64': '<Pop<Reg64> as Instruction>::bytecode', 'ret': '<Ret as Instruction>::bytecode', 'syscall': '<Syscall as Instruction>::bytecode',
    'imm_off_r64': 'Mov::<Reg64, u64>::offset_to_imm_bytes', 'imm_off_r32': 'Mov::<Reg32, u32>::offset_to_imm_bytes',
}


def where(I, n):
    """the workspace functions behind a probe entry, with file:line of the first"""
    P = I.P
    fid = P.byname.get(X + n)
    name = SRC.get(n, n)
    if fid is None:
        return name
    for b in P.fns[fid]['body']['blocks']:
        t = b['t']
        if t[0] == 'call' and t[1] and (t[1].get('i') or -1) >= 0:
            g = P.fns[t[1]['i']]
            if g['c'].startswith('at_'):
                return '%s (%s)' % (g['n'], short(g['sp']))
            if g['c'] == 'vprobe':
                for b2 in g['body']['blocks']:
                    u = b2['t']
                    if u[0] == 'call' and u[1] and (u[1].get('i') or -1) >= 0:
                        h = P.fns[u[1]['i']]
                        if h['c'].startswith('at_') and 'bytecode' in h['n']:
                            return '%s (%s)' % (h['n'], short(h['sp']))
    return name


def short(sp):
    f = sp[0]
    i = f.find('at-')
    return '%s:%d' % (f[i:] if i >= 0 else f, sp[1])


class Reg:
    def __init__(self, P, w, var):
        self.names = vnames(P, T % w)
        for n in self.names:
            if n not in x86.NUM:
                raise Undecided('unknown register %s' % n)
        self.sym = dd.var(var, 0, len(self.names) - 1)
        self.val = Agg(self.sym, ())
        self.pc = dd.domain(self.sym)
        self.num = lookup(self.sym, [x86.NUM[n] for n in self.names])

    def show(self, env):
        return self.names[int(env.val(self.sym))]


def results(ck, I, rule, n, args, pc, show):
    """(pc, bytes) of every returning path; panics are violations, gaps are undecided"""
    out = []
    w = where(I, n)
    for o in ck.outs(I, X + n, args, pc=pc):
        if o.kind == 'ret':
            out.append((o.st.pc, simp_val(o.val, o.st.pc)))
        elif o.kind == 'undec':
            ck.undecided(rule, w, n, '%s at %s' % (o.val, o.where))
        else:
            ck.ob(o.st.pc, 0, rule, w, 'panics instead of encoding: %s at %s' % (o.val, o.where), show)
    return out


def flat(v):
    if type(v) is not Seq or not v.flat():
        raise Undecided('encoded bytes are not explicit')
    return list(v.e)


def operands(P):
    """every instruction form: name -> (args, pc, expectation, show)"""
    forms = {}

    def form(n, args, pc, exp, show):
        forms[n] = (args, pc, exp, show)
    for w in (64, 32, 16):
        d = Reg(P, w, 'mrr%d.d' % w)
        s = Reg(P, w, 'mrr%d.s' % w)
        form('mov_r%d_r%d' % (w, w), [d.val, s.val], dd.band(d.pc, s.pc),
             lambda i, d=d, s=s, w=w: i.op == 'mov_rm_r' and i.mem is None and i.size == w and [(i.reg, d.num), (i.reg2, s.num)],
             lambda e, d=d, s=s: 'mov %s, %s' % (d.show(e), s.show(e)))
        d2 = Reg(P, w, 'mri%d.d' % w)
        im = dd.uvar('mri%d.imm' % w, w)

        def exp(i, d=d2, im=im, w=w):
            if i.op != 'movi' or i.size != w:
                return False
            return [(i.reg, d.num), (i.imm if i.immw == w else x86.sext(i.imm, i.immw, w), im)]
        form('mov_r%d_imm' % w, [d2.val, im], d2.pc, exp, lambda e, d=d2, im=im: 'mov %s, %#x' % (d.show(e), e.val(im)))
    for w in (8, 16, 32):
        im = dd.uvar('pi%d.imm' % w, w)

        def exp(i, im=im, w=w):
            if i.op != 'pushi' or i.size != (16 if w == 16 else 64):
                return False
            return [(x86.sext(i.imm, i.immw, 64) if i.immw < 64 else i.imm, x86.sext(im, w, 64))]
        form('push_i%d' % w, [im], 1, exp, lambda e, im=im: 'push %#x' % e.val(im))
    for op in ('push', 'pop'):
        for w in (64, 16):
            r = Reg(P, w, '%s%d.r' % (op, w))
            form('%s_r%d' % (op, w), [r.val], r.pc,
                 lambda i, r=r, w=w, op=op: i.op == op and i.mem is None and i.size == w and [(i.reg, r.num)],
                 lambda e, r=r, op=op: '%s %s' % (op, r.show(e)))
    form('ret', [], 1, lambda i: i.op == 'ret' and [], lambda e: 'ret')
    form('syscall', [], 1, lambda i: i.op == 'syscall' and [], lambda e: 'syscall')
    return forms


def mem_operands(P, tag):
    """every shape of Mem64: (value, pc, expectation on a decoded memory operand, show)"""
    out = []
    d = dd.uvar(tag + 'disp', 32)

    def base_is(m, b):
        return m.base is not None and m.base != 'rip' and [(m.base, b.num)]
    b = Reg(P, 64, tag + 'b0')

    def exp0(m):
        r = base_is(m, b)
        return r and m.index is None and r + [(m.disp, d)]
    out.append(('RegOffset', variant(P, MEM, 'RegOffset', b.val, d), b.pc, exp0,
                lambda e: '[%s + %#x]' % (b.show(e), e.val(d))))
    out.append(('RipOffset', variant(P, MEM, 'RipOffset', d), 1,
                lambda m: m.base == 'rip' and m.index is None and [(m.disp, d)], lambda e: '[rip + %#x]' % e.val(d)))
    sc = dd.var(tag + 'scale', 0, 3)
    for hasb in (True, False):
        bb = Reg(P, 64, tag + 'sb%d' % hasb)
        ix = Reg(P, 64, tag + 'ix%d' % hasb)
        bv = variant(P, 'std::option::Option<%s>' % (T % 64), 'Some', bb.val) if hasb else variant(P, 'std::option::Option<%s>' % (T % 64), 'None')
        t = P.ty(adt(P, MEM))
        vi = [i for i, v in enumerate(t['variants']) if v['n'] == 'Sib'][0]
        fs = {'base': bv, 'disp': d, 'index': ix.val, 'scale': sc}
        names = [f[0] for f in t['variants'][vi]['f']]
        if set(names) != set(fs):
            raise Undecided('fields of Mem64::Sib are %s' % names)
        v = Agg(vi, tuple(fs[n] for n in names))
        noidx = dd.eq(ix.num, 4)

        def exp(m, hasb=hasb, bb=bb, ix=ix, noidx=noidx):
            r = []
            if hasb:
                r = base_is(m, bb)
                if r is False:
                    return False
            elif m.base is not None:
                return False
            r = r + [(m.disp, d)]
            if m.index is None:
                return r + [(noidx, 1)]
            return r + [(noidx, 0), (m.index, ix.num), (m.scale, sc)]
        out.append(('Sib(base)' if hasb else 'Sib(no base)', v, dd.band(dd.band(bb.pc, ix.pc), dd.domain(sc)), exp,
                    lambda e, hasb=hasb, bb=bb, ix=ix: '[%s%s * 2^%d + %#x]' % (bb.show(e) + ' + ' if hasb else '', ix.show(e), e.val(sc), e.val(d))))
    return out


def check_decode(ck, rule, w, what, pc, v, exp, show):
    bs = flat(v)

    def sh(e, bs=bs):
        return '%s encodes to %s' % (show(e), hexs(e, bs))
    for c, i in x86.decode(bs, pc):
        if i is None:
            ck.ob(c, 0, rule, w, '%s: the bytes are not one instruction of the library' % what, sh)
            continue
        r = exp(i)
        if r is False:
            ck.ob(c, 0, rule, w, '%s: decodes to a different operation, size or operand shape (%r)' % (what, i), sh)
        elif i.n != len(bs):
            ck.ob(c, 0, rule, w, '%s: %d of %d bytes are left over after decoding' % (what, len(bs) - i.n, len(bs)), sh)
        else:
            ck.ob(c, eqs([a for a, _ in r], [b for _, b in r]), rule, w, '%s: decodes to other operands' % what, sh)


def c01(ck):
    I = ck.interp()
    P = I.P
    ck.rule('number', 'register_code() is the low three bits and is_extended() the fourth bit of the number the x86-64 manual gives the register')
    ck.rule('widen', 'to_reg64()/to_reg32() name the same hardware register')
    ck.rule('name', 'Display prints the assembler name of the register')
    ck.rule('helpers', 'the REX/ModRM helper values of Reg64 agree with its number')

    def scalar(n, args, pc, want, rule, show):
        w = where(I, n)
        for o in ck.outs(I, X + n, args, pc=pc):
            if o.kind == 'ret':
                v = o.val.v if type(o.val) is Agg else o.val
                ck.ob(o.st.pc, dd.eq(v, want), rule, w, n, lambda e, v=v: '%s: got %s, want %s' % (show(e), e.val(v), e.val(want)))
            elif o.kind == 'undec':
                ck.undecided(rule, w, n, o.val)
            else:
                ck.ob(o.st.pc, 0, rule, w, '%s panics' % n, show)
    for w in (64, 32, 16):
        r = Reg(P, w, 'c01.r%d' % w)
        if len(r.names) != 16 or sorted(x86.NUM[n] for n in r.names) != list(range(16)):
            ck.fail('number', T % w, 'the variants do not name the sixteen registers: %s' % r.names)
        ck.guard('number', 'code%d' % w, lambda: scalar('code%d' % w, [r.val], r.pc, dd.from_bits(tuple(dd.to_bits(r.num, 4))[:3]), 'number', r.show))
        ck.guard('number', 'ext%d' % w, lambda: scalar('ext%d' % w, [r.val], r.pc, dd.to_bits(r.num, 4)[3], 'number', r.show))
    r = Reg(P, 64, 'c01.h')
    lo = dd.from_bits(tuple(dd.to_bits(r.num, 4))[:3])
    hi = dd.to_bits(r.num, 4)[3]
    for n, want in (('rexr64', hi), ('rexb64', hi), ('regbits64', lo), ('rmbits64', lo), ('mode64', 3)):
        ck.guard('helpers', n, lambda: scalar(n, [r.val], r.pc, want, 'helpers', r.show))
    for n, a, b in (('widen32', 32, 64), ('widen16', 16, 32)):
        def wid():
            s = Reg(P, a, 'c01.%s' % n)
            big = vnames(P, T % b)
            tab = [big.index(next(x for x in big if x86.NUM[x] == x86.NUM[m])) for m in s.names]
            scalar(n, [s.val], s.pc, lookup(s.sym, tab), 'widen', s.show)
        ck.guard('widen', n, wid)
    for w in (64, 32, 16, 8):
        for fn in ('show%d' % w, 'show_any%d' % w):
            def shows():
                s = Reg(P, w, 'c01.%s' % fn)
                std = {n: n.lower() for n in s.names}
                for n in s.names:          # r8l is accepted for r8b (Intel manual, AMD manual)
                    if n.startswith('R') and n.endswith('L') and n[1:-1].isdigit():
                        std[n] = n.lower()
                outs = []
                wh = where(I, fn)
                for o in ck.outs(I, X + fn, [s.val], pc=s.pc):
                    if o.kind == 'undec':
                        ck.undecided('name', wh, fn, o.val)
                        continue
                    if o.kind != 'ret':
                        ck.ob(o.st.pc, 0, 'name', wh, fn + ' panics', s.show)
                        continue
                    bs = flat(o.val)
                    for k, n in enumerate(s.names):
                        c = dd.band(o.st.pc, dd.eq(s.sym, k))
                        if c == 0:
                            continue
                        want = (std[n],) if w != 8 else tuple({std[n], std[n][:-1] + 'b' if n.endswith('L') and n[1:-1].isdigit() else std[n]})
                        ok = 0
                        for t in want:
                            if len(t) == len(bs):
                                ok = dd.bor(ok, all_eq(bs, [ord(ch) for ch in t]))
                        ck.ob(c, ok, 'name', wh, 'name of %s' % n, lambda e, bs=bs: 'prints %r' % bytes(int(e.val(x)) for x in bs))
            ck.guard('name', fn, shows)
    return dict(explanation='Every register of every width is one abstract value (its enum discriminant); the accessor, widening and Display '
                'functions are interpreted over it and their results compared, for all discriminants at once, with the numbering table of the manual.', floor=60)


def c02(ck):
    I = ck.interp()
    ck.rule('decode', 'the emitted bytes decode (Intel SDM, 64-bit mode) to the same operation, operand size, registers and immediate with nothing left over')
    for n, (args, pc, exp, show) in operands(I.P).items():
        def one():
            for c, v in results(ck, I, 'decode', n, args, pc, show):
                check_decode(ck, 'decode', where(I, n), n, c, v, exp, show)
        ck.guard('decode', n, one)
    return dict(explanation='Each Instruction::bytecode is interpreted once per instruction form over symbolic registers and immediates; the resulting '
                'abstract bytes are decoded by an independent x86-64 decoder over the same value domain.', floor=17)


def c03(ck):
    I = ck.interp()
    ck.rule('memory', 'the emitted bytes decode to the same base, index, scale, displacement (mod 2^32, sign-extended) and register operand')
    ck.rule('constructor', 'Mem64::reg / reg_offset / rip_offset / sib describe the operand their arguments name')
    P = I.P
    for n, op in (('lea', 'lea'), ('mov_mem_r64', 'mov_rm_r')):
        for shape, m, mpc, mexp, mshow in mem_operands(P, 'c03.%s.' % n):
            def one():
                r = Reg(P, 64, 'c03.%s.r' % n)
                args = [r.val, m] if n == 'lea' else [m, r.val]

                def exp(i):
                    if i.op != op or i.size != 64 or i.mem is None:
                        return False
                    x = mexp(i.mem)
                    return False if x is False else x + [(i.reg if op == 'lea' else i.reg2, r.num)]

                def show(e):
                    return '%s %s %s' % (n, r.show(e), mshow(e))
                for c, v in results(ck, I, 'memory', n, args, dd.band(mpc, r.pc), show):
                    check_decode(ck, 'memory', where(I, n), '%s %s' % (n, shape), c, v, exp, show)
            ck.guard('memory', '%s %s' % (n, shape), one)

    def ctors():
        shapes = {s[0]: s for s in mem_operands(P, 'c03.ctor.')}
        ro = shapes['RegOffset'][1]
        sib = shapes['Sib(base)'][1]
        sibn = shapes['Sib(no base)'][1]
        fs = [f[0] for f in P.ty(adt(P, MEM))['variants'][sib.v]['f']]

        def g(v, k):
            return v.f[fs.index(k)]
        for n, args, want, pc in (
                ('mem_reg', [ro.f[0]], variant(P, MEM, 'RegOffset', ro.f[0], 0), shapes['RegOffset'][2]),
                ('mem_reg_offset', list(ro.f), ro, shapes['RegOffset'][2]),
                ('mem_rip_offset', list(shapes['RipOffset'][1].f), shapes['RipOffset'][1], 1),
                ('mem_sib', [g(sib, k) for k in ('base', 'disp', 'index', 'scale')], sib, shapes['Sib(base)'][2]),
                ('mem_sib', [g(sibn, k) for k in ('base', 'disp', 'index', 'scale')], sibn, shapes['Sib(no base)'][2])):
            for o in ck.outs(I, X + n, args, pc=pc):
                if o.kind == 'undec':
                    ck.undecided('constructor', where(I, n), n, o.val)
                elif o.kind != 'ret':
                    ck.ob(o.st.pc, 0, 'constructor', where(I, n), n + ' panics')
                else:
                    ck.ob(o.st.pc, val_eq(o.val, want), 'constructor', where(I, n), n)
    ck.guard('constructor', 'Mem64', ctors)
    return dict(explanation='lea and mov to memory are interpreted over every shape of Mem64 with symbolic base, index, scale, displacement and register; '
                'the abstract bytes are decoded by an independent x86-64 decoder.', floor=20)


def val_eq(a, b):
    """equality of abstract values as a condition"""
    from .values import SCALARS, Sum
    if type(a) in SCALARS and type(b) in SCALARS:
        return dd.eq(a, b)
    if type(a) is Agg and type(b) is Agg and len(a.f) == len(b.f):
        r = dd.eq(a.v, b.v)
        for x, y in zip(a.f, b.f):
            r = dd.band(r, val_eq(x, y))
        return r
    if type(a) is Agg and type(b) is Agg and type(a.v) is int and type(b.v) is int and a.v != b.v:
        return 0
    if type(a) is Sum and type(b) is Agg and type(b.v) is int:
        if b.v not in a.alts:
            return 0
        r = dd.eq(a.t, b.v)
        for x, y in zip(a.alts[b.v], b.f):
            r = dd.band(r, val_eq(x, y))
        return r
    if type(b) is Sum and type(a) is Agg:
        return val_eq(b, a)
    if type(a) is Seq and type(b) is Seq:
        if a.flat() and b.flat():
            if len(a.e) != len(b.e):
                return 0
            r = 1
            for x, y in zip(a.e, b.e):
                r = dd.band(r, val_eq(x, y))
            return r
        if a == b:
            return 1
    if a == b:
        return 1
    raise Undecided('comparison of %s with %s' % (type(a).__name__, type(b).__name__))


def c04(ck):
    I = ck.interp()
    ck.rule('offset', 'bytes[offset..] is exactly the little-endian immediate, the bytes before it do not depend on the immediate, and it ends the instruction')
    P = I.P
    for w in (64, 32):
        def one():
            n, on = 'mov_r%d_imm' % w, 'imm_off_r%d' % w
            r = Reg(P, w, 'c04.r%d' % w)
            im = dd.uvar('c04.imm%d' % w, w)
            im2 = dd.uvar('c04.other%d' % w, w)

            def show(e):
                return 'mov %s, %#x' % (r.show(e), e.val(im))
            encs = results(ck, I, 'offset', n, [r.val, im], r.pc, show)
            encs2 = results(ck, I, 'offset', n, [r.val, im2], r.pc, show)
            offs = results(ck, I, 'offset', on, [r.val, im], r.pc, show)
            wh = where(I, on)
            for c, v in encs:
                bs = flat(v)
                for c2, off in offs:
                    pc = dd.band(c, c2)
                    if pc == 0:
                        continue
                    for k in range(0, 16):
                        ck_pc = dd.band(pc, dd.eq(off, k))
                        if ck_pc == 0:
                            continue
                        if k + w // 8 != len(bs):
                            ck.ob(ck_pc, 0, 'offset', wh, 'offset %d of a %d-byte instruction: the immediate would not be its last %d bytes' % (k, len(bs), w // 8), show)
                            continue
                        ck.ob(ck_pc, dd.eq(from_le(bs[k:]), im), 'offset', wh, 'the bytes at offset %d are not the immediate' % k, show)
                        for c3, v3 in encs2:
                            both = dd.band(ck_pc, c3)
                            if both == 0:
                                continue
                            b3 = flat(v3)
                            if len(b3) != len(bs):
                                ck.ob(both, 0, 'offset', wh, 'the length depends on the immediate', show)
                            else:
                                ck.ob(both, eqs(bs[:k], b3[:k]), 'offset', wh, 'the bytes before the immediate depend on it', show)
                    ck.ob(pc, dd.le(off, 15), 'offset', wh, 'offset beyond the instruction', show)
        ck.guard('offset', 'mov r%d, imm' % w, one)
    return dict(explanation='bytecode() and offset_to_imm_bytes() are interpreted over the same symbolic register and immediate and their results related.', floor=8)


def c05(ck):
    I = ck.interp()
    ck.rule('total', 'every path of bytecode() returns (no panic, overflow or out-of-range access)')
    ck.rule('length', 'the number of bytes is between 1 and 15')
    P = I.P
    forms = dict(operands(P))
    for n in ('lea', 'mov_mem_r64'):
        for shape, m, mpc, _, mshow in mem_operands(P, 'c05.%s.' % n):
            r = Reg(P, 64, 'c05.%s.r' % n)
            forms[n, shape] = ([r.val, m] if n == 'lea' else [m, r.val], dd.band(mpc, r.pc), None,
                               lambda e, r=r, mshow=mshow, n=n: '%s %s %s' % (n, r.show(e), mshow(e)))
    for key, (args, pc, _, show) in forms.items():
        n = key if isinstance(key, str) else key[0]

        def one():
            cover = 0
            for c, v in results(ck, I, 'total', n, args, pc, show):
                cover = dd.bor(cover, c)
                bs = flat(v)
                ck.ob(c, 1 if 1 <= len(bs) <= 15 else 0, 'length', where(I, n), '%s: %d bytes' % (key, len(bs)), show)
            ck.ob(pc, cover, 'total', where(I, n), '%s: some operands do not return' % (key,), show)
        ck.guard('total', str(key), one)
    return dict(explanation='Every instruction form is interpreted over all operand values; each MIR assertion (overflow, bounds, explicit assert) is an obligation '
                'on the path conditions, and the paths that return must cover every operand value.', floor=40)
