"""An x86-64 instruction decoder over abstract bytes (Intel SDM vol. 2, 64-bit mode).

decode(bytes, pc) -> [(condition, Insn or None)] : a partition of pc; None = not an instruction
this decoder knows (invalid, or outside the subset the library can express).
"""
from . import dd

REGS64 = 'RAX RCX RDX RBX RSP RBP RSI RDI R8 R9 R10 R11 R12 R13 R14 R15'.split()
NUM = {}
for _i, _n in enumerate(REGS64):
    NUM[_n] = _i
for _i, _n in enumerate('EAX ECX EDX EBX ESP EBP ESI EDI'.split()):
    NUM[_n] = _i
for _i, _n in enumerate('AX CX DX BX SP BP SI DI'.split()):
    NUM[_n] = _i
for _i, _n in enumerate('AL CL DL BL SPL BPL SIL DIL'.split()):
    NUM[_n] = _i
for _i in range(8, 16):
    for _s in ('D', 'W', 'B', 'L'):
        NUM['R%d%s' % (_i, _s)] = _i


class Insn:
    """op; size (operand size in bits); reg / reg2: register numbers; mem; imm (value, width);
    immoff: offset of the immediate; n: length"""
    __slots__ = ('op', 'size', 'reg', 'reg2', 'mem', 'imm', 'immw', 'immoff', 'n')

    def __init__(self, op, size, n, reg=None, reg2=None, mem=None, imm=None, immw=None, immoff=None):
        self.op = op
        self.size = size
        self.n = n
        self.reg = reg
        self.reg2 = reg2
        self.mem = mem
        self.imm = imm
        self.immw = immw
        self.immoff = immoff

    def __repr__(self):
        return '%s%s%s' % (self.op, self.size, '' if self.mem is None else repr(self.mem))


class Mem:
    """base: None, 'rip' or a number; index: None or a number; scale 0..3; disp: low 32 bits of the
    sign-extended displacement; width of the displacement field and its offset"""
    __slots__ = ('base', 'index', 'scale', 'disp', 'dw', 'doff')

    def __init__(self, base, index, scale, disp, dw, doff):
        self.base = base
        self.index = index
        self.scale = scale
        self.disp = disp
        self.dw = dw
        self.doff = doff

    def __repr__(self):
        return '[%s+%s*%s+%s]' % (self.base, self.index, self.scale, self.disp)


def bits(v, lo, n):
    b = dd.to_bits(v, 8)
    return dd.from_bits(b[lo:lo + n])


def cat4(hi, lo3):
    """hi (condition) : lo3 (3-bit scalar)"""
    return dd.from_bits(tuple(dd.to_bits(lo3, 3)) + (hi,))


def word(bs):
    r = ()
    for b in bs:
        r += tuple(dd.to_bits(b, 8))
    return dd.from_bits(r)


class Dec:
    def __init__(self, bs):
        self.b = bs
        self.out = []

    def at(self, i):
        return self.b[i] if i < len(self.b) else None

    def emit(self, pc, x):
        self.out.append((pc, x))

    def split(self, pc, cond):
        t = dd.band(pc, cond)
        f = dd.band(pc, dd.bnot(cond))
        return (None if t == 0 else t), (None if f == 0 else f)

    def start(self, pc, i, opsz, rex):
        b = self.at(i)
        if b is None:
            return self.emit(pc, None)
        if rex is None:
            t, pc = self.split(pc, dd.eq(b, 0x66))
            if t is not None:
                self.start(t, i + 1, True, None)
            if pc is None:
                return
            hi = bits(b, 4, 4)
            t, pc = self.split(pc, dd.eq(hi, 4))
            if t is not None:
                self.opcode(t, i + 1, opsz, dd.to_bits(b, 8)[:4])
            if pc is None:
                return
        self.opcode(pc, i, opsz, (0, 0, 0, 0))

    def opcode(self, pc, i, opsz, rex):
        b = self.at(i)
        if b is None:
            return self.emit(pc, None)
        w, r, x, bb = rex[3], rex[2], rex[1], rex[0]
        top5 = bits(b, 3, 5)
        low3 = bits(b, 0, 3)
        for code, op in ((0x50, 'push'), (0x58, 'pop')):
            t, pc = self.split(pc, dd.eq(top5, code >> 3))
            if t is not None:
                for pw, size in self.stack(t, w, opsz):
                    self.emit(pw, Insn(op, size, i + 1, reg=cat4(bb, low3)))
            if pc is None:
                return
        t, pc = self.split(pc, dd.eq(top5, 0xb8 >> 3))
        if t is not None:
            tw, tn = self.split(t, w)
            if tw is not None:
                self.immreg(tw, i + 1, 'mov', 64, 8, cat4(bb, low3))
            if tn is not None:
                self.immreg(tn, i + 1, 'mov', 16 if opsz else 32, 2 if opsz else 4, cat4(bb, low3))
        if pc is None:
            return
        for code in (0x6a, 0x68, 0xc3, 0x89, 0x8b, 0x8d, 0xc7, 0x0f, 0x8f, 0xff):
            t, pc = self.split(pc, dd.eq(b, code))
            if t is None:
                if pc is None:
                    return
                continue
            if code == 0x6a:
                v = self.at(i + 1)
                for pw, size in self.stack(t, w, opsz):
                    self.emit(pw, None if v is None else Insn('pushi', size, i + 2, imm=v, immw=8, immoff=i + 1))
            elif code == 0x68:
                for pw, size in self.stack(t, w, opsz):
                    n = 2 if size == 16 else 4
                    if i + n >= len(self.b):
                        self.emit(pw, None)
                    else:
                        self.emit(pw, Insn('pushi', size, i + 1 + n, imm=word(self.b[i + 1:i + 1 + n]), immw=8 * n, immoff=i + 1))
            elif code == 0xc3:
                self.emit(t, Insn('ret', 64, i + 1))
            elif code == 0x0f:
                v = self.at(i + 1)
                if v is None:
                    self.emit(t, None)
                else:
                    a, c = self.split(t, dd.eq(v, 5))
                    if a is not None:
                        self.emit(a, Insn('syscall', 64, i + 2))
                    if c is not None:
                        self.emit(c, None)
            else:
                for pw, size in self.sizes(t, w, opsz):
                    self.modrm(pw, i + 1, code, size, r, x, bb)
            if pc is None:
                return
        self.emit(pc, None)

    def sizes(self, pc, w, opsz):
        t, f = self.split(pc, w)
        o = []
        if t is not None:
            o.append((t, 64))
        if f is not None:
            o.append((f, 16 if opsz else 32))
        return o

    def stack(self, pc, w, opsz):
        """operand size of a push or a pop: REX.W goes before 66"""
        return [(p, 64 if n == 32 else n) for p, n in self.sizes(pc, w, opsz)]

    def immreg(self, pc, i, op, size, n, reg):
        if i + n > len(self.b):
            return self.emit(pc, None)
        self.emit(pc, Insn(op + 'i', size, i + n, reg=reg, imm=word(self.b[i:i + n]), immw=8 * n, immoff=i))

    def modrm(self, pc, i, code, size, r, x, bb):
        m = self.at(i)
        if m is None:
            return self.emit(pc, None)
        mod = bits(m, 6, 2)
        reg = bits(m, 3, 3)
        rm = bits(m, 0, 3)
        for md in (3, 0, 1, 2):
            t, pc = self.split(pc, dd.eq(mod, md))
            if t is not None:
                if md == 3:
                    self.finish(t, i + 1, code, size, cat4(r, reg), reg, cat4(bb, rm), None)
                else:
                    self.memory(t, i + 1, md, code, size, cat4(r, reg), reg, rm, x, bb)
            if pc is None:
                return

    def memory(self, pc, i, md, code, size, reg, ext, rm, x, bb):
        dn = {0: 0, 1: 1, 2: 4}[md]
        t, pc = self.split(pc, dd.eq(rm, 4))
        if t is not None:
            s = self.at(i)
            if s is None:
                self.emit(t, None)
            else:
                sc = bits(s, 6, 2)
                idx = cat4(x, bits(s, 3, 3))
                b3 = bits(s, 0, 3)
                for ti, index in zip(self.split(t, dd.eq(idx, 4)), (None, idx)):
                    if ti is None:
                        continue
                    if md == 0:
                        tb, tn = self.split(ti, dd.eq(b3, 5))
                        if tb is not None:
                            self.disp(tb, i + 1, 4, None, index, sc, code, size, reg, ext)
                        if tn is not None:
                            self.disp(tn, i + 1, 0, cat4(bb, b3), index, sc, code, size, reg, ext)
                    else:
                        self.disp(ti, i + 1, dn, cat4(bb, b3), index, sc, code, size, reg, ext)
        if pc is None:
            return
        if md == 0:
            t, pc = self.split(pc, dd.eq(rm, 5))
            if t is not None:
                self.disp(t, i, 4, 'rip', None, 0, code, size, reg, ext)
            if pc is None:
                return
        self.disp(pc, i, dn, cat4(bb, rm), None, 0, code, size, reg, ext)

    def disp(self, pc, i, n, base, index, sc, code, size, reg, ext):
        if i + n > len(self.b):
            return self.emit(pc, None)
        if n == 0:
            d = 0
        elif n == 1:
            b = tuple(dd.to_bits(self.b[i], 8))
            d = dd.from_bits(b + (b[7],) * 24)
        else:
            d = word(self.b[i:i + 4])
        self.finish(pc, i + n, code, size, reg, ext, None, Mem(base, index, sc, d, 8 * n, i))

    def finish(self, pc, i, code, size, reg, ext, rm, mem):
        if code == 0x89:
            self.emit(pc, Insn('mov_rm_r', size, i, reg=rm, reg2=reg, mem=mem))
        elif code == 0x8b:
            if mem is None:
                self.emit(pc, Insn('mov_rm_r', size, i, reg=reg, reg2=rm))
            else:
                self.emit(pc, Insn('mov_r_rm', size, i, reg=reg, mem=mem))
        elif code == 0x8d:
            self.emit(pc, None if mem is None else Insn('lea', size, i, reg=reg, mem=mem))
        elif code == 0xc7:
            n = 2 if size == 16 else 4
            t, f = self.split(pc, dd.eq(ext, 0))
            if f is not None:
                self.emit(f, None)
            if t is not None:
                if i + n > len(self.b):
                    self.emit(t, None)
                else:
                    self.emit(t, Insn('movi' if mem is None else 'movi_m', size, i + n, reg=rm, mem=mem,
                                      imm=word(self.b[i:i + n]), immw=8 * n, immoff=i))
        elif code in (0x8f, 0xff):
            want = 0 if code == 0x8f else 6
            t, f = self.split(pc, dd.eq(ext, want))
            if f is not None:
                self.emit(f, None)
            if t is not None:
                self.emit(t, Insn('pop' if code == 0x8f else 'push', 16 if size == 16 else 64, i, reg=rm, mem=mem))


def decode(bs, pc=1):
    d = Dec([dd.restrict(b, pc) for b in bs])
    d.start(pc, 0, False, None)
    return d.out


def sext(v, w, to):
    """v (w bits) sign-extended to `to` bits, as an unsigned scalar"""
    b = tuple(dd.to_bits(v, w))
    return dd.from_bits(b + (b[-1],) * (to - w))
