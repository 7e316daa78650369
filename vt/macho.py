"""An abstract Mach-O object file: reads headers, tables and contents out of an abstract byte sequence.

Positions in the file are scalars (possibly symbolic); the element at a position is found by proving
the position equal to a prefix sum of element lengths under the path condition."""
from . import dd
from .chk import from_le
from .dd import Undecided
from .interp import seqlen
from .values import Run, Seq, SCALARS


class Malformed(Exception):
    """the file is not readable as an object file at all (a violation, not a gap) wherever `ok` does not hold"""

    def __init__(self, msg, ok=0):
        Exception.__init__(self, msg)
        self.ok = ok


class Split(Undecided):
    """a value has several possibilities: the analysis goes on under each of `conds` separately"""

    def __init__(self, conds):
        Undecided.__init__(self, "case split")
        self.conds = conds


def proves(pc, c):
    x = dd.band(pc, dd.bnot(c))
    return type(x) is int and x == 0


def num(bs):
    for b in bs:
        if type(b) is Run:
            raise Malformed('section data where a number is expected')
    return from_le(list(bs))


def conc(pc, v, what):
    if type(v) is int:
        return v
    if type(v) is dd.Node:
        v = dd.restrict(v, pc)
        if type(v) is int:
            return v
        ts = dd.terminals(v)
        if 1 < len(ts) <= 16 and all(type(t) is int for t, _ in ts):
            ts = [(t, dd.band(pc, c)) for t, c in ts]
            ts = [(t, c) for t, c in ts if not (type(c) is int and c == 0)]
            if len(ts) == 1:
                return ts[0][0]
            raise Split([c for _, c in ts])
    raise Undecided(what + ' is not definite')


def cstr(bs):
    out = []
    for b in bs:
        if type(b) is int and b == 0:
            break
        out.append(b)
    return out


class Sect:
    pass


class File:
    def __init__(self, pc, seq):
        self.pc = pc
        # drop runs that are empty on this path
        self.e = []
        for x in seq.e:
            if type(x) is Run and (type(x.len) is int and x.len == 0 or proves(pc, dd.eq(x.len, 0))):
                continue
            self.e.append(x)
        self.ps = [0]
        for x in self.e:
            self.ps.append(dd.add(self.ps[-1], x.len if type(x) is Run else 1))
        self.total = self.ps[-1]
        self.parse()

    def bytes(self, i, n):
        """n explicit bytes from element i"""
        if i + n > len(self.e):
            raise Malformed('the file ends inside a table')
        return self.e[i:i + n]

    def u(self, i, n):
        return num(self.bytes(i, n))

    def find(self, pos):
        """index of the element at file position pos (None: not provably at an element)"""
        if type(pos) is int and pos < len(self.ps) and type(self.ps[pos]) is int and self.ps[pos] == pos:
            return pos
        for i in range(len(self.ps) - 1, -1, -1):
            p = self.ps[i]
            if type(p) is int and type(pos) is int:
                if p == pos:
                    return i
                continue
            if proves(self.pc, dd.eq(p, pos)):
                return i
        return None

    def starts(self, c):
        """indices at which the element list c occurs"""
        return [i for i in range(len(self.e) - len(c) + 1) if all(self.same(self.e[i + k], x) for k, x in enumerate(c))]

    def same(self, a, b):
        if type(a) is Run or type(b) is Run:
            return type(a) is Run and type(b) is Run and a.name == b.name and proves(self.pc, dd.band(dd.eq(a.len, b.len), dd.eq(a.off, b.off)))
        if type(a) is int and type(b) is int:
            return a == b
        if a is b:
            return True
        return proves(self.pc, dd.eq(a, b))

    def parse(self):
        pc = self.pc
        self.magic = conc(pc, self.u(0, 4), 'magic')
        if self.magic != 0xfeedfacf:
            raise Malformed('magic is %#x' % self.magic)
        self.cpu = self.u(4, 4)
        self.sub = self.u(8, 4)
        self.ftype = self.u(12, 4)
        self.ncmds = conc(pc, self.u(16, 4), 'ncmds')
        self.szcmds = conc(pc, self.u(20, 4), 'sizeofcmds')
        self.flags = self.u(24, 4)
        self.segs, self.sects, self.symtab, self.cmds = [], [], None, []
        i = 32
        if self.ncmds > 64:
            raise Malformed('%d load commands' % self.ncmds)
        for _ in range(self.ncmds):
            cmd = conc(pc, self.u(i, 4), 'cmd')
            size = conc(pc, self.u(i + 4, 4), 'cmdsize')
            self.cmds.append((i, cmd, size))
            if size < 8 or size > 4096:
                raise Malformed('load command %#x has size %d' % (cmd, size))
            if cmd == 0x19:
                s = Sect()
                s.name = cstr(self.bytes(i + 8, 16))
                s.vmaddr, s.vmsize, s.fileoff, s.filesize = (self.u(i + 24 + 8 * k, 8) for k in range(4))
                s.maxprot, s.initprot = self.u(i + 56, 4), self.u(i + 60, 4)
                s.nsects = conc(pc, self.u(i + 64, 4), 'nsects')
                s.flags = self.u(i + 68, 4)
                self.segs.append(s)
                if size != 72 + 80 * s.nsects:
                    raise Malformed('a segment command of %d bytes cannot hold its %d sections' % (size, s.nsects))
                for k in range(s.nsects):
                    j = i + 72 + 80 * k
                    t = Sect()
                    t.at = j
                    t.name = cstr(self.bytes(j, 16))
                    t.seg = cstr(self.bytes(j + 16, 16))
                    t.addr, t.size = self.u(j + 32, 8), self.u(j + 40, 8)
                    t.offset, t.align, t.reloff, t.nreloc, t.flags = (self.u(j + 48 + 4 * q, 4) for q in range(5))
                    t.r1, t.r2, t.r3 = (self.u(j + 68 + 4 * q, 4) for q in range(3))
                    self.sects.append(t)
            elif cmd == 2:
                if size != 24:
                    raise Malformed('symtab command of %d bytes' % size)
                self.symtab = tuple(self.u(i + 8 + 4 * q, 4) for q in range(4))
            i += size
        self.cmdend = i

    def text(self, bs):
        return bytes(b for b in bs if type(b) is int).decode('latin1') if all(type(b) is int for b in bs) else repr(bs)

    # ------------------------------------------------------------------ tables
    def nlists(self):
        """the symbol table entries: (name elements, n_type, n_sect, n_desc, n_value, strx)"""
        if self.symtab is None:
            return []
        symoff, nsyms, stroff, strsize = self.symtab
        n = conc(self.pc, nsyms, 'nsyms')
        if n == 0:
            return []
        i = self.find(symoff)
        if i is None:
            raise Malformed('symoff is not the start of anything')
        out = []
        for k in range(n):
            j = i + 16 * k
            sx = self.u(j, 4)
            if type(sx) is not int:
                # whatever it is, it must lie in the string table
                inside = dd.lt(sx, strsize)
                if not proves(self.pc, inside):
                    raise Malformed('a name position is outside the string table', inside)
            sx = conc(self.pc, sx, 'n_strx')
            out.append((self.string(sx), self.u(j + 4, 1), self.u(j + 5, 1), self.u(j + 6, 2), self.u(j + 8, 8), sx))
        return out

    def string(self, sx):
        i = self.find(dd.add(self.symtab[2], sx))
        if i is None:
            raise Malformed('a string position is not the start of anything')
        out = []
        while True:
            if i >= len(self.e):
                raise Malformed('a name runs past the end of the file')
            x = self.e[i]
            if type(x) is int and x == 0:
                return out
            if type(x) is Run:
                if x.info and x.info[0] == 'fill':
                    raise Malformed('a name runs into padding')
                if not proves(dd.band(self.pc, x.cls), dd.bnot(dd.eq(x.byte, 0))):
                    raise Malformed('a name runs into section data')
            elif type(x) is not int and not proves(self.pc, dd.bnot(dd.eq(x, 0))):
                raise Undecided('a character of a name may be zero')
            out.append(x)
            i += 1

    def relocs(self, s):
        n = conc(self.pc, s.nreloc, 'nreloc')
        if n == 0:
            return []
        i = self.find(s.reloff)
        if i is None:
            raise Malformed('reloff is not the start of anything')
        out = []
        for k in range(n):
            w = dd.to_bits(self.u(i + 8 * k + 4, 4), 32)
            out.append(dict(addr=self.u(i + 8 * k, 4), sym=dd.from_bits(tuple(w[:24])), pcrel=w[24], len=dd.from_bits(tuple(w[25:27])), ext=w[27],
                            type=dd.from_bits(tuple(w[28:32])), at=i + 8 * k))
        return out
