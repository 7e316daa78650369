"""Assembly programs with symbolic parts, what they mean, and the object that assembling them yields."""
from . import dd, x86
from .chk import all_eq, home, lookup, put, simp_val
from .dd import Undecided
from .interp import State
from .macho import File, Malformed, proves
from .values import Run, Seq, SCALARS

ASM = 'vprobe::asm::asm'
SECT = {'T': ('.text', b'__text'), 'D': ('.data', b'__data'), 'B': ('.bss', b'__bss')}
R64 = 'rax rcx rdx rbx rsp rbp rsi rdi r8 r9 r10 r11 r12 r13 r14 r15'.split()
R32 = 'eax ecx edx ebx esp ebp esi edi r8d r9d r10d r11d r12d r13d r14d r15d'.split()
R16 = 'ax cx dx bx sp bp si di r8w r9w r10w r11w r12w r13w r14w r15w'.split()
REGS = {64: R64, 32: R32, 16: R16}


def el(*parts):
    out = []
    for p in parts:
        if type(p) is str:
            out += list(p.encode())
        elif type(p) is bytes:
            out += list(p)
        elif type(p) is list:
            out += p
        elif type(p) is tuple:
            out += list(p)
        else:
            out.append(p)
    return out


# ---------------------------------------------------------------------- classes of characters
def rng(b, lo, hi):
    return dd.band(dd.le(lo, b), dd.le(b, hi))


def anyof(b, s):
    r = 0
    for c in s:
        r = dd.bor(r, dd.eq(b, ord(c)))
    return r


def upper(b):
    return rng(b, 65, 90)


def ident(b):
    return dd.bor(dd.bor(rng(b, 48, 57), rng(b, 65, 90)), dd.bor(rng(b, 97, 122), anyof(b, '_')))


def name1(b):
    return dd.bor(upper(b), anyof(b, '_.$@?'))


def namech(b):
    return dd.bor(ident(b), anyof(b, '.$@?~#'))


def letter(b):
    return dd.bor(dd.bor(rng(b, 65, 90), rng(b, 97, 122)), anyof(b, '_'))


def lower(b):
    return rng(b, 97, 122)


def digit(b):
    return rng(b, 48, 57)


def xdigit(b):
    return dd.bor(digit(b), dd.bor(rng(b, 65, 70), rng(b, 97, 102)))


def blank(b):
    return dd.bor(dd.eq(b, 32), dd.eq(b, 9))


def printable(b):
    return dd.bor(rng(b, 32, 126), dd.eq(b, 9))


def instring(b):
    """any character of a string: no quote, no end of line"""
    return dd.band(dd.le(b, 127), dd.bnot(dd.bor(dd.eq(b, 34), dd.bor(dd.eq(b, 10), dd.eq(b, 13)))))


class Names:
    """makes symbolic text; collects the conditions on it"""

    def __init__(self, tag):
        self.tag = tag
        self.n = 0
        self.pc = 1

    def fresh(self, what):
        self.n += 1
        return '%s.%s%d' % (self.tag, what, self.n)

    def also(self, c):
        self.pc = dd.band(self.pc, c)

    def chars(self, n, first=upper, rest=ident):
        nm = self.fresh('w')
        out = []
        for i in range(n):
            b = dd.var('%s[%d]' % (nm, i), 0, 127)
            self.also((first if i == 0 else rest)(b))
            out.append(b)
        return out

    def name(self, n):
        """a symbol name of n characters which is no keyword, register or number"""
        return self.chars(n, name1, namech)

    def run(self, cls, lo=0, hi=1 << 20, what='run'):
        nm = self.fresh(what)
        ln = dd.var(nm + '.len', lo, hi)
        self.also(dd.domain(ln))
        b = dd.var(nm + '.char', 0, 127)
        return Run(nm, ln, b, cls(b), 0, None)

    def str8(self, r):
        """string contents of any length 8 q + r"""
        nm = self.fresh('str')
        q = dd.var(nm + '.q', 0 if r else 1, 1 << 20)
        self.also(dd.domain(q))
        b = dd.var(nm + '.char', 0, 127)
        return Run(nm, dd.add(dd.scale(q, 8), r), b, instring(b), 0, None)

    def ws(self, lo=1):
        return self.run(blank, lo, 1 << 16, 'ws')

    def dec(self, w=64, lo=0, hi=None):
        """(text, value) of a decimal literal"""
        nm = self.fresh('dec')
        v = dd.uvar(nm, w) if hi is None else dd.var(nm, lo, hi)
        if hi is not None:
            self.also(dd.domain(v))
        ln = dd.var(nm + '.len', 1, 40)
        self.also(dd.domain(ln))
        b = dd.var(nm + '.char', 0, 127)
        return [Run(nm, ln, b, digit(b), 0, ('dec', v))], v

    def hex(self, w=64, lo=0, hi=None):
        nm = self.fresh('hex')
        v = dd.uvar(nm, w) if hi is None else dd.var(nm, lo, hi)
        if hi is not None:
            self.also(dd.domain(v))
        ln = dd.var(nm + '.len', 1, 40)
        self.also(dd.domain(ln))
        b = dd.var(nm + '.char', 0, 127)
        return el('0x', Run(nm, ln, b, xdigit(b), 0, ('hex', v))), v

    def digits(self, n, radix=10):
        """a literal of n written digits"""
        nm = self.fresh('d%d_' % radix)
        out = []
        v = 0
        for i in range(n):
            d = dd.var('%s[%d]' % (nm, i), 0, radix - 1)
            self.also(dd.domain(d))
            out.append(dd.add(d, 48) if radix == 10 else lookup(d, [ord(c) for c in '0123456789abcdef']))
            v = dd.add(dd.scale(v, radix), d)
        return (out if radix == 10 else el('0x', out)), v


# ---------------------------------------------------------------------- statements
class St:
    """a line: its text and what it means"""

    def __init__(self, text, eff=None, bad=False):
        self.text = text
        self.eff = eff
        self.bad = bad


def section(k):
    return St(el('section ', SECT[k][0]), ('sect', k))


def label(name):
    return St(el(name, ':'), ('label', list(name)))


def glob(name):
    return St(el('global ', name), ('glob', list(name)))


WIDTH = dict(db=1, dw=2, dd=4, dq=8)


def le(v, n):
    if type(v) is int:
        return [(v >> 8 * i) & 255 for i in range(n)]
    b = dd.to_bits(v, 8 * n)
    return [dd.from_bits(b[8 * i:8 * i + 8]) for i in range(n)]


def padded(s, w):
    """string bytes padded to a multiple of w; the length's residue must be definite"""
    n = 0
    for x in s:
        n = dd.add(n, x.len if type(x) is Run else 1)
    r = dd.rem(n, w) if type(n) is not int else n % w
    if type(r) is not int:
        raise Undecided('residue of a string length')
    return list(s) + [0] * ((w - r) % w)


def data(kind, items, lab=None, sep=', '):
    """items: ('n', text, value) or ('s', elements)"""
    t = el(lab, ' ') if lab else []
    t += el(kind, ' ')
    out = []
    w = WIDTH[kind]
    for i, x in enumerate(items):
        if i:
            t += el(sep)
        if x[0] == 's':
            t += el('"', list(x[1]), '"')
            out += padded(x[1], w)
        else:
            t += x[1]
            out += le(x[2], w)
    return St(t, ('data', list(lab) if lab else None, out))


def num(v, hexa=False):
    return ('n', el(hex(v) if hexa else str(v)), v)


def lit(s):
    return ('s', list(s.encode() if type(s) is str else s))


def e_movi(w, n, v):
    def exp(i):
        if i.op == 'movi' and i.size == w:
            x = i.imm if i.immw == w else x86.sext(i.imm, i.immw, w)
            return [(i.reg, n), (x, v)]
        if i.op == 'movi' and w == 64 and i.size == 32:
            return [(i.reg, n), (i.imm, v)]
        return False
    return exp


def e_movrr(w, d, s):
    return lambda i: i.op == 'mov_rm_r' and i.mem is None and i.size == w and [(i.reg, d), (i.reg2, s)]


def e_push(n):
    return lambda i: i.op == 'push' and i.mem is None and i.size == 64 and [(i.reg, n)]


def e_pushi(v):
    return lambda i: i.op == 'pushi' and i.size == 64 and [(x86.sext(i.imm, i.immw, 64) if i.immw < 64 else i.imm, v)]


def mov_imm(w, reg, text, v):
    return St(el('mov ', reg, ', ', text), ('ins', e_movi(w, REGS[w].index(reg), v), None))


def mov_rr(w, d, s):
    return St(el('mov ', d, ', ', s), ('ins', e_movrr(w, REGS[w].index(d), REGS[w].index(s)), None))


def mov_sym(w, reg, name):
    return St(el('mov ', reg, ', ', name), ('ins', e_movi(w, REGS[w].index(reg), 0), (list(name), w)))


def push_r(r):
    return St(el('push ', r), ('ins', e_push(R64.index(r)), None))


def push_i(text, v):
    return St(el('push ', text), ('ins', e_pushi(v), None))


def ret():
    return St(el('ret'), ('ins', lambda i: i.op == 'ret' and [], None))


def syscall():
    return St(el('syscall'), ('ins', lambda i: i.op == 'syscall' and [], None))


def empty():
    return St([], None)


class Prog:
    """lines, plus the condition under which the program is one that must be accepted"""

    def __init__(self, tag, names, lines, accept=1, last_nl=True):
        self.tag = tag
        self.lines = lines
        self.accept = accept
        self.pc = names.pc if names is not None else 1
        self.text = []
        for i, s in enumerate(lines):
            self.text += s.text
            if last_nl or i + 1 < len(lines):
                self.text.append(10)
        self.items = {'T': [], 'D': [], 'B': []}
        self.labels = []          # (name, section, index of the next item there)
        self.globs = []
        cur = 'T'
        for i, s in enumerate(lines):
            e = s.eff
            if e is None:
                continue
            if e[0] == 'sect':
                cur = e[1]
            elif e[0] == 'label':
                self.labels.append((e[1], cur, len(self.items[cur])))
            elif e[0] == 'glob':
                self.globs.append(e[1])
            elif e[0] == 'data':
                if e[1]:
                    self.labels.append((e[1], cur, len(self.items[cur])))
                self.items[cur].append(('data', e[2], i))
            elif e[0] == 'ins':
                self.items[cur].append(('ins', e[1], e[2], i))
        self.order = [k for k in 'TDB' if self.items[k] or any(l[1] == k for l in self.labels)]

    def show(self, env):
        return 'source: ' + source(env, self.text)


def source(env, t):
    out = ''
    for b in t:
        if type(b) is Run:
            if b.info and b.info[0] == 'dec':
                out += str(int(env.val(b.info[1])))
            elif b.info and b.info[0] == 'hex':
                out += '%x' % int(env.val(b.info[1]))
            else:
                n = int(env.val(b.len))
                c = sample(env, b)
                out += c * n if n <= 24 else '<%s x %d>' % (c, n)
        else:
            out += chr(int(env.val(b)))
    return repr(out.rstrip('\n'))


def sample(env, b):
    for c in '.a 0\t_A1':
        k = dd.restrict(b.cls, dd.eq(b.byte, ord(c)))
        if type(k) is int and k == 1:
            return c
    return '?'


# ---------------------------------------------------------------------- running
def assemble(ck, I, prog, rule, acceptance=True):
    """[(pc, File)] of the paths that produce an object; refusals are judged when acceptance is set"""
    w = home(I, ASM, 'read_from')
    st = State()
    res = []
    for o in ck.outs(I, ASM, [put(st, Seq(tuple(prog.text)), True)], st, prog.pc):
        if o.kind == 'undec':
            ck.undecided(rule, w, prog.tag, '%s at %s' % (o.val, o.where))
            continue
        if o.kind != 'ret':
            if acceptance:
                what = '%s: a correct program is refused (%s at %s)' % (prog.tag, 'exit' if o.kind == 'exit' else o.val, o.where)
                ck.ob(o.st.pc, dd.bnot(prog.accept), rule, w, what, prog.show)
            continue
        if acceptance:
            if not ck.ob(o.st.pc, prog.accept, rule, w, prog.tag + ': a program that must be refused is assembled', prog.show):
                continue
        pc = dd.band(o.st.pc, prog.accept)
        if type(pc) is int and pc == 0:
            continue
        res += files(ck, pc, o.val, rule, w, prog.tag)
    return res


def files(ck, pc, val, rule, w, what):
    """[(pc, File)] of an object; joined executions whose sections have different places are told apart"""
    res = []
    todo = [pc]
    splits = 0
    while todo:
        pc = todo.pop()
        dd.METER.look()
        try:
            f = File(pc, simp_val(val, pc))
            b = loose(pc, f)
        except Malformed as e:
            ck.undecided(rule, w, what, 'the object cannot be read back: %s' % e)
            continue
        except Undecided as e:
            ck.undecided(rule, w, what, str(e))
            continue
        if b is not None and splits < 48:
            splits += 1
            todo += [dd.band(pc, b), dd.band(pc, dd.bnot(b))]
            continue
        res.append((pc, f))
    return res


def loose(pc, f):
    """a condition that decides between places of a section"""
    for s in f.sects:
        for x in (s.offset, s.size):
            if type(x) is dd.Node:
                for t, c in dd.terminals(dd.restrict(x, pc)):
                    n = dd.band(pc, dd.bnot(c))
                    y = dd.band(pc, c)
                    if not (type(n) is int and n == 0) and not (type(y) is int and y == 0):
                        return c
            elif type(x) is dd.Lin:
                for a, _ in x.t:
                    A = dd.ATOMS[a]
                    if A.kind == 'bits':
                        for b in A.args:
                            if type(b) is dd.Node and dd.size(b) < 200:
                                y, n = dd.band(pc, b), dd.band(pc, dd.bnot(b))
                                if not (type(y) is int and y == 0) and not (type(n) is int and n == 0):
                                    return b
    return None


def header(f, k):
    g = [s for s in f.sects if s.name == list(SECT[k][1])]
    return g[0] if len(g) == 1 else None


class Walk:
    """one way through the contents of a section"""

    def __init__(self, pc, i, pos):
        self.pc = pc
        self.i = i              # element index in the file
        self.pos = [pos]        # position, in the section, of every item and of the end
        self.ins = {}           # item index -> (insn, position)
        self.err = None         # (item index, message, condition that holds when it is right)


def walks(pc, f, prog, k):
    """the ways through section k; an item that is not there ends a walk with an error"""
    s = header(f, k)
    items = prog.items[k]
    if s is None:
        w = Walk(pc, 0, 0)
        for n, it in enumerate(items):
            if it[0] != 'data' or it[1]:
                w.err = (n, 'the section is missing', 0)
                break
            w.pos.append(0)
        return [w]
    if not items:
        w = Walk(pc, 0, 0)
        return [w]
    i = f.find(s.offset)
    w = Walk(pc, i, 0)
    if i is None:
        w.err = (0, 'the section data is not located', 0)
        return [w]
    done = []
    todo = [w]
    while todo:
        w = todo.pop()
        n = len(w.pos) - 1
        if n == len(items):
            done.append(w)
            continue
        it = items[n]
        if it[0] == 'data':
            got = f.e[w.i:w.i + len(it[1])]
            ok = 1
            if len(got) < len(it[1]):
                ok = 0
            else:
                for a, b in zip(got, it[1]):
                    if type(a) is Run or type(b) is Run:
                        if not f.same(a, b):
                            ok = 0
                            break
                    else:
                        ok = dd.band(ok, dd.eq(a, b))
            if not proves(w.pc, ok):
                w.err = (n, 'the bytes of the data are not there', ok)
                done.append(w)
                continue
            p = w.pos[-1]
            for x in it[1]:
                p = dd.add(p, x.len if type(x) is Run else 1)
            w.pos.append(p)
            w.i += len(it[1])
            todo.append(w)
            continue
        bs = []
        for x in f.e[w.i:w.i + 15]:
            if type(x) is Run:
                break
            bs.append(x)
        for c, ins in x86.decode(bs, w.pc):
            if type(c) is int and c == 0:
                continue
            v = Walk(c, w.i, 0)
            v.pos = list(w.pos)
            v.ins = dict(w.ins)
            if ins is None:
                v.err = (n, 'the bytes are not an instruction', 0)
                done.append(v)
                continue
            r = it[1](ins)
            ok = 0 if r is False else all_eq([a for a, _ in r], [b for _, b in r])
            if not proves(c, ok):
                v.err = (n, 'the bytes are %s' % ('a different instruction (%s)' % ins.op if r is False else 'the instruction with other operands'), ok)
                done.append(v)
                continue
            v.ins[n] = (ins, v.pos[-1])
            v.i += ins.n
            v.pos.append(dd.add(v.pos[-1], ins.n))
            todo.append(v)
    return done


def size_of(s):
    return s.size


def nl(f, name):
    """symbol table entries with this name"""
    return [(i, n) for i, n in enumerate(f.nlists()) if len(n[0]) == len(name) and all(f.same(a, b) for a, b in zip(n[0], name))]


# ---------------------------------------------------------------------- aspects
def lines_of(prog, it):
    return prog.lines[it[-1]]


def content(ck, pc, f, prog, rule, w, only=None):
    """every section holds exactly the bytes of its statements in order"""
    for k in 'TDB':
        s = header(f, k)
        for v in walks(pc, f, prog, k):
            what = '%s: %s' % (prog.tag, SECT[k][0])
            if v.err is not None:
                n, msg, ok = v.err
                if only is not None and not only(prog.items[k][n]):
                    ck.undecided(rule, w, what, 'statement %d: %s' % (n, msg))
                    continue
                ck.ob(v.pc, ok, rule, w, '%s: statement %d: %s' % (what, n + 1, msg), prog.show)
                continue
            if s is not None:
                ck.ob(v.pc, dd.eq(s.size, v.pos[-1]), rule, w, what + ': holds more or fewer bytes than its statements emit', lambda e: '%s; %d bytes instead of %d' % (prog.show(e), e.val(s.size), e.val(v.pos[-1])))
            else:
                ck.passed(rule, w, what + ': nothing emitted')


def labels(ck, pc, f, prog, rule, w):
    for k in 'TDB':
        mine = [l for l in prog.labels if l[1] == k]
        if not mine:
            continue
        s = header(f, k)
        what = '%s: labels in %s' % (prog.tag, SECT[k][0])
        if s is None:
            ck.ob(pc, 0, rule, w, what + ': the section is missing', prog.show)
            continue
        idx = f.sects.index(s) + 1
        for v in walks(pc, f, prog, k):
            for name, _, n in mine:
                if n >= len(v.pos):
                    ck.undecided(rule, w, what, 'the statements before the label were not recognised')
                    continue
                g = nl(f, name)
                if not ck.ob(v.pc, 1 if len(g) == 1 else 0, rule, w, '%s: label %d has %d symbol table entries' % (what, n, len(g)), prog.show):
                    continue
                ent = g[0][1]

                def sh(e, ent=ent, n=n, v=v):
                    return '%s; the label is at %d, its entry: section %d, value %d (section at %d)' % (prog.show(e), e.val(v.pos[n]), e.val(ent[2]), e.val(ent[4]), e.val(s.addr))
                b = dd.to_bits(ent[1], 8)
                ck.ob(v.pc, dd.band(dd.eq(ent[2], idx), dd.eq(dd.from_bits((0, b[1], b[2], b[3])), 14)), rule, w, '%s: label before statement %d belongs to another section' % (what, n + 1), sh)
                ck.ob(v.pc, dd.eq(ent[4], dd.add(s.addr, v.pos[n])), rule, w, '%s: label before statement %d has another address' % (what, n + 1), sh)


def externals(ck, pc, f, prog, rule, w):
    for name, k, _ in prog.labels:
        g = nl(f, name)
        if len(g) != 1:
            ck.undecided(rule, w, prog.tag, 'label has %d entries' % len(g))
            continue
        ext = dd.to_bits(g[0][1][1], 8)[0]
        want = 0
        for n in prog.globs:
            if len(n) == len(name):
                want = dd.bor(want, all_eq(n, name))
        ck.ob(pc, dd.biff(ext, want), rule, w, '%s: external flag of a label in %s' % (prog.tag, SECT[k][0]),
              lambda e: '%s; %s: external %d' % (prog.show(e), source(e, name), e.val(ext)))


def relocs(ck, pc, f, prog, rule, w):
    ents = f.nlists()
    for k in 'TD':
        s = header(f, k)
        if s is None:
            continue
        got = f.relocs(s)
        what = '%s: %s' % (prog.tag, SECT[k][0])
        for v in walks(pc, f, prog, k):
            want = []
            miss = False
            for n, it in enumerate(prog.items[k]):
                if it[0] == 'ins' and it[2]:
                    if n not in v.ins:
                        miss = True
                        continue
                    want.append((it[2], v.ins[n][0], v.pos[n]))
            if miss or v.err is not None:
                # an emitted immediate that is not zero is this property's business
                n = v.err[0]
                it = prog.items[k][n] if n < len(prog.items[k]) else None
                if it is not None and it[0] == 'ins' and it[2]:
                    ck.ob(v.pc, v.err[2], rule, w, '%s: statement %d with a symbolic operand: %s' % (what, n + 1, v.err[1]), prog.show)
                else:
                    ck.undecided(rule, w, what, 'the statements were not recognised')
                continue
            if not ck.ob(v.pc, 1 if len(got) == len(want) else 0, rule, w, '%s: %d relocations for %d symbolic operands' % (what, len(got), len(want)), prog.show):
                continue
            left = list(got)
            for q, ((name, wd), ins, pos) in enumerate(want):
                at = dd.add(pos, ins.immoff)
                g = [x for x in left if proves(v.pc, dd.eq(x['addr'], at))]
                x = g[0] if g else left[0]
                left.remove(x)

                def sh(e, x=x, at=at, ins=ins, name=name):
                    return '%s; immediate field at %d (%d bits); relocation: address %d length %d pcrel %d symbol %d extern %d type %d' % (
                        prog.show(e), e.val(at), ins.immw, e.val(x['addr']), e.val(x['len']), e.val(x['pcrel']), e.val(x['sym']), e.val(x['ext']), e.val(x['type']))
                wt = '%s: relocation %d' % (what, q + 1)
                ck.ob(v.pc, dd.eq(x['addr'], at), rule, w, wt + ' is not at the immediate field', sh)
                ck.ob(v.pc, dd.eq(x['len'], {8: 0, 16: 1, 32: 2, 64: 3}[ins.immw]), rule, w, wt + ' has another width', sh)
                ck.ob(v.pc, 1 if ins.immw == wd else 0, rule, w, wt + ': the immediate field is narrower than the operand', sh)
                ck.ob(v.pc, dd.bnot(x['pcrel']), rule, w, wt + ' is not absolute', sh)
                ck.ob(v.pc, dd.eq(x['type'], 0), rule, w, wt + ': type', sh)
                ck.ob(v.pc, x['ext'], rule, w, wt + ' does not name a symbol', sh)
                idx = nl(f, name)
                if len(idx) == 1:
                    ck.ob(v.pc, dd.eq(x['sym'], idx[0][0]), rule, w, wt + ' names another symbol', sh)
                else:
                    ck.undecided(rule, w, wt, 'the symbol has %d entries' % len(idx))
    s = header(f, 'B')
    if s is not None:
        ck.ob(pc, dd.eq(s.nreloc, 0), rule, w, '%s: .bss has relocations' % prog.tag, prog.show)
