"""at-obj: C14 - C18.  Objects with section contents of arbitrary symbolic length are written by the
interpreted writer; the abstract file is then read back by vt/macho.py."""
from . import dd, macho
from .chk import adt, all_eq, evs, from_le, hexs, home, le_bytes, put, simp_val, struct, vnames
from .dd import Undecided
from .interp import Limits, State, long_loops
from .macho import File, Malformed, Split, proves
from .values import Agg, Run, Seq

W = 'vprobe::obj::w_obj'
KEY = {'T': (b'__text', b'__TEXT', 0), 'D': (b'__data', b'__DATA', 0), 'B': (b'__bss', b'__DATA', 1)}


def run(name, r):
    """contents of any length 8 q + r, 1 <= length < 2^30"""
    q = dd.var(name + '.q', 0 if r else 1, (1 << 27) - 1)
    return Run(name, dd.add(dd.scale(q, 8), r), dd.uvar(name + '.byte', 8), 1, 0, None), dd.domain(q)


def chars(name, n):
    bs, pc = [], 1
    for i in range(n):
        b = dd.var('%s[%d]' % (name, i), 1, 127)
        bs.append(b)
        pc = dd.band(pc, dd.domain(b))
    return bs, pc


class Sym:
    """a symbol of the object under analysis"""

    def __init__(self, P, sect, kind, name, tag):
        self.sect, self.kind = sect, kind
        self.name = list(name)
        self.ext = dd.to_bits(dd.uvar(tag + '.ext', 1), 1)[0]
        self.addr = dd.uvar(tag + '.addr', 62)
        self.val = dd.uvar(tag + '.val', 64)
        t = P.ty(adt(P, 'at_obj::Symbol'))
        fs = dict(name=Seq(tuple(self.name)), ext=self.ext, addr=self.addr, val=self.val)
        for i, v in enumerate(t['variants']):
            if v['n'] == kind:
                self.v = Agg(i, tuple(fs[f[0]] for f in v['f']))
                return
        raise Undecided('no symbol kind ' + kind)

    def show(self, e):
        return '%s %s' % (self.kind, text(e, self.name))


def text(e, bs):
    if len(bs) > 400:
        return '%s... (%d bytes)' % (text(e, bs[:8]), len(bs))
    return repr(bytes(int(e.val(b)) if type(b) is not int else b for b in bs if type(b) is not Run).decode('latin1'))


class Rel:
    def __init__(self, P, sect, sym, tag):
        self.sect, self.sym = sect, sym
        self.addr = dd.uvar(tag + '.addr', 31)
        self.pcrel = dd.to_bits(dd.uvar(tag + '.pcrel', 1), 1)[0]
        self.len = dd.uvar(tag + '.len', 2)
        self.v = struct(P, 'at_obj::Reloc', addr=self.addr, symbol=Seq(tuple(sym.name)), pcrel=self.pcrel, len=self.len)


class Case:
    """an object: which sections have contents, which symbols and relocations it has"""

    def __init__(self, P, tag, have, syms, rels, res):
        self.tag = tag
        self.have = have
        self.pc = 1
        self.data = {}
        for k in 'TD':
            if k in have:
                if type(have[k]) is int:
                    # explicit contents of a definite length
                    self.data[k] = [dd.uvar('%s.%s[%d]' % (tag, k, i), 8) for i in range(have[k])]
                else:
                    r, pc = run('%s.%s' % (tag, k), res[k])
                    self.data[k] = [r]
                    self.pc = dd.band(self.pc, pc)
            else:
                self.data[k] = []
        if 'B' in have:
            self.bss = dd.var(tag + '.bss', 1, (1 << 46) - 1)
            self.pc = dd.band(self.pc, dd.domain(self.bss))
        else:
            self.bss = 0
        self.syms = []
        for i, (s, kind, nm) in enumerate(syms):
            if type(nm) is int:
                nm, pc = chars('%s.n%d' % (tag, i), nm)
                self.pc = dd.band(self.pc, pc)
            self.syms.append(Sym(P, s, kind, list(nm), '%s.s%d' % (tag, i)))
        # names are distinct
        for i, a in enumerate(self.syms):
            for b in self.syms[:i]:
                if len(a.name) == len(b.name):
                    self.pc = dd.band(self.pc, dd.bnot(all_eq(a.name, b.name)))
        self.rels = [Rel(P, s, self.syms[j], '%s.r%d' % (tag, i)) for i, (s, j) in enumerate(rels)]

        def sy(k):
            return Seq(tuple(s.v for s in self.syms if s.sect == k))

        def re(k):
            return Seq(tuple(r.v for r in self.rels if r.sect == k))
        T = struct(P, 'at_obj::TextSection', bytes=Seq(tuple(self.data['T'])), symbols=sy('T'), relocs=re('T'))
        D = struct(P, 'at_obj::DataSection', bytes=Seq(tuple(self.data['D'])), symbols=sy('D'), relocs=re('D'))
        B = struct(P, 'at_obj::BssSection', size=self.bss, symbols=sy('B'))
        self.v = struct(P, 'at_obj::Object', sections=struct(P, 'at_obj::Sections', text=T, data=D, bss=B))
        # a section is there when it holds anything
        self.order = [k for k in 'TDB' if k in have or any(s.sect == k for s in self.syms)]

    def size(self, k):
        if k == 'B':
            return self.bss
        n = 0
        for x in self.data[k]:
            n = dd.add(n, x.len if type(x) is Run else 1)
        return n

    def show(self, e):
        out = []
        for k in self.order:
            out.append('%s of %s bytes' % ({'T': 'text', 'D': 'data', 'B': 'bss'}[k], e.val(self.size(k))))
        for s in self.syms:
            out.append('%s in %s' % (s.show(e), s.sect))
        for r in self.rels:
            out.append('relocation in %s at %d to %s' % (r.sect, e.val(r.addr), text(e, r.sym.name)))
        return '; '.join(out)


R = 'any'
PAIRS = [(0, 0), (1, 0), (0, 1), (1, 1), (7, 1), (1, 7), (3, 2), (4, 3), (6, 6), (2, 4), (5, 5), (0, 4)]


def cases(P, tier, pid):
    S = []

    def c(have, syms=(), rels=()):
        runs = [k for k in 'TD' if have.get(k) == R]
        combos = {0: [(0, 0)], 1: [(r, r) for r in range(8)], 2: PAIRS if tier == 'quick' else [(a, b) for a in range(8) for b in range(8)]}[len(runs)]
        if tier == 'quick' and len(S) > 40:
            combos = [combos[(len(S) * 5) % len(combos)], combos[(len(S) * 3 + 1) % len(combos)]]
        elif tier != 'quick' and len(S) > 400:
            combos = [combos[(len(S) * 5) % len(combos)], combos[(len(S) * 3 + 1) % len(combos)]]
        for a, b in combos:
            S.append(Case(P, '%s.%d' % (pid, len(S)), have, list(syms), list(rels), dict(T=a, D=b)))
    T2 = [('T', 'Ref', 4), ('T', 'Ref', 4)]
    c({'T': R, 'D': R, 'B': R}, [('T', 'Ref', 3), ('D', 'Ref', 3), ('B', 'Ref', 3)], [('T', 1), ('T', 2), ('D', 0)])
    c({'T': R, 'D': R}, [('T', 'Ref', 5), ('D', 'Ref', 2)], [('T', 1)])
    c({'T': R, 'B': R}, [('T', 'Ref', 1), ('B', 'Ref', 9)], [('T', 1), ('T', 0)])
    c({'D': R, 'B': R}, [('D', 'Ref', 2), ('B', 'Ref', 3)], [('D', 1)])
    c({'T': R}, T2, [('T', 0)])
    c({'D': R}, [('D', 'Ref', 3), ('D', 'Abs', 2)], [('D', 0), ('D', 1), ('D', 0)])
    c({'B': R}, [('B', 'Ref', 3), ('B', 'Ref', 4)])
    c({'T': R, 'D': R, 'B': R})
    c({'T': R}, [('T', 'Undef', 4), ('T', 'Abs', 3), ('T', 'Ref', 2)], [('T', 0), ('T', 1), ('T', 2)])
    c({'D': R}, [('T', 'Ref', 3), ('D', 'Ref', 4)], [('D', 0)])
    c({'T': R}, [('T', 'Ref', 3), ('B', 'Ref', 4), ('D', 'Ref', 5)], [('T', 1)])
    c({}, [])
    c({}, [('T', 'Ref', 2)])
    c({'T': R, 'B': R}, [('T', 'Ref', b'a'), ('T', 'Ref', b'ab'), ('T', 'Ref', b'b'), ('B', 'Ref', b'ba'), ('B', 'Ref', b'aba')], [('T', 1), ('T', 2), ('T', 4), ('T', 0)])
    c({'T': R}, [('T', 'Ref', b'foo'), ('T', 'Ref', b''), ('T', 'Ref', b'bar')], [('T', 1), ('T', 2)])
    c({'T': 1, 'D': 3, 'B': R}, [('D', 'Ref', 3), ('B', 'Ref', 2)], [('T', 0)])
    c({'T': 8, 'D': 8}, [('T', 'Ref', 7), ('D', 'Ref', 8)], [('T', 1), ('D', 0)])
    # names and tables longer than a byte counts
    c({'T': R, 'D': R}, [('T', 'Ref', b'x' * 300), ('D', 'Ref', b'y'), ('D', 'Ref', b'x' * 299)], [('T', 1), ('D', 2), ('T', 0)])
    if pid in ('c14', 'c16', 'c17'):
        n = 258
        S.append(Case(P, '%s.%d' % (pid, len(S)), {'T': R, 'D': R}, [('T', 'Ref', b'%x' % i) for i in range(n)] + [('D', 'Ref', b'last')],
                      [('T', (n, n - 1, n - 2)[i] if i < 3 else i % 3) for i in range(n)] + [('D', n)], dict(T=3, D=6)))
        # a string table of more than 65536 bytes
        S.append(Case(P, '%s.%d' % (pid, len(S)), {'T': R, 'D': 3}, [('T', 'Ref', b'x' * 66000), ('T', 'Ref', b'y'), ('D', 'Ref', b'zz')], [('T', 1), ('D', 2)], dict(T=3)))
    if tier != 'quick':
        kinds = [('Ref', 3), ('Abs', 2), ('Undef', 4)]
        for m in range(1, 8):
            have = {k: R for i, k in enumerate('TDB') if m >> i & 1}
            for a in 'TDB':
                for b in 'TDB':
                    for ka, la in kinds[:2]:
                        for kb, lb in kinds:
                            sy = [(a, ka, la), (b, kb, lb + 1), (a, 'Ref', 5)]
                            rl = [(k, j) for k in 'TD' if k in have for j in range(3)]
                            c(have, sy, rl)
        for n in range(0, 18):
            c({'T': n or 1, 'D': 17 - n or 1}, [('T', 'Ref', n + 1), ('D', 'Ref', 3)], [('T', 1), ('D', 0)])
        c({'T': R}, [('T', 'Ref', 1 + i % 5) for i in range(12)], [('T', i) for i in range(12)])
        c({'T': R, 'D': R}, [('T', 'Ref', b'x' * 200), ('D', 'Ref', b'x' * 300), ('D', 'Ref', b'y')], [('T', 1), ('D', 2)])
    return S


FN = {'head': 'gen_header64', 'seg': 'gen_segment_command64', 'sect': 'gen_section64s', 'symtab': 'gen_symtab_command', 'data': 'write_section_data_into',
      'nlist': 'gen_nlist64s', 'reloc': 'gen_relocation_infos', 'str': 'gen_string_table'}


def wh(I, k):
    return home(I, W, FN[k])


def each(ck, I, rule, pid, fn):
    """apply fn to the file of every path of writing every case; what cannot be read back is a violation of `rule`"""
    w = home(I, W, 'write_into')

    def one(c, pc, v, depth=0):
        try:
            fn(c, pc, File(pc, simp_val(v, pc)))
        except Split as e:
            if depth > 3:
                return ck.undecided(rule, w, c.tag, 'too many cases')
            for x in e.conds:
                one(c, x, v, depth + 1)
        except Malformed as e:
            ck.ob(pc, e.ok, rule, w, '%s: the file cannot be read back: %s' % (c.tag, e), c.show)
        except Undecided as e:
            ck.undecided(rule, w, c.tag, str(e))
    for c in cases(I.P, ck.tier, pid):
        st = State()
        with long_loops(max([Limits.loop] + [len(s.name) + 100 for s in c.syms]), 250):
            outs = ck.outs(I, W, [put(st, c.v)], st, c.pc)
        for o in outs:
            if o.kind == 'undec':
                ck.undecided(rule, w, 'writing ' + c.tag, '%s at %s' % (o.val, o.where))
            elif o.kind != 'ret':
                ck.ob(o.st.pc, 0, rule, w, 'an object is not written: %s at %s' % (o.val, o.where), c.show)
            else:
                one(c, o.st.pc, o.val)


def sect_of(c, f, k):
    """the section header of kind k (None if there is none)"""
    g = [s for s in f.sects if s.name == list(KEY[k][0])]
    return g[0] if len(g) == 1 else None


def at(ck, c, pc, f, rule, w, what, pos, content, name):
    """the content sits at file position pos"""
    if not content:
        return True
    i = f.find(pos)
    if i is not None:
        got = f.e[i:i + len(content)]
        if len(got) == len(content) and all(f.same(a, b) for a, b in zip(got, content)):
            return ck.passed(rule, w, what)
    real = f.starts(content)
    if len(real) == 1:
        p = f.ps[real[0]]
        return ck.ob(pc, dd.eq(pos, p), rule, w, '%s: %s is not the position of the %s' % (what, name, 'data' if name == 'offset' else 'table'),
                     lambda e: '%s; %s = %d, it is at %d' % (c.show(e), name, e.val(pos), e.val(p)))
    if i is None:
        c2 = 0
        for p in f.ps:
            c2 = dd.bor(c2, dd.eq(pos, p))
        return ck.ob(pc, c2, rule, w, '%s: %s points into the middle of something else' % (what, name), lambda e: '%s; %s = %d' % (c.show(e), name, e.val(pos)))
    got = f.e[i:i + len(content)]
    return ck.ob(pc, 0, rule, w, '%s: something else is at %s' % (what, name), lambda e: '%s; at %d: %s' % (c.show(e), e.val(pos), hexs(e, got)[:200]))


def heads(ck, I, rule, which):
    """the counts in the headers of objects with any number of relocations, and with very many symbols: only the header
    and the load commands are written (the file takes no more), so that nothing has to be known about the tables"""
    from .p_cli import handle
    P = I.P
    w = wh(I, 'sect')

    def one(tag, have, syms, counts, many):
        c = Case(P, 'counts.' + tag, have, syms, [(k, 0) for k in counts], dict(T=1, D=2))
        pc, n = c.pc, dict.fromkeys('TDB', 0)
        part = dict(T=Seq(()), D=Seq(()))
        for k, r in zip(counts, c.rels):
            n[k] = dd.var('counts.%s.%s' % (tag, k), 0, (1 << 24) - 1)
            pc = dd.band(pc, dd.domain(n[k]))
            part[k] = Seq((Run('counts.' + tag + k, n[k], info=('fill', r.v)),))

        def sy(k):
            s = tuple(s.v for s in c.syms if s.sect == k)
            return Seq(s * many)
        T = struct(P, 'at_obj::TextSection', bytes=Seq(tuple(c.data['T'])), symbols=sy('T'), relocs=part['T'])
        D = struct(P, 'at_obj::DataSection', bytes=Seq(tuple(c.data['D'])), symbols=sy('D'), relocs=part['D'])
        B = struct(P, 'at_obj::BssSection', size=c.bss, symbols=sy('B'))
        v = struct(P, 'at_obj::Object', sections=struct(P, 'at_obj::Sections', text=T, data=D, bss=B))
        cap = 32 + 72 + 80 * len(c.order) + 24
        st = State()
        h = handle(st, 'dst', Seq(()), 0, 1)
        st.h['cap:dst'] = cap
        nsyms = len(c.syms) * many

        def show(e):
            return 'sections %s; %s relocations, %d symbols' % (c.order, ' and '.join('%d .%s' % (e.val(n[k]), {'T': 'text', 'D': 'data'}[k]) for k in counts) or 'no', nsyms)
        with long_loops(70000 if many > 1 else 20):
            outs = ck.outs(I, 'vprobe::obj::wf_obj', [put(st, v), h], st, pc)
        for o in outs:
            got = o.st.h.get('fs:dst')
            if o.kind == 'undec' or got is None:
                # what a writer does before it writes the headers is its own affair
                ck.undecided(rule, w, tag, '%s at %s' % (o.val, o.where))
                continue
            pc = o.st.pc
            if type(got) is not Seq or not got.flat() or len(got.e) < cap:
                ck.undecided(rule, w, tag, 'the headers are not written first')
                continue
            try:
                f = File(pc, simp_val(Seq(got.e[:cap]), pc))
            except (Malformed, Undecided) as e:
                ck.undecided(rule, w, tag, str(e))
                continue
            regs = []
            for k in c.order:
                s = sect_of(c, f, k)
                if s is None:
                    continue
                what = 'any number of relocations: section %s' % KEY[k][0].decode()
                ck.ob(pc, dd.eq(s.nreloc, n[k]), rule, w, what + ': nreloc', lambda e: '%s; nreloc %d' % (show(e), e.val(s.nreloc)))
                if k in counts:
                    regs.append(('the relocations of ' + KEY[k][0].decode(), s.reloff, dd.add(s.reloff, dd.scale(n[k], 8)), dd.eq(n[k], 0)))
            if f.symtab is None:
                continue
            symoff, ns, stroff, strsize = f.symtab
            ck.ob(pc, dd.eq(ns, nsyms), rule, wh(I, 'symtab'), '%d symbols: nsyms' % nsyms, lambda e: '%s; nsyms %d' % (show(e), e.val(ns)))
            regs.append(('the symbol entries', symoff, dd.add(symoff, 16 * nsyms), 0 if nsyms else 1))
            regs.append(('the string table', stroff, dd.add(stroff, strsize), 0))
            for i in range(len(regs)):
                for j in range(i):
                    x, y = regs[i], regs[j]
                    ck.ob(pc, dd.bor(dd.bor(x[3], y[3]), dd.bor(dd.le(x[2], y[1]), dd.le(y[2], x[1]))), rule, w, 'any number of relocations: %s and %s overlap' % (x[0], y[0]),
                          lambda e: '%s; [%d,%d) and [%d,%d)' % (show(e), e.val(x[1]), e.val(x[2]), e.val(y[1]), e.val(y[2])))
    if 'relocs' in which:
        ck.guard(rule, 'counts', lambda: one('1', {'T': R, 'D': R, 'B': R}, [('T', 'Ref', 3), ('D', 'Ref', 2), ('B', 'Ref', 4)], 'TD', 1))
        ck.guard(rule, 'counts', lambda: one('2', {'T': R}, [('T', 'Ref', 3)], 'T', 1))
        ck.guard(rule, 'counts', lambda: one('3', {'D': R}, [('D', 'Ref', 3)], 'D', 1))
    if 'symbols' in which:
        ck.guard(rule, 'counts', lambda: one('4', {'D': R}, [('D', 'Ref', b'a')], '', 66000))


# ---------------------------------------------------------------------- C14
def c14(ck):
    I = ck.interp()
    ck.rule('commands', 'ncmds and sizeofcmds are those of the load commands in the file; the section data begins after them')
    ck.rule('section', 'a section\'s offset and size are those of its data in the file')
    ck.rule('relocs', 'reloff and nreloc of a section are the place and number of its relocation entries in the file')
    ck.rule('symtab', 'symoff, nsyms, stroff and strsize are the place and extent of the symbol entries and of the string table')
    ck.rule('regions', 'the regions are disjoint and inside the file')

    def one(c, pc, f):
        w = wh(I, 'head')
        ck.ob(pc, dd.eq(f.szcmds, f.cmdend - 32), 'commands', w, '%s: sizeofcmds' % c.tag, lambda e: '%s; sizeofcmds %d, the commands take %d' % (c.show(e), f.szcmds, f.cmdend - 32))
        kinds = sorted(x[1] for x in f.cmds)
        ck.ob(pc, 1 if kinds == [2, 0x19] else 0, 'commands', w, '%s: load commands are %s' % (c.tag, kinds), c.show)
        regs = [('header and load commands', 0, f.cmdend, 0, f.cmdend)]

        def region(name, w, pos, n, i=None):
            regs.append((name, pos, dd.add(pos, n), None, None))
        names = [s.name for s in f.sects]
        want = [list(KEY[k][0]) for k in c.order]
        ck.ob(pc, 1 if sorted(map(repr, names)) == sorted(map(repr, want)) else 0, 'section', wh(I, 'sect'), '%s: the section headers are not those of the sections with content' % c.tag,
              lambda e: '%s; headers: %s' % (c.show(e), [bytes(n).decode('latin1') for n in names if all(type(b) is int for b in n)]))
        for k in c.order:
            s = sect_of(c, f, k)
            if s is None:
                continue
            w = wh(I, 'sect')
            what = '%s: section %s' % (c.tag, KEY[k][0].decode())
            ck.ob(pc, dd.eq(s.size, c.size(k)), 'section', w, what + ': size', lambda e: '%s; size field %d' % (c.show(e), e.val(s.size)))
            if k != 'B' and c.data[k]:
                at(ck, c, pc, f, 'section', w, what, s.offset, c.data[k], 'offset')
                region(what, w, s.offset, c.size(k))
            rels = [r for r in c.rels if r.sect == k]
            ck.ob(pc, dd.eq(s.nreloc, len(rels)), 'relocs', w, what + ': nreloc', lambda e: '%s; nreloc %d' % (c.show(e), e.val(s.nreloc)))
            if rels:
                first = le_bytes(rels[0].addr, 4)
                i = f.find(s.reloff)
                ok = i is not None and len(f.e) >= i + 8 * len(rels) and all(
                    all(f.same(a, b) for a, b in zip(f.e[i + 8 * q:i + 8 * q + 4], le_bytes(r.addr, 4))) for q, r in enumerate(rels))
                if ok:
                    ck.passed('relocs', w, what + ': reloff')
                else:
                    real = f.starts(first)
                    if len(real) == 1:
                        p = f.ps[real[0]]
                        ck.ob(pc, dd.eq(s.reloff, p), 'relocs', w, what + ': reloff is not the position of the section\'s relocation entries',
                              lambda e: '%s; reloff %d, they are at %d' % (c.show(e), e.val(s.reloff), e.val(p)))
                    else:
                        ck.undecided('relocs', w, what, 'relocation entries not located')
                region(what + ' relocations', w, s.reloff, 8 * len(rels))
        w = wh(I, 'symtab')
        if f.symtab is None:
            ck.ob(pc, 0, 'symtab', w, c.tag + ': no symbol table command', c.show)
            return
        symoff, nsyms, stroff, strsize = f.symtab
        ck.ob(pc, dd.eq(nsyms, len(c.syms)), 'symtab', w, c.tag + ': nsyms', lambda e: '%s; nsyms %d' % (c.show(e), e.val(nsyms)))
        if c.syms:
            ents = f.nlists()
            bad = [n for n in ents if not any(len(n[0]) == len(s.name) and all(f.same(a, b) for a, b in zip(n[0], s.name)) for s in c.syms)]
            ck.ob(pc, 0 if bad else 1, 'symtab', w, c.tag + ': the entries at symoff do not name the symbols', lambda e: '%s; names there: %s' % (c.show(e), [text(e, n[0]) for n in ents]))
            region(c.tag + ': symbol entries', w, symoff, dd.scale(nsyms, 16) if type(nsyms) is not int else nsyms * 16)
            # the string table holds every name, and nothing of it is cut off
            end = 1 + sum(len(s.name) + 1 for s in c.syms)
            for s, n in ((s, n) for s in c.syms for n in ents if len(n[0]) == len(s.name) and all(f.same(a, b) for a, b in zip(n[0], s.name))):
                ck.ob(pc, dd.le(n[5] + len(s.name) + 1, strsize), 'symtab', w, c.tag + ': strsize cuts a name off', lambda e: '%s; strsize %d, %s ends at %d' % (c.show(e), e.val(strsize), text(e, s.name), n[5] + len(s.name) + 1))
        region(c.tag + ': string table', w, stroff, strsize)
        ck.ob(pc, dd.eq(dd.add(stroff, strsize), f.total), 'symtab', w, c.tag + ': the string table does not end where the file ends',
              lambda e: '%s; stroff %d strsize %d, the file has %d bytes' % (c.show(e), e.val(stroff), e.val(strsize), e.val(f.total)))
        i = f.find(stroff)
        ck.ob(pc, 1 if i is not None and f.e[i] == 0 else 0, 'symtab', w, c.tag + ': the string table does not begin with a zero byte', c.show)
        # regions
        w = home(I, W, 'write_into')
        for x in regs:
            ck.ob(pc, dd.le(x[2], f.total), 'regions', w, '%s: %s runs past the end of the file' % (c.tag, x[0]), lambda e: '%s; ends at %d of %d' % (c.show(e), e.val(x[2]), e.val(f.total)))
        for a in range(len(regs)):
            for b in range(a):
                x, y = regs[a], regs[b]
                ck.ob(pc, dd.bor(dd.le(x[2], y[1]), dd.le(y[2], x[1])), 'regions', w, '%s: %s and %s overlap' % (c.tag, x[0], y[0]),
                      lambda e: '%s; [%d,%d) and [%d,%d)' % (c.show(e), e.val(x[1]), e.val(x[2]), e.val(y[1]), e.val(y[2])))
    ck.guard('commands', 'objects', lambda: each(ck, I, 'commands', 'c14', one))
    heads(ck, I, 'relocs', ('relocs', 'symbols'))
    assume(ck)
    return dict(level='other', explanation=EXPL, floor=200)


EXPL = ('abstract interpretation of at_obj::macho::write_into over objects whose section contents and sizes are symbolic (arbitrary length up to 64 MiB per section), with symbolic symbol '
        'attributes and relocation fields; the resulting abstract file is read back by an independent Mach-O reader and every field is compared with the object')


def assume(ck):
    ck.assume += ['symbol names are distinct, ASCII without NUL', 'contents below 2^30 bytes each, zero data below 2^46 bytes, symbol addresses below 2^62', 'the listed shapes of symbol and relocation lists']


# ---------------------------------------------------------------------- C15
def c15(ck):
    I = ck.interp()
    ck.rule('identity', 'every section with content has exactly one header with its name, segment, kind and attributes, in the order text, data, bss')
    ck.rule('layout', 'sections follow one another without overlap at addresses that obey their alignment')
    ck.rule('bss', 'an uninitialised section has address space and no file space')
    ck.rule('segment', 'the segment covers its sections in memory and in the file; its memory size is at least its file size')

    def one(c, pc, f):
        w = wh(I, 'sect')
        ws = wh(I, 'seg')
        names = [s.name for s in f.sects]
        want = [list(KEY[k][0]) for k in c.order]
        if not ck.ob(pc, 1 if names == want else 0, 'identity', w, '%s: the section headers are not text, data, bss in order' % c.tag, c.show):
            return
        prev = None
        for k, s in zip(c.order, f.sects):
            what = '%s: section %s' % (c.tag, KEY[k][0].decode())
            ck.ob(pc, 1 if s.seg == list(KEY[k][1]) else 0, 'identity', w, what + ': segment name', c.show)
            b = dd.to_bits(s.flags, 32)
            ck.ob(pc, dd.eq(dd.from_bits(tuple(b[:8])), KEY[k][2]), 'identity', w, what + ': kind', lambda e: '%s; flags %#x' % (c.show(e), e.val(s.flags)))
            code = dd.band(b[31], b[10])
            ck.ob(pc, code if k == 'T' else dd.bnot(dd.bor(b[31], b[10])), 'identity', w, what + ': instruction attributes', lambda e: '%s; flags %#x' % (c.show(e), e.val(s.flags)))
            rel = any(r.sect == k for r in c.rels)
            ck.ob(pc, b[9] if rel else dd.bnot(b[9]), 'identity', w, what + ': relocation attribute', lambda e: '%s; flags %#x' % (c.show(e), e.val(s.flags)))
            other = 0
            for i in range(11, 31):
                other = dd.bor(other, b[i])
            ck.ob(pc, dd.bnot(other), 'identity', w, what + ': other attributes', lambda e: '%s; flags %#x' % (c.show(e), e.val(s.flags)))
            ck.ob(pc, dd.eq(s.size, c.size(k)), 'layout', w, what + ': size', lambda e: '%s; size %d' % (c.show(e), e.val(s.size)))
            al = macho.conc(pc, s.align, 'align')
            if al:
                ck.ob(pc, dd.eq(dd.from_bits(tuple(dd.to_bits(s.addr, 64)[:min(al, 64)])), 0), 'layout', w, what + ': address is not aligned', lambda e: '%s; addr %#x align %d' % (c.show(e), e.val(s.addr), al))
            if prev is not None:
                end = dd.add(prev.addr, prev.size)
                ck.ob(pc, dd.le(end, s.addr), 'layout', w, what + ': overlaps the section before it', lambda e: '%s; begins at %#x, the previous ends at %#x' % (c.show(e), e.val(s.addr), e.val(end)))
            prev = s
            if k == 'B':
                ck.ob(pc, dd.band(dd.eq(s.offset, 0), dd.band(dd.eq(s.nreloc, 0), dd.eq(s.reloff, 0))), 'bss', w, what + ': has a file position', lambda e: '%s; offset %d' % (c.show(e), e.val(s.offset)))
        if not ck.ob(pc, 1 if len(f.segs) == 1 else 0, 'segment', ws, c.tag + ': there is not exactly one segment', c.show):
            return
        g = f.segs[0]
        ck.ob(pc, 1 if g.nsects == len(c.order) else 0, 'segment', ws, c.tag + ': nsects', c.show)
        end = dd.add(g.vmaddr, g.vmsize)
        fend = dd.add(g.fileoff, g.filesize)
        for k, s in zip(c.order, f.sects):
            what = '%s: section %s' % (c.tag, KEY[k][0].decode())
            ck.ob(pc, dd.band(dd.le(g.vmaddr, s.addr), dd.le(dd.add(s.addr, s.size), end)), 'segment', ws, what + ' is not inside the segment\'s memory',
                  lambda e: '%s; segment [%#x,%#x), section [%#x,+%#x)' % (c.show(e), e.val(g.vmaddr), e.val(end), e.val(s.addr), e.val(s.size)))
            if k != 'B' and c.data[k]:
                ck.ob(pc, dd.band(dd.le(g.fileoff, s.offset), dd.le(dd.add(s.offset, s.size), fend)), 'segment', ws, what + ' is not inside the segment\'s part of the file',
                      lambda e: '%s; segment [%#x,%#x), section [%#x,+%#x)' % (c.show(e), e.val(g.fileoff), e.val(fend), e.val(s.offset), e.val(s.size)))
        ck.ob(pc, dd.le(g.filesize, g.vmsize), 'segment', ws, c.tag + ': file size exceeds memory size', lambda e: '%s; filesize %d vmsize %d' % (c.show(e), e.val(g.filesize), e.val(g.vmsize)))
        ck.ob(pc, dd.le(fend, f.total), 'segment', ws, c.tag + ': the segment runs past the end of the file', lambda e: '%s; ends at %d of %d' % (c.show(e), e.val(fend), e.val(f.total)))
        total = 0
        for k in c.order:
            total = dd.add(total, c.size(k))
    ck.guard('layout', 'objects', lambda: each(ck, I, 'layout', 'c15', one))
    assume(ck)
    return dict(level='other', explanation=EXPL, floor=200)


# ---------------------------------------------------------------------- C16
def c16(ck):
    I = ck.interp()
    ck.rule('entries', 'the symbol table has exactly one entry for every symbol of the object')
    ck.rule('fields', 'an entry has its symbol\'s kind, section number, address and external flag')

    def one(c, pc, f):
        w = wh(I, 'nlist')
        ents = f.nlists()
        ck.ob(pc, 1 if len(ents) == len(c.syms) else 0, 'entries', w, '%s: %d entries for %d symbols' % (c.tag, len(ents), len(c.syms)), c.show)
        for s in c.syms:
            g = [n for n in ents if len(n[0]) == len(s.name) and all(f.same(a, b) for a, b in zip(n[0], s.name))]
            what = '%s: symbol of %d characters in %s' % (c.tag, len(s.name), s.sect)
            if not ck.ob(pc, 1 if len(g) == 1 else 0, 'entries', w, '%s has %d entries' % (what, len(g)), lambda e: '%s; %s; the table names %s' % (c.show(e), s.show(e), [text(e, n[0]) for n in ents])):
                continue
            _, ty, sec, desc, val, _ = g[0]
            b = dd.to_bits(ty, 8)
            kind = dd.from_bits((0, b[1], b[2], b[3]))

            def sh(e, ty=ty, sec=sec, val=val):
                return '%s; entry of %s: n_type %#x n_sect %d n_value %#x' % (c.show(e), s.show(e), e.val(ty), e.val(sec), e.val(val))
            want = {'Ref': 14, 'Abs': 2, 'Undef': 0}[s.kind]
            ck.ob(pc, dd.band(dd.eq(kind, want), dd.bnot(dd.bor(dd.bor(b[7], b[6]), b[5]))), 'fields', w, what + ': kind', sh)
            ck.ob(pc, dd.bnot(b[4]), 'fields', w, what + ': private external', sh)
            ck.ob(pc, b[0] if s.kind == 'Undef' else dd.biff(b[0], s.ext), 'fields', w, what + ': external flag', sh)
            if s.kind == 'Ref':
                i = c.order.index(s.sect)
                ck.ob(pc, dd.eq(sec, i + 1), 'fields', w, what + ': section number', sh)
                if i < len(f.sects):
                    ck.ob(pc, dd.eq(val, dd.add(f.sects[i].addr, s.addr)), 'fields', w, what + ': address', sh)
            else:
                ck.ob(pc, dd.eq(sec, 0), 'fields', w, what + ': section number of a symbol in no section', sh)
                ck.ob(pc, dd.eq(val, s.val if s.kind == 'Abs' else 0), 'fields', w, what + ': value', sh)
    ck.guard('entries', 'objects', lambda: each(ck, I, 'entries', 'c16', one))
    heads(ck, I, 'entries', ('symbols',))
    assume(ck)
    return dict(level='other', explanation=EXPL, floor=150)


# ---------------------------------------------------------------------- C17
def c17(ck):
    I = ck.interp()
    ck.rule('entries', 'the relocation table of a section has exactly one entry for each of its relocations')
    ck.rule('fields', 'an entry has its relocation\'s address, length and pc-relative flag, is external and absolute')
    ck.rule('symbol', 'an entry\'s symbol number is the index, in the written symbol table, of the symbol the relocation names')

    def one(c, pc, f):
        w = wh(I, 'reloc')
        ents = f.nlists()
        for k in c.order:
            s = sect_of(c, f, k)
            if s is None:
                ck.undecided('entries', w, c.tag, 'no section header')
                continue
            want = [r for r in c.rels if r.sect == k]
            what = '%s: section %s' % (c.tag, KEY[k][0].decode())
            got = f.relocs(s)
            if not ck.ob(pc, 1 if len(got) == len(want) else 0, 'entries', w, '%s has %d entries for %d relocations' % (what, len(got), len(want)), c.show):
                continue
            left = list(got)
            for n, r in enumerate(want):
                g = [x for x in left if proves(pc, dd.eq(x['addr'], r.addr))]
                x = g[0] if g else left[0]
                left.remove(x)

                def sh(e, x=x, r=r):
                    return '%s; entry of the relocation at %d to %s: address %d symbol %d pcrel %d length %d extern %d type %d' % (
                        c.show(e), e.val(r.addr), text(e, r.sym.name), e.val(x['addr']), e.val(x['sym']), e.val(x['pcrel']), e.val(x['len']), e.val(x['ext']), e.val(x['type']))
                wt = '%s, relocation %d' % (what, n)
                ck.ob(pc, dd.eq(x['addr'], r.addr), 'fields', w, wt + ': address', sh)
                ck.ob(pc, dd.eq(x['len'], r.len), 'fields', w, wt + ': length', sh)
                ck.ob(pc, dd.biff(x['pcrel'], r.pcrel), 'fields', w, wt + ': pc-relative', sh)
                ck.ob(pc, x['ext'], 'fields', w, wt + ': external', sh)
                ck.ob(pc, dd.bor(x['pcrel'], dd.eq(x['type'], 0)), 'fields', w, wt + ': type', sh)
                idx = [i for i, nl in enumerate(ents) if len(nl[0]) == len(r.sym.name) and all(f.same(a, b) for a, b in zip(nl[0], r.sym.name))]
                if len(idx) != 1:
                    ck.undecided('symbol', w, wt, 'the symbol has %d entries' % len(idx))
                    continue
                ck.ob(pc, dd.eq(x['sym'], idx[0]), 'symbol', w, wt + ': symbol number', sh)
    ck.guard('entries', 'objects', lambda: each(ck, I, 'entries', 'c17', one))
    heads(ck, I, 'entries', ('relocs',))
    assume(ck)
    return dict(level='other', explanation=EXPL, floor=100)


# ---------------------------------------------------------------------- C18
def c18(ck):
    I = ck.interp()
    ck.rule('content', 'the file holds, at a section\'s declared position, exactly the bytes of the section')
    ck.rule('gaps', 'bytes of the file that belong to nothing are zero')

    def one(c, pc, f):
        w = wh(I, 'data')
        used = [False] * len(f.e)

        def mark(i, n):
            for q in range(i, min(i + n, len(used))):
                used[q] = True
        mark(0, f.cmdend)
        for k in c.order:
            if k == 'B' or not c.data[k]:
                continue
            s = sect_of(c, f, k)
            what = '%s: section %s' % (c.tag, KEY[k][0].decode())
            if s is None:
                ck.ob(pc, 0, 'content', w, what + ': has no header', c.show)
                continue
            at(ck, c, pc, f, 'content', w, what, s.offset, c.data[k], 'offset')
            ck.ob(pc, dd.eq(s.size, c.size(k)), 'content', w, what + ': size', lambda e: '%s; size %d' % (c.show(e), e.val(s.size)))
            i = f.find(s.offset)
            if i is not None:
                mark(i, len(c.data[k]))
            r = f.find(s.reloff)
            n = macho.conc(pc, s.nreloc, 'nreloc')
            if n and r is not None:
                mark(r, 8 * n)
        if f.symtab:
            i, j = f.find(f.symtab[0]), f.find(f.symtab[2])
            if i is not None:
                mark(i, 16 * macho.conc(pc, f.symtab[1], 'nsyms'))
            if j is not None:
                mark(j, len(f.e))
        for i, x in enumerate(f.e):
            if used[i]:
                continue
            if type(x) is Run:
                z = x.info and x.info[0] == 'fill' and x.info[1] == 0
                ck.ob(pc, 1 if z else dd.eq(x.len, 0), 'gaps', w, '%s: stray bytes in the file' % c.tag, c.show)
            else:
                ck.ob(pc, dd.eq(x, 0), 'gaps', w, '%s: a gap is not zero' % c.tag, lambda e: '%s; byte %d at %d' % (c.show(e), e.val(x), e.val(f.ps[i])))
        ck.passed('gaps', w, c.tag + ': all other bytes')
    ck.guard('content', 'objects', lambda: each(ck, I, 'content', 'c18', one))
    assume(ck)
    return dict(level='other', explanation=EXPL, floor=30)
