"""at-mac: C06 - C13.

One table describes every Mach-O record as a list of (name, width, abstract field) in file order.
The writers must emit exactly that list, the readers must take exactly that list, for every value
of every field."""
from . import dd
from .chk import (adt, be_bytes, eqs, evs, from_le, hexs, le_bytes, lookup, put, simp_val, struct, variant, vnames, home)
from .dd import Undecided
from .interp import State
from .values import Agg, Ref, Seq, Sum, SCALARS

M = 'vprobe::mac::'
H = 'at_mac::header::'
L = 'at_mac::load_command::'

# ---------------------------------------------------------------------- the format
FILETYPE = {'object': 1, 'execute': 2, 'fvmlib': 3, 'core': 4, 'preload': 5, 'dylib': 6, 'dylinker': 7, 'bundle': 8,
            'dylibstub': 9, 'dsym': 10, 'kextbundle': 11, 'fileset': 12}
MAGIC = {'magic64': 0xfeedfacf, 'cigam64': 0xcffaedfe, 'magic': 0xfeedface, 'cigam': 0xcefaedfe, 'fatmagic': 0xcafebabe, 'fatcigam': 0xbebafeca}
FLAG = {'noundefs': 1, 'incrlink': 2, 'dyldlink': 4, 'bindatload': 8, 'prebound': 0x10, 'splitsegs': 0x20, 'lazyinit': 0x40,
        'twolevel': 0x80, 'forceflat': 0x100, 'nomultidefs': 0x200, 'nofixprebinding': 0x400, 'prebindable': 0x800,
        'allmodsbound': 0x1000, 'subsectionsviasymbols': 0x2000, 'canonical': 0x4000, 'weakdefines': 0x8000, 'bindstoweak': 0x10000,
        'allowstackexecution': 0x20000, 'rootsafe': 0x40000, 'setuidsafe': 0x80000, 'noreexporteddylibs': 0x100000, 'pie': 0x200000,
        'deadstrippabledylib': 0x400000, 'hastlvdescriptors': 0x800000, 'noheapexecution': 0x1000000, 'appextensionsafe': 0x2000000}
SECTTYPE = {'regular': 0, 'zerofill': 1, 'cstringliterals': 2, 'fourbyteliterals': 3, 'eightbyteliterals': 4, 'literalpointers': 5,
            'nonlazysymbolpointers': 6, 'lazysymbolpointers': 7, 'symbolstubs': 8, 'modinitfuncpointers': 9, 'modtermfuncpointers': 10,
            'coalesced': 11, 'gbzerofill': 12, 'interposing': 13, 'sixteenbyteliterals': 14}
SECTATTR = {'pureinstructions': 0x80000000, 'notoc': 0x40000000, 'stripstaticsyms': 0x20000000, 'nodeadstrip': 0x10000000,
            'livesupport': 0x08000000, 'selfmodifyingcode': 0x04000000, 'debug': 0x02000000, 'someinstructions': 0x400,
            'extreloc': 0x200, 'locreloc': 0x100}
PLATFORM = {'macos': 1, 'ios': 2, 'tvos': 3, 'watchos': 4, 'bridgeos': 5, 'maccatalyst': 6, 'iosmac': 6, 'iossimulator': 7, 'tvossimulator': 8,
            'watchossimulator': 9, 'driverkit': 10}
TOOL = {'clang': 1, 'swift': 2, 'ld': 3, 'lld': 4}
NTYPE = {'undf': 0, 'abs': 2, 'sect': 14, 'pbud': 12, 'indr': 10}
STAB = {'gsym': 0x20, 'fname': 0x22, 'fun': 0x24, 'stsym': 0x26, 'lcsym': 0x28, 'main': 0x2a, 'bnsym': 0x2e, 'opt': 0x3c, 'rsym': 0x40,
        'sline': 0x44, 'ensym': 0x4e, 'ssym': 0x60, 'so': 0x64, 'oso': 0x66, 'lsym': 0x80, 'bincl': 0x82, 'sol': 0x84, 'psym': 0xa0,
        'eincl': 0xa2, 'entry': 0xa4, 'lbrac': 0xc0, 'excl': 0xc2, 'rbrac': 0xe0, 'bcomm': 0xe2, 'ecomm': 0xe4, 'ecoml': 0xe8, 'leng': 0xfe}
X86RELOC = {'vanilla': 0, 'pair': 1, 'sectdiff': 2, 'pblaptr': 3, 'localsectdiff': 4, 'tlv': 5}
X64RELOC = {'unsigned': 0, 'signed': 1, 'branch': 2, 'gotload': 3, 'got': 4, 'subtractor': 5, 'signed1': 6, 'signed2': 7, 'signed4': 8, 'tlv': 9}
RLEN = {'byte': 0, 'onebyte': 0, 'len1': 0, 'word': 1, 'twobyte': 1, 'twobytes': 1, 'long': 2, 'fourbyte': 2, 'quad': 3, 'eightbyte': 3}

TY = dict(filetype=H + 'FileType', magic=H + 'Magic', flag=H + 'Flag', secttype=L + 'segment64::SectionType', attr=L + 'segment64::SectionAttr',
          platform=L + 'build_version::Platform', tool=L + 'build_version::Tool', ntype='at_mac::nlist::NType', stab='at_mac::nlist::DebugSymbol',
          x86reloc='at_mac::reloc::X86RelocType', x64reloc='at_mac::reloc::X86_64RelocType', rlen='at_mac::reloc::RelocLength')
TAB = dict(filetype=FILETYPE, magic=MAGIC, flag=FLAG, secttype=SECTTYPE, attr=SECTATTR, platform=PLATFORM, tool=TOOL, ntype=NTYPE, stab=STAB,
           x86reloc=X86RELOC, x64reloc=X64RELOC, rlen=RLEN)
SIZES = dict(header=0x20, seg=0x48, sect=0x50, symtab=0x18, dysymtab=0x50, build=0x18, tool=8, nlist=16, reloc=8)
CMD = dict(seg=0x19, symtab=2, dysymtab=0xb, build=0x32)
HDR = {'le': bytes.fromhex('cffaedfe07000001030000000100000000000000000000000000000000000000'),
       'be': bytes.fromhex('feedfacf0100000700000003000000010000000000000000000000000000000000')[:32]}


def norm(s):
    return ''.join(ch for ch in s.lower() if ch.isalnum())


def codes(P, kind):
    """the number the format gives to every variant of the repository's enum (None: a name the table does not know)"""
    ns = vnames(P, TY[kind])
    return ns, [TAB[kind].get(norm(n)) for n in ns]


class Fld:
    """an abstract field: the value the repository holds (v), its number in the file (n), when it is meaningful (pc)"""

    def __init__(self, v, n, pc=1):
        self.v, self.n, self.pc = v, n, pc


def num(name, w, signed=False):
    n = dd.uvar(name, w)
    return Fld(dd.wrap(n, w, True) if signed else n, n)


def code(P, kind, name):
    ns, cs = codes(P, kind)
    if None in cs:
        keep = [i for i, c in enumerate(cs) if c is not None]
    else:
        keep = list(range(len(cs)))
    x = dd.var(name, 0, len(ns) - 1)
    pc = dd.domain(x)
    ok = 0
    for i in keep:
        ok = dd.bor(ok, dd.eq(x, i))
    return Fld(Agg(x, ()), lookup(x, [c or 0 for c in cs]), dd.band(pc, ok))


def text(name, n):
    """a name of n bytes: ASCII without NUL"""
    bs, pc = [], 1
    for i in range(n):
        b = dd.var('%s[%d]' % (name, i), 1, 127)
        bs.append(b)
        pc = dd.band(pc, dd.domain(b))
    return Fld(Seq(tuple(bs)), bs + [0] * (16 - n), pc)


class Rec:
    """a record: value, its file form as (field name, width in bytes, number or list of bytes)"""

    def __init__(self, kind, v, parts, pc, pre=None, label=''):
        self.kind, self.v, self.parts, self.pc, self.label = kind, v, parts, pc, label

    def bytes(self, order):
        out = []
        for name, w, n in self.parts:
            if type(n) is list:
                out += n
            else:
                out += (le_bytes if order == 'le' else be_bytes)(n, w)
        return out

    def at(self, off):
        o = 0
        for name, w, n in self.parts:
            if off < o + w:
                return name
            o += w
        return '?'


def run1(ck, I, name, args, pc=1, st=None):
    """the single returning outcome of a function that must not fail"""
    outs = ck.outs(I, M + name, args, st, pc)
    good = [o for o in outs if o.kind == 'ret']
    if len(good) != 1 or len(outs) != 1:
        raise Undecided('%s has outcomes %s' % (name, [o.kind for o in outs]))
    return good[0]


def flagvals(ck, I, kind, bits, tag):
    """(opaque value, number, path condition) for every word whose set bits are among `bits`"""
    res = []
    fn = 'flags_from' if kind == 'flag' else 'attrs_from'
    for m in range(1 << len(bits)):
        n = sum(b for i, b in enumerate(bits) if m >> i & 1)
        for o in ck.outs(I, M + fn, [n]):
            if o.kind == 'ret':
                res.append((o.val, n))
    return res


def words(P, kind):
    ns, cs = codes(P, kind)
    return [c for c in cs if c is not None]


def samples_of(ck, P, kind, n):
    """words for the flag fields of whole records: none, each alone, all, some pairs"""
    w = words(P, kind)
    out = [0] + w + [sum(w)]
    for _ in range(n):
        a, b = ck.rnd.sample(w, 2)
        out.append(a | b)
    return out


# ---------------------------------------------------------------------- records
def version(P, name):
    ma, mi, re = dd.uvar(name + '.major', 16), dd.uvar(name + '.minor', 8), dd.uvar(name + '.release', 8)
    n = dd.from_bits(tuple(dd.to_bits(re, 8)) + tuple(dd.to_bits(mi, 8)) + tuple(dd.to_bits(ma, 16)))
    return Fld(struct(P, L + 'build_version::Version', major=ma, minor=mi, release=re), n)


def rec_header(ck, I, t):
    P = I.P
    for fw in samples_of(ck, P, 'flag', 4):
        o = run1(ck, I, 'flags_from', [fw])
        ft = code(P, 'filetype', t + 'filetype')
        nc, sc, rv = num(t + 'ncmds', 32), num(t + 'sizeofcmds', 32), num(t + 'reserved', 32)
        for cpu, cn in (('X86_64', 0x01000007), ('X86', 7)):
            sub = Agg(0, ())
            for mg in ('Magic64', 'Magic'):
                v = struct(P, H + 'Header64', magic=variant(P, H + 'Magic', mg), cpu_type=variant(P, H + 'CpuType', cpu, sub), file_type=ft.v,
                           n_cmds=nc.v, size_of_cmds=sc.v, flags=o.val, reserved=rv.v)
                yield Rec('header', v, [('magic', 4, MAGIC[norm(mg)]), ('cputype', 4, cn), ('cpusubtype', 4, 3), ('filetype', 4, ft.n), ('ncmds', 4, nc.n),
                                        ('sizeofcmds', 4, sc.n), ('flags', 4, fw), ('reserved', 4, rv.n)], ft.pc, label='%s flags=%#x' % (cpu, fw))


def rec_seg(ck, I, t, nsects=None, lens=(0, 5, 16)):
    P = I.P
    for ln in lens:
        if nsects is None:
            yield from rec_seg(ck, I, t + 'big.', 0x100203, (4,))
        f = {k: num(t + k, 64) for k in ('vmaddr', 'vmsize', 'fileoff', 'filesize')}
        f.update({k: num(t + k, 32, True) for k in ('maxprot', 'initprot')})
        f['flags'] = num(t + 'flags', 32)
        nm = text(t + 'segname', ln)
        if nsects is None:
            ns = dd.uvar(t + 'nsects', 6)
            pc = 1
            cs = lookup(ns, [0x48 + 0x50 * k for k in range(64)])
        else:
            ns, pc, cs = nsects, 1, 0x48 + 0x50 * nsects
        v = struct(P, L + 'segment64::SegmentCommand64', cmd=0x19, cmdsize=cs, segname=nm.v, nsects=ns, **{k: x.v for k, x in f.items()})
        yield Rec('seg', v, [('cmd', 4, 0x19), ('cmdsize', 4, cs), ('segname', 16, nm.n), ('vmaddr', 8, f['vmaddr'].n), ('vmsize', 8, f['vmsize'].n),
                             ('fileoff', 8, f['fileoff'].n), ('filesize', 8, f['filesize'].n), ('maxprot', 4, f['maxprot'].n),
                             ('initprot', 4, f['initprot'].n), ('nsects', 4, ns), ('flags', 4, f['flags'].n)], dd.band(pc, nm.pc), label='name of %d bytes' % ln)


def rec_sect(ck, I, t, words_=None, lens=((6, 6), (16, 16), (0, 16), (16, 0))):
    P = I.P
    ws = words_ if words_ is not None else samples_of(ck, P, 'attr', 4)
    for k, aw in enumerate(ws):
        for ln in (lens if k == 0 else lens[:1]):
            o = run1(ck, I, 'attrs_from', [aw])
            f = {x: num(t + x, 64) for x in ('addr', 'size')}
            f.update({x: num(t + x, 32) for x in ('offset', 'align', 'reloff', 'nreloc', 'reserved1', 'reserved2', 'reserved3')})
            st = code(P, 'secttype', t + 'type')
            n1, n2 = text(t + 'sectname', ln[0]), text(t + 'segname', ln[1])
            v = struct(P, L + 'segment64::Section64', sectname=n1.v, segname=n2.v, flags=Agg(0, (o.val, st.v)), **{x: y.v for x, y in f.items()})
            fl = dd.add(st.n, aw)
            yield Rec('sect', v, [('sectname', 16, n1.n), ('segname', 16, n2.n)] + [(x, 8, f[x].n) for x in ('addr', 'size')] +
                      [(x, 4, f[x].n) for x in ('offset', 'align', 'reloff', 'nreloc')] + [('flags', 4, fl)] +
                      [(x, 4, f[x].n) for x in ('reserved1', 'reserved2', 'reserved3')],
                      dd.band(st.pc, dd.band(n1.pc, n2.pc)), label='attributes %#x' % aw)


def plain(kind, ty, names, cmd):
    def rec(ck, I, t):
        f = {x: num(t + x, 32) for x in names}
        v = struct(I.P, ty, cmd=cmd, cmdsize=SIZES[kind], **{x: y.v for x, y in f.items()})
        yield Rec(kind, v, [('cmd', 4, cmd), ('cmdsize', 4, SIZES[kind])] + [(x, 4, f[x].n) for x in names], 1)
    return rec


rec_symtab = plain('symtab', L + 'symtab::SymtabCommand', ['symoff', 'nsyms', 'stroff', 'strsize'], 2)
rec_dysymtab = plain('dysymtab', L + 'dysymtab::DysymtabCommand',
                     ['ilocalsym', 'nlocalsym', 'iextdefsym', 'nextdefsym', 'iundefsym', 'nundefsym', 'tocoff', 'ntoc', 'modtaboff', 'nmodtab',
                      'extrefsymoff', 'nextrefsyms', 'indirectsymoff', 'nindirectsyms', 'extreloff', 'nextrel', 'locreloff', 'nlocrel'], 0xb)


def rec_build(ck, I, t, ntools=None):
    P = I.P
    pf, mi, sdk = code(P, 'platform', t + 'platform'), version(P, t + 'minos'), version(P, t + 'sdk')
    if ntools is None:
        yield from rec_build(ck, I, t + 'big.', 0x100203)
        nt = dd.uvar(t + 'ntools', 6)
        pc, cs = 1, lookup(nt, [0x18 + 8 * k for k in range(64)])
    else:
        nt, pc, cs = ntools, 1, 0x18 + 8 * ntools
    v = struct(P, L + 'build_version::BuildVersionCommand', cmd=0x32, cmdsize=cs, platform=pf.v, minos=mi.v, sdk=sdk.v, ntools=nt)
    yield Rec('build', v, [('cmd', 4, 0x32), ('cmdsize', 4, cs), ('platform', 4, pf.n), ('minos', 4, mi.n), ('sdk', 4, sdk.n), ('ntools', 4, nt)],
              dd.band(pc, pf.pc))


def rec_tool(ck, I, t):
    tl, vs = code(I.P, 'tool', t + 'tool'), num(t + 'version', 32)
    yield Rec('tool', struct(I.P, L + 'build_version::BuildToolVersion', tool=tl.v, version=vs.v), [('tool', 4, tl.n), ('version', 4, vs.n)], tl.pc)


def ntypes(P, t):
    ty = code(P, 'ntype', t + 'n_type')
    pe, ex = dd.uvar(t + 'pext', 1), dd.uvar(t + 'ext', 1)
    n = dd.add(dd.add(dd.scale(pe, 16), ty.n), ex)
    T = 'at_mac::nlist::NTypeField'
    vt = P.ty(adt(P, T))['variants']
    i = [k for k, v in enumerate(vt) if v['n'] == 'Norm'][0]
    fs = {'n_pext': pe, 'n_type': ty.v, 'n_ext': ex}
    if {f[0] for f in vt[i]['f']} != set(fs):
        raise Undecided('fields of NTypeField::Norm')
    yield 'Norm', Fld(Agg(i, tuple(fs[f[0]] for f in vt[i]['f'])), n, ty.pc)
    db = code(P, 'stab', t + 'stab')
    yield 'Stab', Fld(variant(P, T, 'Stab', db.v), db.n, db.pc)


def rec_nlist(ck, I, t):
    for nm, ty in ntypes(I.P, t):
        sx, sc, ds, vl = num(t + 'strx', 32), num(t + 'sect', 8), num(t + 'desc', 16), num(t + 'value', 64)
        v = struct(I.P, 'at_mac::nlist::NList64', n_strx=sx.v, n_type=ty.v, n_sect=sc.v, n_desc=ds.v, n_value=vl.v)
        yield Rec('nlist', v, [('n_strx', 4, sx.n), ('n_type', 1, ty.n), ('n_sect', 1, sc.n), ('n_desc', 2, ds.n), ('n_value', 8, vl.n)], ty.pc, label=nm)


class RelocRec(Rec):
    def bytes(self, order):
        ad, sn, pr, ln, ex, ty = self.w
        B = dd.to_bits
        if order == 'le':
            w = B(sn, 24) + B(pr, 1) + B(ln, 2) + B(ex, 1) + B(ty, 4)
            return le_bytes(ad, 4) + le_bytes(dd.from_bits(tuple(w)), 4)
        w = B(ty, 4) + B(ex, 1) + B(ln, 2) + B(pr, 1) + B(sn, 24)
        return be_bytes(ad, 4) + be_bytes(dd.from_bits(tuple(w)), 4)

    def at(self, off):
        return 'r_address' if off < 4 else 'packed word'


def rec_reloc(ck, I, t):
    ad, sn, ty = num(t + 'address', 32, True), num(t + 'symbolnum', 24), num(t + 'type', 4)
    pr, ex, ln = dd.uvar(t + 'pcrel', 1), dd.uvar(t + 'extern', 1), code(I.P, 'rlen', t + 'length')
    v = struct(I.P, 'at_mac::reloc::RelocationInfo', r_address=ad.v, r_symbolnum=sn.v, r_pcrel=pr, r_length=ln.v, r_extern=ex, r_type=ty.v)
    r = RelocRec('reloc', v, None, ln.pc)
    r.w = (ad.n, sn.n, pr, ln.n, ex, ty.n)
    yield r


RECS = dict(header=rec_header, seg=rec_seg, sect=rec_sect, symtab=rec_symtab, dysymtab=rec_dysymtab, build=rec_build, tool=rec_tool, nlist=rec_nlist, reloc=rec_reloc)


def rest(ck, rule, w, outs, what, show=None, pc=1):
    """reports every outcome that is not a return; yields the returns"""
    for o in outs:
        if o.kind == 'ret':
            yield o
        elif o.kind == 'undec':
            ck.undecided(rule, w, what, '%s at %s' % (o.val, o.where))
        else:
            ck.ob(o.st.pc, 0, rule, w, '%s: does not complete: %s at %s' % (what, o.val, o.where), show)


def true(c):
    return type(c) is int and c == 1


def cmp_bytes(ck, rule, w, what, pc, got, want, at=None):
    if type(got) is not Seq or not got.flat():
        return ck.undecided(rule, w, what, 'written bytes are not explicit')
    g = list(got.e)
    if len(g) != len(want):
        return ck.ob(pc, 0, rule, w, '%s: %d bytes are written, the record has %d' % (what, len(g), len(want)), lambda e: hexs(e, g))
    bad = [i for i in range(len(g)) if not true(dd.bor(dd.bnot(pc), dd.eq(g[i], want[i])))]
    s = ('%s: wrong bytes at offset %#x (%s)' % (what, bad[0], at(bad[0]) if at else '')) if bad else what
    return ck.ob(pc, eqs(g, want), rule, w, s, lambda e: 'written %s, the format wants %s' % (hexs(e, g), hexs(e, want)))


# ---------------------------------------------------------------------- C06
def c06(ck):
    I = ck.interp()
    ck.rule('layout', 'for every value of every field the bytes written are the field list of the Mach-O format, little-endian on this host')
    ck.rule('size', 'the SIZE constant of a record is the size the format gives it')

    def sizes():
        o = run1(ck, I, 'consts', [])
        for (k, want), got in zip(SIZES.items(), o.val.e if type(o.val) is Seq else o.val.f):
            w = 'at_mac ' + k
            (ck.passed if got == want else ck.fail)('size', w, '%s::SIZE is %#x, the format has %#x' % (k, got, want))
    ck.guard('size', 'SIZE constants', sizes)
    for kind, gen in RECS.items():
        def one():
            w = home(I, M + 'w_' + kind, 'write_into')
            for i, r in enumerate(gen(ck, I, 'c06.%s.' % kind)):
                st = State()
                a = r.v if kind == 'reloc' else put(st, r.v)
                for o in rest(ck, 'layout', w, ck.outs(I, M + 'w_' + kind, [a], st, r.pc), 'writing %s %s' % (kind, r.label)):
                    cmp_bytes(ck, 'layout', w, '%s %s' % (kind, r.label), o.st.pc, simp_val(o.val, o.st.pc), r.bytes('le'), r.at)
        ck.guard('layout', kind, one)
    ck.assume.append('the host is little-endian (the target the MIR is compiled for); writers use native byte order')
    return dict(level='other', explanation='abstract interpretation of the MIR of every writer over symbolic field values; the emitted byte list is compared, byte by byte '
                'as decision diagrams over the field bits, with a layout table written from the Mach-O specification', floor=60)


def same(ck, I, rule, w, what, pc, got, want, P, path=''):
    """the read value equals the expected one, field by field (flag sets compared by their number)"""
    ty = getattr(got, 'ty', None)
    if type(got) in SCALARS and type(want) in SCALARS:
        return ck.ob(pc, dd.eq(got, want), rule, w, '%s: field %s' % (what, path or 'value'), lambda e: 'read %#x, want %#x' % (e.val(got), e.val(want)))
    if type(got) is Seq and type(want) is Seq:
        if not got.flat() or len(got.e) != len(want.e):
            return ck.ob(pc, 0, rule, w, '%s: field %s has another length' % (what, path), lambda e: 'read %s, want %s' % (evs(e, got), evs(e, want)))
        return ck.ob(pc, eqs(got.e, want.e), rule, w, '%s: field %s' % (what, path), lambda e: 'read %s, want %s' % (evs(e, got), evs(e, want)))
    if type(got) is Agg and type(want) is Agg and len(got.f) == len(want.f):
        c = dd.eq(got.v, want.v)
        ck.ob(pc, c, rule, w, '%s: variant of %s' % (what, path), lambda e: 'read variant %s, want %s' % (e.val(got.v), e.val(want.v)))
        for i, (a, b) in enumerate(zip(got.f, want.f)):
            same(ck, I, rule, w, what, pc, a, b, P, '%s.%d' % (path, i))
        return
    raise Undecided('comparison of %s with %s' % (type(got).__name__, type(want).__name__))


def fieldnames(P, ty):
    return [f[0] for f in P.ty(adt(P, ty))['variants'][0]['f']]


RECTY = dict(header=H + 'Header64', seg=L + 'segment64::SegmentCommand64', sect=L + 'segment64::Section64', symtab=L + 'symtab::SymtabCommand',
             dysymtab=L + 'dysymtab::DysymtabCommand', build=L + 'build_version::BuildVersionCommand', tool=L + 'build_version::BuildToolVersion',
             nlist='at_mac::nlist::NList64', reloc='at_mac::reloc::RelocationInfo')


def flagword(ck, I, v, fn, st):
    s = st.copy()
    o = [x for x in ck.outs(I, M + fn, [put(s, v)], s) if x.kind == 'ret']
    if len(o) != 1:
        raise Undecided('flag word')
    return o[0].val


def same_rec(ck, I, rule, w, what, o, got, r):
    P = I.P
    ns = fieldnames(P, RECTY[r.kind])
    pc = o.st.pc
    for n, a, b in zip(ns, got.f, r.v.f):
        if r.kind == 'header' and n == 'flags':
            same(ck, I, rule, w, what, pc, flagword(ck, I, a, 'flags_to', o.st), flagword(ck, I, b, 'flags_to', o.st), P, n)
        elif r.kind == 'sect' and n == 'flags':
            same(ck, I, rule, w, what, pc, flagword(ck, I, a.f[0], 'attrs_to', o.st), flagword(ck, I, b.f[0], 'attrs_to', o.st), P, 'attributes')
            same(ck, I, rule, w, what, pc, a.f[1], b.f[1], P, 'type')
        else:
            same(ck, I, rule, w, what, pc, simp_val(a, pc), simp_val(b, pc), P, n)


def norm_sum(v, pc):
    return simp_val(v, pc)


# ---------------------------------------------------------------------- C07
def c07(ck):
    I = ck.interp()
    ck.rule('fields', 'for every content of the record, read in the byte order the header announces, each field is the number at its documented place')
    ck.rule('consume', 'exactly the bytes of the record are consumed; what follows stays unread')
    ck.rule('truncated', 'a record that ends early is not read as a value')
    for kind, gen in RECS.items():
        for order in ('le', 'be'):
            def one():
                w = home(I, M + 'r_' + kind, 'read_from' if kind == 'header' else 'read_from_in')
                for i, r in enumerate(gen(ck, I, 'c07.%s.%s.' % (kind, order))):
                    what = 'reading %s %s (%s)' % (kind, r.label, 'big-endian' if order == 'be' else 'little-endian')
                    bs = r.bytes(order)
                    if kind == 'header' and order == 'be':
                        # a reversed magic is what a big-endian file shows to a little-endian reader
                        vs = list(r.v.f)
                        mi = fieldnames(I.P, RECTY['header']).index('magic')
                        mg = 'Cigam64' if r.parts[0][2] == MAGIC['magic64'] else 'Cigam'
                        vs[mi] = variant(I.P, H + 'Magic', mg)
                        r.v = Agg(0, tuple(vs))
                    extra = [dd.uvar('c07.extra%d' % k, 8) for k in range(3)]
                    st = State()
                    if kind == 'header':
                        args = [put(st, Seq(tuple(bs + extra)), True)]
                    else:
                        args = [put(st, Seq(tuple(HDR[order])), True), put(st, Seq(tuple(bs + extra)), True)]
                    for o in rest(ck, 'fields', w, ck.outs(I, M + 'r_' + kind, args, st, r.pc), what, lambda e: 'bytes ' + hexs(e, bs)):
                        got, left = o.val.f
                        ck.ob(o.st.pc, dd.eq(left, 3), 'consume', w, '%s: %d bytes of the next record must stay' % (what, 3), lambda e: '%d stay' % e.val(left))
                        same_rec(ck, I, 'fields', w, what, o, got, r)
                    if i == 0 and len(bs) > 1:
                        cut = bs[:len(bs) - 1]
                        st = State()
                        if kind == 'header':
                            args = [put(st, Seq(tuple(cut)), True)]
                        else:
                            args = [put(st, Seq(tuple(HDR[order])), True), put(st, Seq(tuple(cut)), True)]
                        nret = 0
                        for o in ck.outs(I, M + 'r_' + kind, args, st, r.pc):
                            if o.kind == 'ret':
                                nret += 1
                                ck.ob(o.st.pc, 0, 'truncated', w, '%s: returns a value for a record of which the last byte is missing' % what, lambda e: 'bytes ' + hexs(e, cut))
                        if not nret:
                            ck.passed('truncated', w, what)
            ck.guard('fields', kind + ' ' + order, one)

    def whole():
        for r, what in lcs(ck, I, 'c07.lc.', 2):
            for order in ('le', 'be'):
                read_lc(ck, I, 'fields', r, what, order)
    ck.guard('fields', 'load commands', whole)
    return dict(level='other', explanation='abstract interpretation of the MIR of every reader over symbolic record bytes in both byte orders, compared field by field with a '
                'layout table written from the Mach-O specification', floor=150)


# ---------------------------------------------------------------------- C08
def c08(ck):
    I = ck.interp()
    ck.rule('roundtrip', 'reading what the writer wrote gives a value equal to the one written (the type\'s own equality), with nothing left over')
    hdr = HDR['le']
    for kind, gen in RECS.items():
        def one():
            w = home(I, M + 'w_' + kind, 'write_into')
            for r in gen(ck, I, 'c08.%s.' % kind):
                st = State()
                if kind == 'header':
                    args = [put(st, r.v)]
                elif kind == 'reloc':
                    args = [put(st, Seq(tuple(hdr)), True), r.v]
                else:
                    args = [put(st, Seq(tuple(hdr)), True), put(st, r.v)]
                what = '%s %s' % (kind, r.label)
                for o in rest(ck, 'roundtrip', w, ck.outs(I, M + 'rt_' + kind, args, st, r.pc), what):
                    a, left = o.val.f
                    ck.ob(o.st.pc, dd.eq(left, 0), 'roundtrip', w, what + ': bytes left over')
                    if kind == 'reloc':
                        same_rec(ck, I, 'roundtrip', w, what, o, a, r)
                    else:
                        ck.ob(o.st.pc, dd.eq(a, 1), 'roundtrip', w, what + ': comes back different')
        ck.guard('roundtrip', kind, one)
    top = 3 if ck.tier == 'quick' else 6
    for r, what in lcs(ck, I, 'c08.lc.', top):
        def one():
            w = home(I, M + 'w_lc', 'write_into')
            st = State()
            args = [put(st, Seq(tuple(hdr)), True), put(st, r.v)]
            for o in rest(ck, 'roundtrip', w, ck.outs(I, M + 'rt_lc', args, st, r.pc), what):
                a, left = o.val.f
                ck.ob(o.st.pc, dd.band(dd.eq(a, 1), dd.eq(left, 0)), 'roundtrip', w, what + ': comes back different')
        ck.guard('roundtrip', what, one)
    ck.assume.append('load commands with up to %d nested entries' % (top - 1))
    return dict(level='other', explanation='abstract interpretation of writer, reader and equality of every record over symbolic field values', floor=60)


def lcs(ck, I, t, top):
    """whole load commands with 0 .. top-1 nested entries"""
    P = I.P
    T = L + 'LoadCommand'
    for k in range(top):
        seg = next(iter(rec_seg(ck, I, t + 'seg%d.' % k, k, (4,))))
        subs = [next(iter(rec_sect(ck, I, t + 'seg%d.%d.' % (k, i), [[0x80000400, 0, 0x300][i % 3]], ((6, 6),)))) for i in range(k)]
        pc = seg.pc
        for s in subs:
            pc = dd.band(pc, s.pc)
        yield Rec('seg', variant(P, T, 'Segment64', seg.v, Seq(tuple(s.v for s in subs))), seg.parts + [x for s in subs for x in s.parts], pc), 'segment with %d sections' % k
    for k in range(top):
        b = next(iter(rec_build(ck, I, t + 'bv%d.' % k, k)))
        subs = [next(iter(rec_tool(ck, I, t + 'bv%d.%d.' % (k, i)))) for i in range(k)]
        pc = b.pc
        for s in subs:
            pc = dd.band(pc, s.pc)
        yield Rec('build', variant(P, T, 'BuildVersion', b.v, Seq(tuple(s.v for s in subs))), b.parts + [x for s in subs for x in s.parts], pc), 'build version with %d tools' % k
    s = next(iter(rec_symtab(ck, I, t + 'sym.')))
    yield Rec('symtab', variant(P, T, 'Symtab', s.v), s.parts, s.pc), 'symtab'
    s = next(iter(rec_dysymtab(ck, I, t + 'dys.')))
    yield Rec('dysymtab', variant(P, T, 'Dysymtab', s.v), s.parts, s.pc), 'dysymtab'


# ---------------------------------------------------------------------- C09
def c09(ck):
    I = ck.interp()
    P = I.P
    ck.rule('to', 'a named code is written as the number the format assigns to it')
    ck.rule('from', 'a number is recognised as a named code only if it is that code\'s number, and every known number is recognised')

    def to(kind, fn, byref=False):
        w = home(I, M + fn, 'to_')
        c = code(P, kind, 'c09.%s.to' % kind)
        st = State()
        a = put(st, c.v) if byref else c.v
        for o in rest(ck, 'to', w, ck.outs(I, M + fn, [a], st, c.pc), fn):
            ck.ob(o.st.pc, dd.eq(o.val, c.n), 'to', w, 'number of a %s' % kind,
                  lambda e: '%s is written as %#x, the format has %#x' % (vnames(P, TY[kind])[e.val(c.v.v)], e.val(o.val), e.val(c.n)))

    def frm(kind, fn, bits, opt=False):
        w = home(I, M + fn, 'from_')
        ns, cs = codes(P, kind)
        n = dd.uvar('c09.%s.from' % kind, bits)
        known = 0
        for c in cs:
            if c is not None:
                known = dd.bor(known, dd.eq(n, c))
        unk = [i for i, c in enumerate(cs) if c is None]
        for o in ck.outs(I, M + fn, [n]):
            if o.kind == 'undec':
                ck.undecided('from', w, fn, o.val)
                continue
            if o.kind != 'ret':
                ck.ob(o.st.pc, dd.bnot(known), 'from', w, 'a known number of a %s is refused' % kind, lambda e: '%#x is refused' % e.val(n))
                continue
            vs = [(o.st.pc, o.val)]
            if opt:
                t = o.val.t if type(o.val) is Sum else o.val.v
                none = dd.band(o.st.pc, dd.eq(t, 0))
                ck.ob(none, dd.bnot(known), 'from', w, 'a known number of a %s is refused' % kind, lambda e: '%#x is refused' % e.val(n))
                pay = o.val.alts.get(1) if type(o.val) is Sum else (o.val.f if true(dd.eq(t, 1)) else None)
                vs = [(dd.band(o.st.pc, dd.eq(t, 1)), pay[0])] if pay else []
            for pc, v in vs:
                x = v.t if type(v) is Sum else v.v
                good = dd.eq(lookup(x, [c or 0 for c in cs]), n)
                for u in unk:
                    good = dd.bor(good, dd.eq(x, u))
                ck.ob(pc, good, 'from', w, 'a number is taken for a %s it is not' % kind, lambda e: '%#x is read as %s' % (e.val(n), ns[e.val(x)]))

    for kind, fn, byref in (('magic', 'magic_to', True), ('filetype', 'filetype_to', False), ('flag', 'flag_to', False), ('secttype', 'secttype_to', False),
                            ('attr', 'attr_to', False), ('platform', 'platform_to', False), ('tool', 'tool_to', False), ('x86reloc', 'x86reloc_to', False),
                            ('x64reloc', 'x64reloc_to', False), ('rlen', 'rlen_to', False)):
        ck.guard('to', fn, lambda: to(kind, fn, byref))
    for kind, fn, bits, opt in (('magic', 'magic_from', 32, False), ('magic', 'magic_try', 32, True), ('filetype', 'filetype_from', 32, False),
                                ('flag', 'flag_from', 32, False), ('secttype', 'secttype_from', 32, False), ('attr', 'attr_from', 32, False),
                                ('platform', 'platform_from', 32, False), ('tool', 'tool_from', 32, False), ('x86reloc', 'x86reloc_from', 8, False),
                                ('x64reloc', 'x64reloc_from', 8, False), ('rlen', 'rlen_from', 32, False)):
        ck.guard('from', fn, lambda: frm(kind, fn, bits, opt))

    def cpu():
        w = home(I, M + 'cpu_to', 'to_')
        T = H + 'CpuType'
        for nm, want in (('X86', 7), ('X86_64', 0x01000007)):
            st = State()
            v = put(st, variant(P, T, nm, Agg(0, ())))
            for o in rest(ck, 'to', w, ck.outs(I, M + 'cpu_to', [v], st), nm):
                a, b = o.val.f
                ck.ob(o.st.pc, dd.band(dd.eq(a, want), dd.eq(b, 3)), 'to', w, 'cpu type and subtype of ' + nm, lambda e: '(%#x, %#x)' % (e.val(a), e.val(b)))
        w = home(I, M + 'cpu_from', 'from_')
        a, b = dd.uvar('c09.cpu', 32), dd.uvar('c09.sub', 32)
        names = vnames(P, T)
        ok = dd.band(dd.bor(dd.eq(a, 7), dd.eq(a, 0x01000007)), dd.eq(b, 3))
        for o in ck.outs(I, M + 'cpu_from', [dd.wrap(a, 32, True), dd.wrap(b, 32, True)]):
            if o.kind == 'undec':
                ck.undecided('from', w, 'cpu_from', o.val)
            elif o.kind != 'ret':
                ck.ob(o.st.pc, dd.bnot(ok), 'from', w, 'a known cpu type is refused', lambda e: '(%#x, %#x)' % (e.val(a), e.val(b)))
            else:
                t = o.val.t if type(o.val) is Sum else o.val.v
                want = 0
                for i, nm in enumerate(names):
                    if nm in ('X86', 'X86_64'):
                        want = dd.bor(want, dd.band(dd.eq(t, i), dd.eq(a, 7 if nm == 'X86' else 0x01000007)))
                    else:
                        want = dd.bor(want, dd.eq(t, i))
                ck.ob(o.st.pc, dd.band(want, dd.eq(b, 3)), 'from', w, 'cpu type', lambda e: '(%#x, %#x) is read as %s' % (e.val(a), e.val(b), names[e.val(t)]))
    ck.guard('from', 'cpu', cpu)

    # enums which are only reachable inside packed fields
    def inside():
        w = home(I, M + 'ntype_to', 'to_')
        for nm, f in ntypes(P, 'c09.nt.'):
            for o in rest(ck, 'to', w, ck.outs(I, M + 'ntype_to', [f.v], None, f.pc), nm):
                ck.ob(o.st.pc, dd.eq(o.val, f.n), 'to', w, 'symbol type byte (%s)' % nm, lambda e: 'written %#x, the format has %#x' % (e.val(o.val), e.val(f.n)))
    ck.guard('to', 'symbol type', inside)
    ck.guard('from', 'symbol type', lambda: ntype_from(ck, I, 'from', 'c09.ntf'))
    return dict(level='other', explanation='abstract interpretation of every code conversion over all numbers of its width (as decision diagrams over the bits) against '
                'a table of codes written from the Mach-O headers; relocation and symbol types included', floor=30)


def ntype_from(ck, I, rule, tag):
    """all 256 symbol type bytes"""
    P = I.P
    w = home(I, M + 'ntype_from', 'from_')
    T = 'at_mac::nlist::NTypeField'
    ns, cs = codes(P, 'ntype')
    ds, dc = codes(P, 'stab')
    n = dd.uvar(tag, 8)
    b = dd.to_bits(n, 8)
    stab = dd.bor(b[7], dd.bor(b[6], b[5]))
    ty = dd.from_bits((0, b[1], b[2], b[3]))
    kn = 0
    for c in cs:
        if c is not None:
            kn = dd.bor(kn, dd.eq(ty, c))
    ks = 0
    for c in dc:
        if c is not None:
            ks = dd.bor(ks, dd.eq(n, c))
    known = dd.ite(stab, ks, kn)
    vt = P.ty(adt(P, T))['variants']
    iN = [k for k, v in enumerate(vt) if v['n'] == 'Norm'][0]
    fN = [f[0] for f in vt[iN]['f']]
    for o in ck.outs(I, M + 'ntype_from', [n]):
        if o.kind == 'undec':
            ck.undecided(rule, w, 'ntype_from', o.val)
            continue
        if o.kind != 'ret':
            ck.ob(o.st.pc, dd.bnot(known), rule, w, 'a known symbol type byte is refused', lambda e: '%#x is refused' % e.val(n))
            continue
        v = o.val
        alts = v.alts if type(v) is Sum else {v.v: v.f}
        t = v.t if type(v) is Sum else v.v
        for k, f in alts.items():
            c = dd.band(o.st.pc, dd.eq(t, k))
            if type(c) is int and c == 0:
                continue
            if k == iN:
                d = dict(zip(fN, f))
                x = d['n_type'].t if type(d['n_type']) is Sum else d['n_type'].v
                good = dd.band(dd.bnot(stab), dd.band(dd.eq(d['n_pext'], b[4]), dd.band(dd.eq(d['n_ext'], b[0]), dd.eq(lookup(x, [c or 0 for c in cs]), ty))))
                ck.ob(c, good, rule, w, 'components of a symbol type byte', lambda e: '%#x is read as pext=%d type=%s ext=%d' % (e.val(n), e.val(d['n_pext']), ns[e.val(x)], e.val(d['n_ext'])))
            else:
                x = f[0].t if type(f[0]) is Sum else f[0].v
                ck.ob(c, dd.band(stab, dd.eq(lookup(x, [c or 0 for c in dc]), n)), rule, w, 'debugger symbol type', lambda e: '%#x is read as %s' % (e.val(n), ds[e.val(x)]))


# ---------------------------------------------------------------------- C10
def c10(ck):
    I = ck.interp()
    P = I.P
    ck.rule('pack', 'every component is written to the bits the format assigns to it and to no others')
    ck.rule('unpack', 'every component is read from its own bits only, in either byte order')

    def reloc():
        r = next(rec_reloc(ck, I, 'c10.rel.'))
        w = home(I, M + 'w_reloc', 'write_into')
        for o in rest(ck, 'pack', w, ck.outs(I, M + 'w_reloc', [r.v], None, r.pc), 'relocation'):
            cmp_bytes(ck, 'pack', w, 'relocation', o.st.pc, simp_val(o.val, o.st.pc), r.bytes('le'), r.at)
        w = home(I, M + 'r_reloc', 'read_from_in')
        for order in ('le', 'be'):
            r = next(rec_reloc(ck, I, 'c10.rel%s.' % order))
            st = State()
            args = [put(st, Seq(tuple(HDR[order])), True), put(st, Seq(tuple(r.bytes(order))), True)]
            for o in rest(ck, 'unpack', w, ck.outs(I, M + 'r_reloc', args, st, r.pc), 'relocation ' + order):
                same_rec(ck, I, 'unpack', w, 'relocation word (%s)' % order, o, o.val.f[0], r)
    ck.guard('pack', 'relocation', reloc)

    def nt():
        w = home(I, M + 'ntype_to', 'to_')
        for nm, f in ntypes(P, 'c10.nt.'):
            for o in rest(ck, 'pack', w, ck.outs(I, M + 'ntype_to', [f.v], None, f.pc), nm):
                ck.ob(o.st.pc, dd.eq(o.val, f.n), 'pack', w, 'symbol type byte (%s)' % nm, lambda e: 'written %#x, the format has %#x' % (e.val(o.val), e.val(f.n)))
    ck.guard('pack', 'symbol type', nt)
    ck.guard('unpack', 'symbol type', lambda: ntype_from(ck, I, 'unpack', 'c10.ntf'))

    def ver():
        f = version(P, 'c10.ver')
        w = home(I, M + 'version_to', 'to_')
        st = State()
        for o in rest(ck, 'pack', w, ck.outs(I, M + 'version_to', [put(st, f.v)], st), 'version'):
            ck.ob(o.st.pc, dd.eq(o.val, f.n), 'pack', w, 'packed version', lambda e: 'written %#x, want %#x' % (e.val(o.val), e.val(f.n)))
        w = home(I, M + 'version_from', 'from_')
        for o in rest(ck, 'unpack', w, ck.outs(I, M + 'version_from', [f.n]), 'version'):
            for nm, a, b in zip(fieldnames(P, L + 'build_version::Version'), o.val.f, f.v.f):
                ck.ob(o.st.pc, dd.eq(a, b), 'unpack', w, 'version ' + nm, lambda e: 'read %#x, want %#x' % (e.val(a), e.val(b)))
    ck.guard('pack', 'version', ver)

    # flag sets
    for kind, mk, frm, to in (('flag', 'mk_flags', 'flags_from', 'flags_to'), ('attr', 'mk_attrs', 'attrs_from', 'attrs_to')):
        def sets():
            a, b = code(P, kind, 'c10.%s.a' % kind), code(P, kind, 'c10.%s.b' % kind)
            w = home(I, M + to, 'to_')
            pc = dd.band(a.pc, b.pc)
            for o in rest(ck, 'pack', w, ck.outs(I, M + mk, [a.v, b.v], None, pc), mk):
                n = flagword(ck, I, o.val, to, o.st)
                want = dd.from_bits(tuple(dd.bor(x, y) for x, y in zip(dd.to_bits(a.n, 32), dd.to_bits(b.n, 32))))
                ck.ob(o.st.pc, dd.eq(n, want), 'pack', w, 'a set of two %ss' % kind, lambda e: 'word %#x, want %#x' % (e.val(n), e.val(want)))
        ck.guard('pack', kind + ' sets', sets)

        def unset():
            w = home(I, M + frm, 'from_')
            ws = words(P, kind)
            low = 8 if kind == 'attr' else 0
            bits = [1 << i for i in range(low, 32)]
            wins = []
            order = list(bits)
            ck.rnd.shuffle(order)
            size = 5 if ck.tier == 'quick' else 8
            for i in range(0, len(order), size):
                wins.append(order[i:i + size])
            kn = [x for x in ws]
            for i in range(0, len(kn), size):
                wins.append(kn[i:i + size])
            for win in wins:
                vs = [dd.to_bits(dd.uvar('c10.%s.%x' % (kind, b), 1), 1)[0] for b in win]
                word = [0] * 32
                for b, v in zip(win, vs):
                    word[b.bit_length() - 1] = v
                n = dd.from_bits(tuple(word))
                bad = 0
                for b, v in zip(win, vs):
                    if b not in ws:
                        bad = dd.bor(bad, v)
                for o in ck.outs(I, M + frm, [n]):
                    if o.kind == 'undec':
                        ck.undecided('unpack', w, frm, o.val)
                    elif o.kind != 'ret':
                        ck.ob(o.st.pc, bad, 'unpack', w, 'a word of known %ss is refused' % kind, lambda e: '%#x' % e.val(n))
                    else:
                        m = flagword(ck, I, o.val, to, o.st)
                        # a bit without a name may be refused or kept, it must not become another one
                        ck.ob(o.st.pc, dd.bor(bad, dd.eq(m, n)), 'unpack', w, 'a %s word is not kept' % kind, lambda e: '%#x becomes %#x' % (e.val(n), e.val(m)))
                        for b, v in zip([1 << i for i in range(32)], dd.to_bits(m, 32)):
                            src = word[b.bit_length() - 1]
                            if b in ws:
                                ck.ob(o.st.pc, dd.biff(v, src), 'unpack', w, '%s %#x depends on another bit' % (kind, b), lambda e: '%#x becomes %#x' % (e.val(n), e.val(m)))
            full = sum(ws)
            for o in rest(ck, 'unpack', w, ck.outs(I, M + frm, [full]), 'all %ss' % kind):
                m = flagword(ck, I, o.val, to, o.st)
                ck.ob(o.st.pc, dd.eq(m, full), 'unpack', w, 'all %ss at once' % kind, lambda e: '%#x becomes %#x' % (full, e.val(m)))
        ck.guard('unpack', kind + ' words', unset)

    def sectflags():
        w = home(I, M + 'w_sect', 'write_into')
        for i, aw in enumerate([0] + words(P, 'attr') + [sum(words(P, 'attr'))]):
            r = next(rec_sect(ck, I, 'c10.sect%d.' % i, [aw], ((6, 6),)))
            st = State()
            for o in rest(ck, 'pack', w, ck.outs(I, M + 'w_sect', [put(st, r.v)], st, r.pc), 'section'):
                got, want = simp_val(o.val, o.st.pc).e[64:68], r.bytes('le')[64:68]
                ck.ob(o.st.pc, eqs(got, want), 'pack', w, 'section flag word with attributes %#x' % aw, lambda e: 'written %s, want %s' % (hexs(e, got), hexs(e, want)))
            w2 = home(I, M + 'r_sect', 'read_from_in')
            for order in ('le', 'be'):
                st = State()
                args = [put(st, Seq(tuple(HDR[order])), True), put(st, Seq(tuple(r.bytes(order))), True)]
                for o in rest(ck, 'unpack', w2, ck.outs(I, M + 'r_sect', args, st, r.pc), 'section'):
                    fl = o.val.f[0].f[fieldnames(P, RECTY['sect']).index('flags')]
                    wf = r.v.f[fieldnames(P, RECTY['sect']).index('flags')]
                    m = flagword(ck, I, fl.f[0], 'attrs_to', o.st)
                    ck.ob(o.st.pc, dd.eq(m, aw), 'unpack', w2, 'section attributes %#x' % aw, lambda e: 'read %#x' % e.val(m))
                    same(ck, I, 'unpack', w2, 'section type', o.st.pc, simp_val(fl.f[1], o.st.pc), wf.f[1], P, 'type')
    ck.guard('pack', 'section flags', sectflags)
    return dict(level='other', explanation='abstract interpretation of every packing and unpacking function over symbolic components (decision diagrams over the bits), both byte orders', floor=60)


# ---------------------------------------------------------------------- C11
KIND = dict(seg='Segment64', symtab='Symtab', dysymtab='Dysymtab', build='BuildVersion')


def read_lc(ck, I, rule, r, what, order):
    """a load command in a file of this byte order is read as its kind, with its fields and nested entries, and nothing more is consumed"""
    P = I.P
    names = vnames(P, L + 'LoadCommand')
    wr = home(I, M + 'r_lc', 'LoadCommand::read_from_in')
    st = State()
    extra = [dd.uvar('lc.extra%d' % k, 8) for k in range(5)]
    bs = r.bytes(order)
    args = [put(st, Seq(tuple(HDR[order])), True), put(st, Seq(tuple(bs + extra)), True)]
    what = '%s (%s)' % (what, order)
    for o in rest(ck, rule, wr, ck.outs(I, M + 'r_lc', args, st, r.pc), what, lambda e: 'bytes ' + hexs(e, bs)):
        lc, left = o.val.f
        ck.ob(o.st.pc, dd.eq(left, 5), rule, wr, what + ': bytes consumed', lambda e: '%d bytes stay, 5 follow the command' % e.val(left))
        t = lc.t if type(lc) is Sum else lc.v
        if not ck.ob(o.st.pc, dd.eq(t, names.index(KIND[r.kind])), rule, wr, what + ': kind', lambda e: 'read as %s' % names[e.val(t)]):
            continue
        pay = lc.alts[names.index(KIND[r.kind])] if type(lc) is Sum else lc.f
        same(ck, I, rule, wr, what, o.st.pc, strip(ck, I, pay[0], r.kind, o), strip(ck, I, r.v.f[0], r.kind, o), P, 'command')
        if len(pay) > 1:
            sub = 'sect' if r.kind == 'seg' else 'tool'
            g, x = pay[1], r.v.f[1]
            if not ck.ob(o.st.pc, 1 if len(g.e) == len(x.e) else 0, rule, wr, what + ': number of entries', lambda e: '%d entries' % len(g.e)):
                continue
            for i, (a, b) in enumerate(zip(g.e, x.e)):
                same(ck, I, rule, wr, what, o.st.pc, strip(ck, I, a, sub, o), strip(ck, I, b, sub, o), P, 'entry %d' % i)


def c11(ck):
    I = ck.interp()
    P = I.P
    ck.rule('write', 'a load command is written as its own record followed by its nested entries in order; its size field is the number of bytes written')
    ck.rule('code', 'cmd() and cmd_size() are the code and size fields; the TYPE constants are the codes of the format')
    ck.rule('read', 'the code alone selects the kind; exactly cmdsize bytes and the declared number of entries are read')
    ck.rule('count', 'whatever the declared number of nested entries is, a command that is returned has exactly that many')
    ck.rule('unknown', 'a code that is not supported is refused')
    top = 3 if ck.tier == 'quick' else 8

    def consts():
        o = run1(ck, I, 'consts', [])
        got = list(o.val.e if type(o.val) is Seq else o.val.f)[9:]
        for (k, want), g in zip(CMD.items(), got):
            (ck.passed if g == want else ck.fail)('code', 'at_mac ' + k, '%s::TYPE is %#x, the format has %#x' % (k, g, want))
    ck.guard('code', 'TYPE', consts)
    w = home(I, M + 'w_lc', 'write_into')
    wr = home(I, M + 'r_lc', 'LoadCommand::read_from_in')
    T = L + 'LoadCommand'
    names = vnames(P, T)
    for r, what in lcs(ck, I, 'c11.lc.', top):
        def one():
            bs = r.bytes('le')
            st = State()
            for o in rest(ck, 'write', w, ck.outs(I, M + 'w_lc', [put(st, r.v)], st, r.pc), what):
                got = simp_val(o.val, o.st.pc)
                cmp_bytes(ck, 'write', w, what, o.st.pc, got, bs, r.at)
                if type(got) is Seq and got.flat() and len(got.e) >= 8:
                    ck.ob(o.st.pc, dd.eq(from_le(got.e[4:8]), len(got.e)), 'write', w, what + ': size field', lambda e: 'size %d, %d bytes written' % (e.val(from_le(got.e[4:8])), len(got.e)))
            for fn, want in (('lc_cmd', CMD[r.kind]), ('lc_size', len(bs))):
                st = State()
                for o in rest(ck, 'code', home(I, M + fn), ck.outs(I, M + fn, [put(st, r.v)], st, r.pc), fn):
                    ck.ob(o.st.pc, dd.eq(o.val, want), 'code', home(I, M + fn), '%s of a %s' % (fn, what), lambda e: 'gives %d, want %d' % (e.val(o.val), want))
            for order in ('le', 'be'):
                read_lc(ck, I, 'read', r, what, order)
        ck.guard('write', what, one)

    def unknown():
        for order in ('le', 'be'):
            n = dd.uvar('c11.code.' + order, 32)
            pc = 1
            for c in CMD.values():
                pc = dd.band(pc, dd.bnot(dd.eq(n, c)))
            st = State()
            body = [dd.uvar('c11.b%d' % i, 8) for i in range(16)]
            bs = (le_bytes if order == 'le' else be_bytes)(n, 4) + ([0x18, 0, 0, 0] if order == 'le' else [0, 0, 0, 0x18]) + body
            args = [put(st, Seq(tuple(HDR[order])), True), put(st, Seq(tuple(bs)), True)]
            outs = ck.outs(I, M + 'r_lc', args, st, pc)
            nr = 0
            for o in outs:
                if o.kind == 'ret':
                    nr += 1
                    lc = o.val.f[0]
                    t = lc.t if type(lc) is Sum else lc.v
                    if type(t) is int and names[t] in KIND.values() or type(t) is not int:
                        ck.ob(o.st.pc, 0, 'unknown', wr, 'an unsupported code is accepted (%s)' % order, lambda e: 'code %#x is read as %s' % (e.val(n), names[e.val(t)]))
                elif o.kind == 'undec':
                    nr += 1
                    ck.undecided('unknown', wr, 'unknown code', o.val)
            if not nr:
                ck.passed('unknown', wr, 'no other code is accepted (%s)' % order)
    ck.guard('unknown', 'codes', unknown)

    def sizes():
        # whatever cmdsize and count are, a command that is returned consumed cmdsize bytes and has the declared entries
        for kind, unit in (('seg', 0x50), ('build', 8), ('symtab', 0), ('dysymtab', 0)):
            for order in ('le', 'be'):
                for k in range(top if unit else 1):
                    gen = {'seg': lambda: rec_seg(ck, I, 'c11.sz.', k, (3,)), 'build': lambda: rec_build(ck, I, 'c11.sz.', k),
                           'symtab': lambda: rec_symtab(ck, I, 'c11.sz.'), 'dysymtab': lambda: rec_dysymtab(ck, I, 'c11.sz.')}[kind]
                    nb = le_bytes if order == 'le' else be_bytes
                    for counted in ((0, 1) if unit else (0,)):
                        r = next(iter(gen()))
                        cs = dd.uvar('c11.cmdsize', 32)
                        bs = r.bytes(order)
                        base = len(bs)
                        at = {'seg': 0x40, 'build': 0x14}.get(kind)
                        n = k
                        if counted:
                            # any count, with the size that goes with it (where that is a 32-bit number)
                            n = dd.uvar('c11.count', 32)
                            bs[at:at + 4] = nb(n, 4)
                            cs = dd.wrap(dd.add(dd.scale(n, unit), base), 32, False)
                        bs[4:8] = nb(cs, 4)
                        pc = r.pc
                        if counted:
                            pc = dd.band(pc, dd.eq(cs, dd.add(dd.scale(n, unit), base)))
                        for _ in range(k):
                            s = next(iter(rec_sect(ck, I, 'c11.szs.', [0], ((6, 6),)))) if kind == 'seg' else next(iter(rec_tool(ck, I, 'c11.szt.')))
                            bs += s.bytes(order)
                            pc = dd.band(pc, s.pc)
                        bs += [0] * (0 if counted else 96)
                        st = State()
                        args = [put(st, Seq(tuple(HDR[order])), True), put(st, Seq(tuple(bs)), True)]
                        show = lambda e: 'size field %d, count %d, %d bytes are there' % (e.val(cs), e.val(n), len(bs))
                        for o in ck.outs(I, M + 'r_lc', args, st, pc):
                            if o.kind == 'ret':
                                lc, left = o.val.f
                                if not counted:
                                    ck.ob(o.st.pc, dd.eq(dd.add(cs, left), len(bs)), 'read', wr, 'a %s whose size field disagrees with its contents is accepted (%s)' % (kind, order), show)
                                elif type(lc) is Agg and len(lc.f) > 1 and type(lc.f[1]) is Seq and lc.f[1].flat():
                                    m = len(lc.f[1].e)
                                    ck.ob(o.st.pc, dd.eq(n, m), 'count', wr, 'a %s is returned with another number of entries than it declares (%s)' % (kind, order),
                                          lambda e: show(e) + ', %d entries are returned' % m)
                                else:
                                    ck.undecided('count', wr, kind, 'the entries are not explicit')
                            elif o.kind == 'undec':
                                ck.undecided('count' if counted else 'read', wr, kind, '%s at %s' % (o.val, o.where))
    ck.guard('read', 'sizes', sizes)

    def two():
        a = list(lcs(ck, I, 'c11.a.', 2))
        b = list(lcs(ck, I, 'c11.b.', 2))
        w2 = home(I, M + 'r_lc2', 'read_from_in')
        for (x, wx), (y, wy) in [(p, q) for p in a for q in b]:
            st = State()
            args = [put(st, Seq(tuple(HDR['le'])), True), put(st, Seq(tuple(x.bytes('le') + y.bytes('le'))), True)]
            for o in rest(ck, 'read', wr, ck.outs(I, M + 'r_lc2', args, st, dd.band(x.pc, y.pc)), '%s then %s' % (wx, wy)):
                for lc, r in zip(o.val.f, (x, y)):
                    t = lc.t if type(lc) is Sum else lc.v
                    ok = type(t) is int and names[t] == KIND[r.kind]
                    if not ok:
                        ck.ob(o.st.pc, dd.eq(t, names.index(KIND[r.kind])), 'read', wr, '%s then %s: kind' % (wx, wy))
                        continue
                    same(ck, I, 'read', wr, '%s then %s' % (wx, wy), o.st.pc, strip(ck, I, lc.f[0], r.kind, o), strip(ck, I, r.v.f[0], r.kind, o), P, 'command')
    ck.guard('read', 'two commands', two)
    ck.assume.append('up to %d nested entries' % (top - 1))
    return dict(level='other', explanation='abstract interpretation of load-command writing and reading over symbolic fields, both byte orders, nested entry counts 0..%d, all command codes' % (top - 1), floor=60)


def strip(ck, I, v, kind, o):
    """a record with its flag set replaced by the flag word"""
    v = simp_val(v, o.st.pc)
    if kind != 'sect':
        return v
    i = fieldnames(I.P, RECTY['sect']).index('flags')
    fl = v.f[i]
    return Agg(0, v.f[:i] + (Agg(0, (flagword(ck, I, fl.f[0], 'attrs_to', o.st), fl.f[1])),) + v.f[i + 1:])


# ---------------------------------------------------------------------- C13
def c13(ck):
    I = ck.interp()
    P = I.P
    ck.rule('store', 'a name of n <= 16 bytes is written as these bytes and 16 - n zero bytes')
    ck.rule('load', 'a stored name is read back as the same name')
    ck.rule('long', 'a longer name is refused, not cut')
    hdr = HDR['le']
    lens = range(17)
    for which, kind, off in (('segname', 'seg', 8), ('sectname', 'sect', 0), ('segname', 'sect', 16)):
        w = home(I, M + 'w_' + kind, 'write_into')
        wr = home(I, M + 'r_' + kind, 'read_from_in')

        def rec(ln, tag):
            if kind == 'seg':
                return next(x for x in rec_seg(ck, I, tag, 1, (ln,)))
            return next(iter(rec_sect(ck, I, tag, [0], ((ln, 6) if which == 'sectname' else (6, ln),))))

        def shorts():
            for ln in lens:
                r = rec(ln, 'c13.%s.%s.%d.' % (kind, which, ln))
                what = '%s.%s of %d bytes' % (kind, which, ln)
                st = State()
                want = r.bytes('le')
                for o in rest(ck, 'store', w, ck.outs(I, M + 'w_' + kind, [put(st, r.v)], st, r.pc), what):
                    got = simp_val(o.val, o.st.pc)
                    ok = type(got) is Seq and got.flat() and len(got.e) == len(want)
                    ck.ob(o.st.pc, eqs(got.e[off:off + 16], want[off:off + 16]) if ok else 0, 'store', w, what,
                          lambda e: 'stored %s, want %s' % (hexs(e, got.e[off:off + 16]), hexs(e, want[off:off + 16])))
                for order in ('le', 'be'):
                    st = State()
                    args = [put(st, Seq(tuple(HDR[order])), True), put(st, Seq(tuple(r.bytes(order))), True)]
                    for o in rest(ck, 'load', wr, ck.outs(I, M + 'r_' + kind, args, st, r.pc), what):
                        i = fieldnames(P, RECTY[kind]).index(which)
                        same(ck, I, 'load', wr, what, o.st.pc, simp_val(o.val.f[0].f[i], o.st.pc), r.v.f[i], P, which)
        ck.guard('store', '%s.%s' % (kind, which), shorts)

        def longs():
            for ln in (17, 18, 24, 32, 33) + ((255, 256, 257, 272) if ck.tier != 'quick' else (256, 272)):
                bs = []
                pc = 1
                for i in range(ln):
                    b = dd.var('c13.long[%d]' % i, 1, 127)
                    bs.append(b)
                    pc = dd.band(pc, dd.domain(b))
                r = rec(3, 'c13.long.%s.%s.' % (kind, which))
                i = fieldnames(P, RECTY[kind]).index(which)
                v = Agg(0, r.v.f[:i] + (Seq(tuple(bs)),) + r.v.f[i + 1:])
                st = State()
                n = 0
                for o in ck.outs(I, M + 'w_' + kind, [put(st, v)], st, dd.band(pc, r.pc)):
                    if o.kind == 'ret':
                        n += 1
                        ck.ob(o.st.pc, 0, 'long', w, 'a %s.%s of %d bytes is accepted' % (kind, which, ln), lambda e: 'name ' + bytes(e.val(b) for b in bs).decode('latin1'))
                    elif o.kind == 'undec':
                        n += 1
                        ck.undecided('long', w, which, o.val)
                if not n:
                    ck.passed('long', w, '%s.%s of %d bytes refused' % (kind, which, ln))
        ck.guard('long', '%s.%s' % (kind, which), longs)
    ck.assume.append('names are ASCII without NUL')
    return dict(level='other', explanation='abstract interpretation of the name fields of both records that have them, for every name length 0..16 with symbolic characters, and of over-long names', floor=100)


# ---------------------------------------------------------------------- C12
def chars(name, n):
    bs, pc = [], 1
    for i in range(n):
        b = dd.var('%s[%d]' % (name, i), 1, 127)
        bs.append(b)
        pc = dd.band(pc, dd.domain(b))
    return bs, pc


def c12(ck):
    I = ck.interp()
    ck.rule('place', 'a string added to a table starts at the length the table had, and the table grows by the string and one zero byte')
    ck.rule('lookup', 'looking a start position up gives the string added there, whatever was added later')
    ck.rule('bytes', 'the raw table is one zero byte followed by every string and a zero byte, in the order they were added')
    ck.rule('iterate', 'iterating gives the added strings in order')
    ck.rule('refuse', 'a string which is not ASCII is refused')
    w = home(I, M + 'st_two', 'push_with_null')
    wg = home(I, M + 'st_two_get', 'StringTable::get')
    wi = home(I, M + 'st_iter', 'StringTable::iter')
    wf = home(I, M + 'st_get', 'StringTable::get')

    def s(e, bs):
        return repr(bytes(int(e.val(b)) if type(b) is not int else b for b in bs).decode('latin1'))

    def seqeq(o, rule, wh, what, got, want, show):
        if type(got) is not Seq or not got.flat():
            return ck.undecided(rule, wh, what, 'not explicit')
        if len(got.e) != len(want):
            return ck.ob(o.st.pc, 0, rule, wh, '%s: %d bytes instead of %d' % (what, len(got.e), len(want)), lambda e: show(e) + ': got ' + s(e, got.e))
        return ck.ob(o.st.pc, eqs(got.e, want), rule, wh, what, lambda e: show(e) + ': got ' + s(e, got.e))

    def three(la, lb, lc):
        a, pa = chars('c12.a', la)
        b, pb = chars('c12.b', lb)
        c, pc_ = chars('c12.c', lc)
        added(a, b, c, dd.band(pa, dd.band(pb, pc_)), 'strings of %d, %d and %d bytes' % (la, lb, lc))

    def added(a, b, c, pc, what):
        la, lb = len(a), len(b)

        def show(e):
            return 'adding %s, %s, %s' % (s(e, a), s(e, b), s(e, c))
        st = State()
        args = [put(st, Seq(tuple(x)), True) for x in (a, b, c)]
        for o in rest(ck, 'place', w, ck.outs(I, M + 'st_three', args, st, pc), what, show):
            ia, ib, ic, x, y, z, raw = o.val.f
            ck.ob(o.st.pc, dd.band(dd.eq(ia, 1), dd.band(dd.eq(ib, 2 + la), dd.eq(ic, 3 + la + lb))), 'place', w, what,
                  lambda e: show(e) + ': they start at %d, %d, %d' % (e.val(ia), e.val(ib), e.val(ic)))
            for g, want, n in ((x, a, 'first'), (y, b, 'second'), (z, c, 'third')):
                seqeq(o, 'lookup', wg, '%s: the %s' % (what, n), g, want, show)
            seqeq(o, 'bytes', w, what, raw, [0] + a + [0] + b + [0] + c + [0], show)

    lens = [(0, 0, 0), (0, 1, 2), (1, 0, 3), (3, 2, 0), (5, 5, 5), (1, 1, 1), (7, 8, 9), (2, 16, 17), (70, 3, 1)]
    if ck.tier != 'quick':
        lens += [(i, j, k) for i in range(5) for j in range(5) for k in range(5)] + [(260, 1, 2), (1, 300, 4), (33, 64, 130)]
    for t in lens:
        ck.guard('place', str(t), lambda: three(*t))
    # strings which repeat one another, or parts of one another
    for n in (1, 2, 5) if ck.tier == 'quick' else (1, 2, 3, 4, 5, 8, 20):
        a, pa = chars('c12.ra%d' % n, n)
        b, pb = chars('c12.rb%d' % n, 2)
        for t, x, y, z in (('twice', a, a, b), ('twice with another between', a, b, a), ('three times', a, a, a), ('after another, twice', b, a, a),
                           ('then its end', a, a[1:], a[-1:]), ('then its beginning', a, a[:-1], a[:1]), ('after its end', a[1:], a, b), ('after its beginning', a[:1], a[:-1], a),
                           ('then itself twice in a row', a, a + a, b), ('then itself and another', a, a + b, b), ('then another and itself', a, b + a, b)):
            ck.guard('place', t, lambda: added(list(x), list(y), list(z), dd.band(pa, pb), 'a string of %d bytes added %s' % (n, t)))

    def start():
        for o in rest(ck, 'bytes', home(I, M + 'st_len0'), ck.outs(I, M + 'st_len0', []), 'a new table'):
            n, raw = o.val.f
            ck.ob(o.st.pc, dd.eq(n, 1), 'place', w, 'a new table has length %d' % 1)
            seqeq(o, 'bytes', w, 'a new table', raw, [0], lambda e: 'new table')
    ck.guard('bytes', 'new table', start)

    def it():
        for la, lb in ((0, 0), (0, 2), (3, 0), (2, 3), (9, 1)):
            a, pa = chars('c12.ia', la)
            b, pb = chars('c12.ib', lb)
            st = State()
            args = [put(st, Seq(tuple(x)), True) for x in (a, b)]
            for o in rest(ck, 'iterate', wi, ck.outs(I, M + 'st_iter', args, st, dd.band(pa, pb)), 'iterating'):
                # what follows the last zero is an empty rest; it carries no string
                got = list(o.val.e)
                if len(got) not in (2, 3):
                    ck.ob(o.st.pc, 0, 'iterate', wi, '%d strings come out of a table of 2' % len(got))
                    continue
                for g, want in zip(got, (a, b, [])):
                    seqeq(o, 'iterate', wi, 'iterating over strings of %d and %d bytes' % (la, lb), g, want, lambda e: s(e, a) + ', ' + s(e, b))
    ck.guard('iterate', 'iter', it)

    def loaded():
        a, pa = chars('c12.la', 4)
        b, pb = chars('c12.lb', 3)
        raw = [0] + a + [0] + b + [0]
        for i in range(len(raw)):
            want = []
            for x in raw[i:]:
                if type(x) is int:
                    break
                want.append(x)
            for o in rest(ck, 'lookup', wf, ck.outs(I, M + 'st_get', [Seq(tuple(raw)), i], None, dd.band(pa, pb)), 'lookup in a table read from a file'):
                seqeq(o, 'lookup', wf, 'position %d of a table read from a file' % i, o.val, want, lambda e: s(e, raw))
        for o in rest(ck, 'bytes', wf, ck.outs(I, M + 'st_rt', [Seq(tuple(raw))], None, dd.band(pa, pb)), 'a table read from a file'):
            seqeq(o, 'bytes', wf, 'a table read from a file keeps its bytes', o.val, raw, lambda e: s(e, raw))
    ck.guard('lookup', 'loaded', loaded)

    def refuse():
        # a two-byte character in the middle
        a, pa = chars('c12.ra', 1)
        tail = 0xa9
        seq = a + [0xc3, tail] + [0x41]
        st = State()
        args = [put(st, Seq(tuple(seq)), True), put(st, Seq((0x42,)), True)]
        n = 0
        for o in ck.outs(I, M + 'st_two', args, st, pa):
            if o.kind == 'undec':
                n += 1
                ck.undecided('refuse', w, 'non-ASCII', o.val)
            elif o.kind == 'ret':
                n += 1
                raw = o.val.f[3]
                # keeping the UTF-8 bytes would be faithful too
                seqeq(o, 'refuse', w, 'a string which is not ASCII is altered', raw, [0] + seq + [0, 0x42, 0], lambda e: s(e, seq))
        if not n:
            ck.passed('refuse', w, 'non-ASCII strings are refused')
    ck.guard('refuse', 'non-ASCII', refuse)
    ck.assume.append('strings contain no NUL; lengths as listed in the rules (every character symbolic)')
    return dict(level='other', explanation='abstract interpretation of the string table operations over strings with symbolic characters, three additions in a row, all start positions', floor=60)
