"""Loading of the MIR dump (see driver/) and of typed constants."""
import json
from .values import Agg, Seq, Ref, FnVal, Clo, Opaque, UNIT


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.crate = d['crate']
        self.types = d['types']
        self.fns = d['fns']
        self.allocs = d['allocs']
        self.tls = {}                   # thread-locals (one thread)
        self.roots = d['roots']
        self.items = d.get('items', [])
        self.byname = {}
        for i, f in enumerate(self.fns):
            self.byname.setdefault(f['n'], i)
            f['id'] = i
        self.cfg = {}

    # ---- types
    def ty(self, t):
        return self.types[t]

    def tys(self, t):
        return self.types[t]['s']

    def kind(self, t):
        return self.types[t]['k']

    def intinfo(self, t):
        if t is None:
            return None
        ty = self.types[t]
        k = ty['k']
        if k == 'int':
            return ty['w'], bool(ty['sg'])
        if k == 'bool':
            return 1, False
        if k == 'char':
            return 32, False
        if k in ('ptr', 'fnptr', 'ref'):
            return 64, False
        return None

    def pointee(self, t):
        ty = self.types[t]
        if ty['k'] in ('ref', 'ptr'):
            return ty['e']
        if ty['k'] == 'adt' and ty.get('box'):
            return ty['args'][0] if isinstance(ty['args'][0], int) else None
        return None

    def discr(self, t):
        """variant index -> discriminant value (list)"""
        ty = self.types[t]
        return [v['d'] for v in ty['variants']]

    # ---- constants
    def const(self, t, c):
        return self.decode(t, bytes.fromhex(c['b'].replace('_', '0')), dict((o, a) for o, a in c['p']), 0)

    def zst(self, t):
        ty = self.types[t]
        k = ty['k']
        if k == 'fndef':
            return FnVal(ty['fn'])
        if k == 'closure':
            return Clo(t, ty['fn'], ())
        if k == 'tuple':
            return Agg(0, tuple(self.zst(x) for x in ty['f']))
        if k == 'array':
            return Seq(())
        if k == 'adt':
            vs = ty['variants']
            if len(vs) == 1:
                return Agg(0, tuple(self.zst(f[1]) for f in vs[0]['f']))
            return Agg(0, ())
        return Opaque('zst ' + ty['s'])

    def decode(self, t, b, prov, off):
        ty = self.types[t]
        k = ty['k']
        size = ty.get('size')
        if size == 0:
            return self.zst(t)
        if k in ('int', 'bool', 'char'):
            n = size
            v = int.from_bytes(b[off:off + n], 'little')
            if k == 'int' and ty['sg'] and v >> (8 * n - 1):
                v -= 1 << (8 * n)
            return v
        if k in ('ref', 'ptr') or (k == 'adt' and ty.get('box')):
            a = prov.get(off)
            if a is None:
                return int.from_bytes(b[off:off + 8], 'little')
            p = self.pointee(t)
            inner = int.from_bytes(b[off:off + 8], 'little')
            pt = self.types[p]
            if inner != 0:
                return Opaque('interior const pointer')
            if pt['k'] in ('slice', 'str'):
                n = int.from_bytes(b[off + 8:off + 16], 'little')
                return Ref(('g', a, p), (), (0, n))
            if pt['k'] == 'dyn':
                return Opaque('dyn const')
            return Ref(('g', a, p), ())
        if k == 'fnptr':
            a = prov.get(off)
            if a is not None and 'f' in self.allocs[a]:
                i = self.allocs[a]['f']
                return FnVal({'d': self.fns[i]['d'], 'a': self.fns[i].get('a') or [], 'k': 'Item', 'i': i})
            return Opaque('fnptr const')
        if k == 'array':
            es = self.types[ty['e']]['size']
            return Seq(tuple(self.decode(ty['e'], b, prov, off + i * es) for i in range(ty['n'])))
        if k == 'tuple':
            offs = ty['offs']
            return Agg(0, tuple(self.decode(f, b, prov, off + offs[i]) for i, f in enumerate(ty['f'])))
        if k == 'adt':
            vs = ty['variants']
            if 'single' in ty and ty['single'] is not None:
                v = ty['single'] if isinstance(ty['single'], int) else 0
                offs = ty['offs']
                fs = vs[v]['f']
                return Agg(v, tuple(self.decode(f[1], b, prov, off + offs[i]) for i, f in enumerate(fs)))
            m = ty.get('multi')
            if m:
                offs0 = ty['offs']
                tago = offs0[m['tagf']] if offs0 and m['tagf'] < len(offs0) else 0
                tag = int.from_bytes(b[off + tago:off + tago + m['tagsz']], 'little')
                if m['enc'] is None:
                    v = None
                    for i, vv in enumerate(vs):
                        d = vv['d'] & ((1 << (8 * m['tagsz'])) - 1)
                        if d == tag:
                            v = i
                else:
                    unt, ns, ne, n0 = m['enc']
                    rel = (tag - n0) & ((1 << (8 * m['tagsz'])) - 1)
                    v = ns + rel if rel <= ne - ns and (off + tago) not in prov else unt
                if v is None:
                    return Opaque('bad tag const ' + ty['s'])
                offs = m['offs'][v]
                return Agg(v, tuple(self.decode(f[1], b, prov, off + offs[i]) for i, f in enumerate(vs[v]['f'])))
        return Opaque('const ' + ty['s'])

    def global_value(self, a, t):
        al = self.tls[a[1]] if type(a) is tuple else self.allocs[a]
        ty = self.types[t]
        if 'm' not in al:
            return Opaque('alloc %s' % sorted(al))
        b = bytes.fromhex(al['m']['b'].replace('_', '0'))
        prov = dict((o, x) for o, x in al['m']['p'])
        if ty['k'] == 'str':
            return Seq(tuple(b))
        if ty['k'] == 'slice':
            es = self.types[ty['e']]['size'] or 1
            return Seq(tuple(self.decode(ty['e'], b, prov, i * es) for i in range(len(b) // es)))
        return self.decode(t, b, prov, 0)
