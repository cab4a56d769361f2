"""Disjunctive abstract interpreter over LLVM IR (as written by tool/irdump).

A State is one trace partition: a call stack of abstract registers, an abstract heap of
regions, and a PC (see dom.py).  Branches that the PC does not decide divide the partition.
Nothing is executed and no solver is called; a partition whose next step cannot be represented
exactly is abandoned and reported as 'undecided', never as a violation.
"""
import json, os, re, struct, sys, time, heapq
from fractions import Fraction
from dom import *
from flow import Flow

SHIFT = 32
MASK = (1 << SHIFT) - 1

class Violation(Exception):
    def __init__(self, kind, msg): self.kind = kind; self.msg = msg
class Done(Exception): pass
class Sync(Exception):
    """the partition has reached a join point while others are pending"""
class Thrown(Exception):
    """raised by a model: throw an exception object"""
    def __init__(self, ti, ptr): self.ti = ti; self.ptr = ptr

class Region:
    __slots__ = ('size', 'kind', 'cells', 'alive', 'default', 'owner', 'name', 'const')
    def __init__(self, size, kind, owner, name='', default=None):
        self.size = size; self.kind = kind; self.cells = {}; self.alive = True; self.default = default; self.owner = owner; self.name = name; self.const = False
    def clone(self, owner):
        r = Region(self.size, self.kind, owner, self.name, self.default); r.cells = dict(self.cells); r.alive = self.alive; r.const = self.const
        return r

class Frame:
    __slots__ = ('fn', 'regs', 'code', 'blk', 'ip', 'prev', 'dst', 'allocas', 'va', 'call', 'visits')
    def copy(self):
        f = Frame(); f.fn = self.fn; f.regs = list(self.regs); f.code = self.code; f.blk = self.blk; f.ip = self.ip; f.prev = self.prev
        f.dst = self.dst; f.allocas = list(self.allocas); f.va = self.va; f.call = self.call
        return f

class State:
    _tok = 0
    __slots__ = ('frames', 'heap', 'pc', 'next', 'tok', 'exc', 'caught', 'ext', 'inputs', 'steps', 'nat', 'forks', 'notes', 'fx')
    def __init__(self):
        State._tok += 1; self.tok = State._tok
        self.frames = []; self.heap = {}; self.pc = PC(); self.next = 1 << 20; self.exc = None; self.caught = (); self.ext = {}; self.inputs = (); self.steps = 0; self.nat = 0; self.forks = 0; self.notes = (); self.fx = ()
    def fork(self):
        s = State.__new__(State)
        State._tok += 1; s.tok = State._tok
        State._tok += 1; self.tok = State._tok
        s.frames = [f.copy() for f in self.frames]; s.heap = dict(self.heap); s.pc = self.pc; s.next = self.next; s.exc = self.exc; s.caught = self.caught
        s.ext = dict(self.ext); s.inputs = self.inputs; s.steps = self.steps; s.nat = self.nat; s.forks = self.forks + 1; s.notes = self.notes; s.fx = self.fx
        return s
    def alloc(self, size, kind, name='', default=None):
        i = self.next; self.next += 1
        self.heap[i] = Region(size, kind, self.tok, name, default)
        return i << SHIFT
    def wr(self, i):
        r = self.heap[i]
        if r.owner != self.tok:
            r = r.clone(self.tok); self.heap[i] = r
        return r
    # ---- memory
    def check(self, addr, n, what):
        if addr is UNDEF: raise Violation('memory', '%s through an uninitialised pointer' % what)
        if not isinstance(addr, int):
            f = fixed(self.pc, addr)
            if f is None: self.split_addr(addr)
            addr = f
        i = addr >> SHIFT; r = self.heap.get(i)
        if r is None:
            if -4096 < addr < 4096: raise Violation('memory', '%s through a null pointer' % what)
            raise Violation('memory', '%s through an invalid pointer' % what)
        off = addr & MASK
        if not r.alive: raise Violation('memory', '%s of memory that was released (%s)' % (what, r.kind))
        if off + n > r.size:
            if n == 0: return r, off
            raise Violation('memory', '%s outside its object: offset %s..%d of %s object %s of %d bytes' % (what, off if off < (1 << 31) else off - (1 << 32), (off if off < (1 << 31) else off - (1 << 32)) + n, r.kind, r.name, r.size))
        return r, off
    def split_addr(self, v): raise Split(enum_alts(self.pc, v))
    def load(self, addr, n):
        if not isinstance(addr, int):
            self.check(addr, n, 'read'); addr = fixed(self.pc, addr)
        r = self.heap.get(addr >> SHIFT); off = addr & MASK
        if r is None or not r.alive or off + n > r.size: r, off = self.check(addr, n, 'read')
        c = r.cells.get(off)
        if c is not None and c[0] == n: return c[1]
        if n > 16: raise Unknown('wide load')
        return self._compose(r, off, n)
    def byte(self, r, off):
        """abstract byte at offset: int 0..255 signed canonical / Tab / UNDEF"""
        c = r.cells.get(off)
        if c is not None: k = 0
        else:
            k = None
            for d in range(1, 16):
                c = r.cells.get(off - d)
                if c is not None:
                    if c[0] > d: k = d
                    break
            if k is None: return UNDEF if r.default is None else r.default
        n, v = c
        if n == 1: return v
        return byte_of(v, k, n)
    def _compose(self, r, off, n):
        # whole uncovered?
        bs = [self.byte(r, off + i) for i in range(n)]
        if n == 1: return bs[0]
        if all(isinstance(b, int) for b in bs):
            x = 0
            for i, b in enumerate(bs): x |= (b & 255) << (8 * i)
            return sgn(x, 8 * n)
        if any(b is UNDEF for b in bs): 
            if all(b is UNDEF for b in bs): return UNDEF
            return Herb('concat', tuple(bs), 8 * n)
        return join_bytes(bs)
    def store(self, addr, n, v):
        if not isinstance(addr, int):
            self.check(addr, n, 'write'); addr = fixed(self.pc, addr)
        i = addr >> SHIFT; r = self.heap.get(i); off = addr & MASK
        if r is None or not r.alive or off + n > r.size: r, off = self.check(addr, n, 'write')
        if r.const: raise Violation('memory', 'write to constant data %s' % r.name)
        if r.owner != self.tok: r = r.clone(self.tok); self.heap[i] = r
        cells = r.cells
        c = cells.get(off)
        if not (c is not None and c[0] == n): self._clear(r, off, n)
        if isinstance(v, Herb) and v.op == 'concat' and len(v.args) == n:
            cells.pop(off, None)
            for k, b in enumerate(v.args):
                if b is UNDEF and r.default is None: cells.pop(off + k, None)
                else: cells[off + k] = (1, b)
            return
        cells[off] = (n, v)
    def _clear(self, r, off, n):
        """remove cells overlapping [off, off+n), splitting those partly covered"""
        cells = r.cells
        if not cells: return
        rng = range(off - 15, off + n) if n + 15 < len(cells) * 2 else [k for k in cells if off - 16 < k < off + n]
        for s in rng:
            c = cells.get(s)
            if c is None: continue
            m, v = c
            if s + m <= off: continue
            del cells[s]
            if s < off or s + m > off + n:
                for k in range(m):
                    if s + k < off or s + k >= off + n: cells[s + k] = (1, byte_of(v, k, m) if m > 1 else v)
    def memcpy(self, dst, src, n, move=False):
        if n == 0: return
        rs, so = self.check(src, n, 'read'); rd, do = self.check(dst, n, 'write')
        if rd.const: raise Violation('memory', 'write to constant data %s' % rd.name)
        items = []; covered_to = so
        if n <= 64 or n < len(rs.cells) * 2:
            k = so
            # first cell may start before so
            while k < so + n:
                c = rs.cells.get(k)
                if c is not None and k + c[0] <= so + n: items.append((k - so, c)); k += c[0]
                else:
                    b = self.byte(rs, k)
                    if b is not UNDEF: items.append((k - so, (1, b)))
                    k += 1
        else:
            for s in sorted(k for k in rs.cells if so - 16 < k < so + n):
                m, v = rs.cells[s]
                if s >= so and s + m <= so + n: items.append((s - so, (m, v)))
                else:
                    for k in range(m):
                        if so <= s + k < so + n: items.append((s + k - so, (1, byte_of(v, k, m) if m > 1 else v)))
            if rs.default is not None:
                have = set()
                for o, (m, v) in items: have.update(range(o, o + m))
                items += [(o, (1, rs.default)) for o in range(n) if o not in have]
        rd = self.wr(dst >> SHIFT)
        self._clear(rd, do, n)
        if rd.default is not None:
            have = set()
            for o, (m, v) in items: have.update(range(o, o + m))
            for o in range(n):
                if o not in have: rd.cells[do + o] = (1, UNDEF)
        for o, c in items: rd.cells[do + o] = c
    def cstr(self, addr, limit=100000):
        """list of bytes up to the terminator (divides the partition on undecided terminators)"""
        out = []
        while True:
            b = self.load(addr + len(out), 1)
            if b is UNDEF: raise Violation('memory', 'string read of uninitialised memory')
            if isinstance(b, int):
                if b == 0: return out
            else:
                t = icmp(self.pc, 'eq', b, 0, 8); d = self.pc.decide(t)
                if d is None: raise Split([(t, 1), (t, 0)])
                if d: return out
            out.append(b)
            if len(out) > limit: raise Unknown('long string')
    def bytes_at(self, addr, n): return [self.load(addr + i, 1) for i in range(n)]
    def put_bytes(self, addr, bs):
        for i, b in enumerate(bs): self.store(addr + i, 1, b)
    def new_cstr(self, bs, kind='heap', name='text'):
        a = self.alloc(len(bs) + 1, kind, name)
        self.put_bytes(a, list(bs) + [0]); return a

def byte_of(v, k, m):
    if v is UNDEF: return UNDEF
    if isinstance(v, int): return sgn(v >> (8 * k), 8)
    if isinstance(v, Tab): return mk_tab(v.atom, tuple(sgn(x >> (8 * k), 8) for x in v.vals))
    if isinstance(v, Herb) and v.op == 'concat': return v.args[k]
    if isinstance(v, (RF, float)): return Herb('byte', (v, k, 8 * m), 8)
    return Herb('byte', (v, k, 8 * m), 8)
def join_bytes(bs):
    b0 = bs[0]
    if isinstance(b0, Herb) and b0.op == 'byte' and b0.args[1] == 0 and b0.args[2] == 8 * len(bs):
        x = b0.args[0]
        if all(isinstance(b, Herb) and b.op == 'byte' and b.args[0] == x and b.args[1] == i for i, b in enumerate(bs)): return x
    at = None
    for b in bs:
        if isinstance(b, Tab):
            if at is None: at = b.atom
            elif at is not b.atom: at = None; break
        elif not isinstance(b, int): at = None; break
    if at is not None and all(isinstance(b, int) or (isinstance(b, Tab) and b.atom is at) for b in bs):
        out = []
        for i in range(len(at.vals)):
            x = 0
            for k, b in enumerate(bs): x |= ((b if isinstance(b, int) else b.vals[i]) & 255) << (8 * k)
            out.append(sgn(x, 8 * len(bs)))
        return mk_tab(at, tuple(out))
    return Herb('concat', tuple(bs), 8 * len(bs))

def fixed(pc, v):
    """the only possible value of v, or None"""
    if isinstance(v, int): return v
    if isinstance(v, (Tab, Lin)):
        lo, hi = pc.range(v)
        if lo == hi: return lo
        return None
    if isinstance(v, Herb):
        asg = {}
        for a in atoms_of(v):
            if a.kind == 'def': return None
            lo, hi = pc.arange(a)
            if lo != hi: return None
            asg[a] = lo
        try: return ev(v, asg)
        except Exception: return None
    return None
def enum_alts(pc, v, limit=300):
    """alternatives that fix the value of v"""
    if isinstance(v, Tab):
        vals = sorted(pc.tvals(v))
        if len(vals) > limit: raise Unknown('value has too many cases')
        return [(icmp(pc, 'eq', v, x, 64), 1) for x in vals]
    if isinstance(v, Lin):
        best = None
        for a, k in v.t:
            lo, hi = pc.arange(a)
            n = hi - lo + 1 if a.kind != 'fin' else bin(pc.mask(a)).count('1')
            if best is None or n < best[0]: best = (n, a, lo, hi)
        n, a, lo, hi = best
        if n > 64: raise Unknown('value has too many cases')
        if a.kind == 'fin': return [(Tab(a, tuple(int(x == y) for y in a.vals)), 1) for i, x in enumerate(a.vals) if pc.mask(a) >> i & 1]
        out = []
        for x in range(int(lo), int(hi) + 1):
            n = Herb('eq0', (Lin(((a, 1),), -x),), 1); d = pc.decide(n)
            if d == 0: continue
            out.append((n if d is None else 1, 1))
        return out
    for a in sorted(atoms_of(v), key=lambda a: a.id):
        if a.kind == 'fin':
            c = [x for i, x in enumerate(a.vals) if pc.mask(a) >> i & 1]
            if 1 < len(c) <= 256: return [(Tab(a, tuple(int(x == y) for y in a.vals)), 1) for x in c]
    raise Unknown('value has too many cases: %s' % (repr(v)[:80],))

def f64(bits):
    x = struct.unpack('<d', struct.pack('<Q', bits & ((1 << 64) - 1)))[0]
    return fval(x)
def fval(x):
    if x != x or x in (math.inf, -math.inf): return x
    return rf_const(Fraction(x))
def f32(bits):
    return fval(struct.unpack('<f', struct.pack('<I', bits & ((1 << 32) - 1)))[0])

class Fn:
    __slots__ = ('name', 'dem', 'raw', 'code', 'n', 'nargs', 'ret', 'va', 'file', 'line', 'flow', 'bits')

class Program:
    def __init__(self, path):
        m = json.load(open(path))
        self.types = m['types']; self.files = m['files']; self.raw = m['fns']; self.globals = m['globals']
        self.fns = {}
        for n, f in m['fns'].items():
            F = Fn(); F.name = n; F.dem = f['dem']; F.raw = f.get('b'); F.code = None; F.n = f.get('n', 0); F.nargs = len(f.get('args', ())); F.ret = f['ret']; F.va = f['va']; F.file = f.get('file'); F.line = f.get('line')
            self.fns[n] = F
        self.faddr = {}; self.fbyaddr = {}
        for i, n in enumerate(sorted(self.fns)):
            a = (2 << SHIFT) + 16 * i; self.faddr[n] = a; self.fbyaddr[a] = n
        self.gaddr = {}
        for i, n in enumerate(sorted(self.globals)): self.gaddr[n] = (i + 4096) << SHIFT
        self.tid = {}; self._limits = None

    def limits(self):
        """integer constants in which the behaviour of repository code may change: what it compares with, masks with, divides by, shifts by or passes on"""
        if self._limits is not None: return self._limits
        repo = os.environ.get('VP_REPO', '/repo').rstrip('/') + '/'
        ids = {i for i, f in enumerate(self.files) if f.startswith(repo + 'flut/') and not f.endswith('test_framework.hpp')}; out = {}
        for F in self.fns.values():
            if F.raw is None: continue
            modes = any(i['op'] in ('call', 'invoke') and i['f'][0] == 'fn' and i['f'][1] in ('stat', 'lstat', 'mkdir', 'chmod', 'open') for b in F.raw for i in b)   # file modes are no sizes
            here = (F.file or '').startswith(repo + 'flut/')
            narrow = set()      # registers that hold a character or a truth value
            for b in F.raw:
                for i in b:
                    if i['op'] in ('zext', 'sext') and self.types[i['ot']].get('bits', 64) <= 8: narrow.add(i.get('d'))
            for b in F.raw:
                for i in b:
                    op = i['op']
                    if i['l'] // 1000000 not in ids if i['l'] else not here or op != 'icmp': continue      # a comparison that was moved has no line any more
                    cs = ()
                    if op == 'icmp' and self.types[i['ot']].get('bits', 64) > 8 or op in ('and', 'urem', 'srem', 'udiv', 'sdiv', 'lshr', 'ashr'):
                        if not any(o[0] == 'r' and o[1] in narrow for o in i['o']): cs = i['o']
                        if op in ('lshr', 'ashr'): cs = [['i', 1 << o[1], 64] for o in cs if o[0] == 'i' and 0 < o[1] < 30]
                    elif op == 'switch' and i['bits'] > 8 and not (i['c'][0] == 'r' and i['c'][1] in narrow): cs = [['i', x[0], 64] for x in i['cs']]
                    elif op in ('call', 'invoke') and i['f'][0] == 'fn' and not re.match(r'llvm|_Zn[aw]|_Zd[al]|__cxa|_ZSt.*throw|__assert', i['f'][1]): cs = [a for a in i['a'] if a[0] == 'i' and a[2] >= 32]
                    elif op == 'select': cs = [a for a in i['o'][1:] if a[0] == 'i' and a[2] >= 32]
                    elif op == 'phi': cs = [x[1] for x in i['in'] if x[1][0] == 'i' and x[1][2] >= 32]
                    for o in cs:
                        if modes and o[1] in (0o777, 0o755, 0o170000, 0o100000, 0o40000, 0o120000): continue
                        if o[0] == 'i' and isinstance(o[1], int) and abs(o[1]) > 5: out.setdefault(abs(o[1]), '%s:%d' % (self.files[i['l'] // 1000000][len(repo):] if i['l'] else F.dem, i['l'] % 1000000))
        for x in os.environ.get('VP_LIMITS', '').split(): out[int(x)] = 'given'
        self._limits = out
        return out
    def typeid(self, name):
        if name not in self.tid: self.tid[name] = len(self.tid) + 1
        return self.tid[name]
    # ---- constants
    def const(self, c):
        k = c[0]
        if k == 'i': return c[1] & 1 if c[2] == 1 else c[1]
        if k == 'I': return sgn(int(c[1]), c[2])
        if k == 'f': return f64(int(c[1]))
        if k == 'n': return 0
        if k == 'u': return self.undef(c[1])
        if k == 'z': return self.zero(c[1])
        if k == 'fn': return self.faddr[c[1]]
        if k == 'g': return self.gaddr[c[1]]
        if k == 'ge': return self.const(c[1]) + c[2]
        if k == 'A': return Vec(self.const(x) for x in c[2])
        if k == 'ce':
            op, t, a = c[1], c[2], [self.const(x) for x in c[3]]
            if op in ('ptrtoint', 'inttoptr', 'bitcast'): return a[0]
            w = self.types[t].get('bits', 64)
            if op == 'trunc': return sgn(a[0], w)
            if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'): return conc_bin(op, a[0], a[1], w)
        return None
    def undef(self, t):
        T = self.types[t]
        if T['k'] == 's': return Vec(self.undef(x[1]) for x in T['e'])
        if T['k'] == 'a': return Vec(self.undef(T['et']) for _ in range(T['n']))
        return UNDEF
    def zero(self, t):
        T = self.types[t]
        if T['k'] == 's': return Vec(self.zero(x[1]) for x in T['e'])
        if T['k'] == 'a': return Vec(self.zero(T['et']) for _ in range(T['n']))
        if T['k'] == 'f': return rf_const(0)
        return 0
    def opnd(self, o):
        if o[0] == 'r': return o[1]
        v = self.const(o)
        return (v,)          # tuple marks a constant
    def loc(self, l):
        if not l: return None
        return self.files[l // 1000000], l % 1000000
    # ---- decoding
    def decode(self, F):
        code = []; F.bits = {}
        for b in F.raw:
            out = []
            for i in b:
                op = i['op']; d = i.get('d', -1); l = i['l']; T = self.types[i['t']]
                if d >= 0: F.bits[d] = T.get('bits', 0)
                O = self.opnd
                if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
                    out.append(('bin', l, d, op, O(i['o'][0]), O(i['o'][1]), T.get('bits'), T))
                elif op == 'icmp': out.append(('icmp', l, d, i['p'], O(i['o'][0]), O(i['o'][1]), self.types[i['ot']].get('bits', 64), self.types[i['ot']]))
                elif op == 'fcmp': out.append(('fcmp', l, d, i['p'], O(i['o'][0]), O(i['o'][1])))
                elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'): out.append(('fbin', l, d, op, O(i['o'][0]), O(i['o'][1])))
                elif op == 'fneg': out.append(('fneg', l, d, O(i['o'][0])))
                elif op == 'load': out.append(('load', l, d, O(i['o'][0]), i['t']))
                elif op == 'store': out.append(('store', l, O(i['o'][0]), O(i['o'][1]), i['vt']))
                elif op == 'getelementptr': out.append(('gep', l, d, O(i['b']), i['c'], [(O(x[0]), x[1], x[2]) for x in i['v']]))
                elif op == 'alloca': out.append(('alloca', l, d, i['sz'], O(i['n'])))
                elif op == 'br':
                    if 'c' in i: out.append(('cbr', l, O(i['c']), i['bt'], i['bf']))
                    else: out.append(('br', l, i['bt']))
                elif op == 'switch': out.append(('switch', l, O(i['c']), i['def'], [tuple(x) for x in i['cs']], i['bits']))
                elif op == 'ret': out.append(('ret', l, O(i['o'][0]) if i['o'] else None))
                elif op == 'phi': out.append(('phi', l, d, {x[0]: O(x[1]) for x in i['in']}))
                elif op == 'select': out.append(('select', l, d, O(i['o'][0]), O(i['o'][1]), O(i['o'][2]), T.get('bits')))
                elif op in ('call', 'invoke'):
                    f = i['f']
                    callee = f[1] if f[0] == 'fn' else (None if f[0] == 'asm' else O(f))
                    out.append(('call', l, d, callee, [O(x) for x in i['a']], i.get('bv'), (i['n'], i['u']) if op == 'invoke' else None, i['at']))
                elif op in ('zext', 'sext', 'trunc'): out.append(('cast', l, d, op, O(i['o'][0]), self.types[i['ot']].get('bits'), T.get('bits')))
                elif op in ('ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'): out.append(('copy', l, d, O(i['o'][0])))
                elif op == 'bitcast': out.append(('bitcast', l, d, O(i['o'][0]), self.types[i['ot']], T))
                elif op in ('fpext', 'fptrunc'): out.append(('copy', l, d, O(i['o'][0])))
                elif op in ('sitofp', 'uitofp', 'fptosi', 'fptoui'): out.append(('fconv', l, d, op, O(i['o'][0]), self.types[i['ot']].get('bits'), T.get('bits')))
                elif op == 'extractvalue': out.append(('extract', l, d, O(i['o'][0]), i['x']))
                elif op == 'insertvalue': out.append(('insert', l, d, O(i['o'][0]), O(i['o'][1]), i['x']))
                elif op == 'extractelement': out.append(('xelem', l, d, O(i['o'][0]), O(i['o'][1])))
                elif op == 'insertelement': out.append(('ielem', l, d, O(i['o'][0]), O(i['o'][1]), O(i['o'][2])))
                elif op == 'shufflevector': out.append(('shuffle', l, d, O(i['o'][0]), O(i['o'][1]), i['x']))
                elif op == 'landingpad': out.append(('lpad', l, d, i['cleanup'], [(x[0], x[1]) for x in i['cl']]))
                elif op == 'resume': out.append(('resume', l, O(i['o'][0])))
                elif op == 'unreachable': out.append(('unreachable', l))
                elif op == 'atomicrmw': out.append(('rmw', l, d, i['rmw'], O(i['o'][0]), O(i['o'][1]), i['t']))
                elif op == 'cmpxchg': out.append(('cmpxchg', l, d, O(i['o'][0]), O(i['o'][1]), O(i['o'][2]), i['t']))
                elif op == 'fence': out.append(('nop', l))
                else: out.append(('bad', l, op))
            code.append(out)
        F.code = code; F.flow = Flow(code)
        return code

STD_BASE = {'_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error',
            '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt12domain_error': '_ZTISt11logic_error', '_ZTISt9bad_alloc': '_ZTISt9exception', '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc', '_ZTISt8bad_cast': '_ZTISt9exception',
            '_ZTISt17bad_function_call': '_ZTISt9exception', '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt14overflow_error': '_ZTISt13runtime_error', '_ZTISt10bad_typeid': '_ZTISt9exception', '_ZTISt16bad_array_length': '_ZTISt9bad_alloc'}

class Interp:
    def __init__(self, prog, limits=None):
        self.p = prog; self.limits = {'steps': 3000000, 'paths': 200000, 'time': 300, 'total_steps': 10**9}
        if limits: self.limits.update(limits)
        import models
        self.models = models.table(); self.model_rx = models.regexes()
        self._mcache = {}
        self.stats = {'partitions': 0, 'steps': 0, 'obligations': 0, 'discharged': 0, 'undecided': 0, 'infeasible': 0, 'calls': 0, 'splits': 0, 'joins': 0, 'longest': 0}
        self.functions = set(); self.undecided = {}; self.violations = []; self.reached = {}; self.asserts = {}; self.uncut = True
        self.blocks = set()
        self.buckets = {}; self.keys = []; self.pending = 0; self.joins = not os.environ.get('VP_NOJOIN'); self.maxlive = 0
        self.sink = None
        self.disp = {n[3:]: getattr(self, n) for n in dir(self) if n.startswith('op_')}
        self.stop_first = False
    # ------------------------------------------------------------ setup
    def initial(self):
        st = State()
        for n, g in self.p.globals.items():
            i = self.p.gaddr[n] >> SHIFT
            r = Region(max(g['size'], 1 << 12 if 'init' not in g else 0), 'global', 0, n, 0 if 'init' in g else None)
            for e in g.get('init', ()):
                if e[0] == 'bytes':
                    h = bytes.fromhex(e[2])
                    for k, b in enumerate(h): r.cells[e[1] + k] = (1, sgn(b, 8))
                elif e[0] == 'val':
                    T = self.p.types[e[2]]; v = self.p.const(e[3])
                    if v is not None: r.cells[e[1]] = (T['size'], v)
            r.const = g['const'] and 'init' in g
            if 'init' not in g: self.extern_global(n, r)
            st.heap[i] = r
        return st
    def extern_global(self, n, r):
        import models
        models.extern_global(self, n, r)
    def ctors(self):
        g = self.p.globals.get('llvm.global_ctors')
        if not g or 'ctors' not in g: return []
        out = []
        for x in g['ctors'][2]:
            e = x[2]; out.append((e[0][1], e[1][1] if e[1][0] == 'fn' else None))
        return [n for _, n in sorted((p, n) for p, n in out if n)]
    def model_for(self, name):
        m = self._mcache.get(name, 0)
        if m != 0: return m
        m = self.models.get(name)
        if m is None:
            F = self.p.fns.get(name)
            d = F.dem if F else name
            m = self.models.get(d)
            if m is None:
                for rx, fn in self.model_rx:
                    if rx.search(d): m = fn; break
        self._mcache[name] = m
        return m
    # ------------------------------------------------------------ running
    def run(self, entry, deadline=None):
        t0 = time.time(); self.deadline = t0 + self.limits['time']
        st = self.initial()
        # global constructors, in order, as one abstract prefix
        seq = self.ctors() + [entry]
        st.ext['seq'] = tuple(seq[1:])
        self.enter(st, seq[0], [], -1, None)
        self.push(st)
        npaths = 0
        while self.keys:
            k = heapq.heappop(self.keys)
            group = self.buckets.pop(k); self.pending -= len(group)
            if len(group) > 1 and self.joins: group = self.join_all(group)
            group.reverse()
            while group:
                st = group.pop()
                npaths += 1
                if self.stats['partitions'] + self.stats['infeasible'] > self.limits['paths'] or time.time() > self.deadline or self.stats['steps'] > self.limits['total_steps']:
                    self.uncut = False; self.note_undecided('analysis budget exhausted with %d partitions left' % (self.pending + len(group) + 1)); self.keys = []; break
                self.pending += len(group)
                self.step_all(st)
                self.pending -= len(group)
                if self.violations and self.stop_first: self.keys = []; break
        self.stats['wall'] = time.time() - t0
    # ------------------------------------------------------------ meeting and joining of partitions
    def push(self, st):
        if self.joins: k = tuple([x for f in st.frames for x in (f.fn.flow.idx[f.blk], f.ip)])
        else: k = (-self.pending,)
        b = self.buckets.get(k)
        if b is None: self.buckets[k] = [st]; heapq.heappush(self.keys, k)
        else: b.append(st)
        self.pending += 1
        if self.pending > self.maxlive: self.maxlive = self.pending
    def join_all(self, group):
        out = []
        for st in group:
            done = False
            for q in out[-48:]:
                if self.try_join(q, st): done = True; self.stats['joins'] += 1; break
            if not done: out.append(st)
        # a join can make two kept partitions joinable
        if len(out) < len(group) and len(out) > 1: return self.join_all(out)
        return out
    def try_join(self, a, b):
        """replace a by the exact join of a and b when there is one"""
        if a.nat != b.nat or len(a.frames) != len(b.frames) or a.exc != b.exc or a.caught != b.caught or len(a.inputs) != len(b.inputs): return False
        pa, pb = a.pc, b.pc
        j = pa.join(pb)
        if j is None: return False
        pc, at, ma, mb = j
        diffs = []
        def val(x, y, bits):
            """joined value or raise; only characters and decisions are kept as a table over the unknown
            the partitions differ in -- positions and sizes stay apart"""
            if x is y: return x
            if x == y and type(x) is type(y): return x
            if not 0 < bits <= 32: raise _NoJoin()
            if at is None or at.label != 'char': raise _NoJoin()
            if isinstance(x, Vec) or isinstance(y, Vec): raise _NoJoin()
            if not isinstance(x, int) and not (isinstance(x, Tab) and x.atom is at): raise _NoJoin()
            if not isinstance(y, int) and not (isinstance(y, Tab) and y.atom is at): raise _NoJoin()
            if isinstance(x, int) and abs(x) >= 65536 or isinstance(y, int) and abs(y) >= 65536: raise _NoJoin()
            if len(diffs) >= 2: raise _NoJoin()
            n = len(at.vals); xv = x.vals if isinstance(x, Tab) else (x,) * n; yv = y.vals if isinstance(y, Tab) else (y,) * n
            diffs.append(1)
            return mk_tab(at, tuple(u if ma >> k & 1 else v for k, (u, v) in enumerate(zip(xv, yv))))
        try:
            upd = []
            top = len(a.frames) - 1
            for n, (f, g) in enumerate(zip(a.frames, b.frames)):
                if f.fn is not g.fn or f.blk != g.blk or f.ip != g.ip or f.dst != g.dst or f.allocas != g.allocas or f.va != g.va: return False
                if f.regs == g.regs and n != top: continue
                live = None
                for r, (x, y) in enumerate(zip(f.regs, g.regs)):
                    if x is y: continue
                    if x == y and type(x) is type(y): continue
                    if live is None: live = f.fn.flow.live_after(f.blk, f.ip) if n != top else f.fn.flow.live_before(f.blk, f.ip)
                    if r in live: upd.append((f, r, val(x, y, f.fn.bits.get(r, 0))))
            if a.ext != b.ext: return False
            heap = []
            if a.heap.keys() != b.heap.keys(): 
                for k in a.heap.keys() ^ b.heap.keys():
                    r = a.heap.get(k) or b.heap.get(k)
                    if r.alive: return False
                    heap.append((k, r, None))
            hb = b.heap
            for k, r in a.heap.items():
                q = hb.get(k)
                if q is None or q is r: continue
                if r.alive != q.alive: return False
                if not r.alive: continue
                if r.size != q.size or r.kind != q.kind: return False
                if r.cells == q.cells: continue
                if len(r.cells) != len(q.cells): return False
                ch = {}
                for o, (m, x) in r.cells.items():
                    c = q.cells.get(o)
                    if c is None or c[0] != m: return False
                    y = c[1]
                    if x is y or (x == y and type(x) is type(y)): continue
                    ch[o] = (m, val(x, y, 8 * m if m < 4 else 0))
                if ch: heap.append((k, r, ch))
            for (l, x), (l2, y) in zip(a.inputs, b.inputs):
                if l != l2: return False
                if not (x is y or x == y): return False
        except _NoJoin: return False
        for f, r, v in upd: f.regs[r] = v
        for k, r, ch in heap:
            if ch is None: a.heap[k] = r
            else: a.wr(k).cells.update(ch)
        a.pc = pc; a.next = max(a.next, b.next); a.steps = max(a.steps, b.steps)
        return True
    def note_undecided(self, why):
        self.stats['undecided'] += 1
        self.undecided[why] = self.undecided.get(why, 0) + 1
    def step_all(self, st):
        disp = self.disp
        n = 0
        try:
            while True:
                try:
                    while True:
                        fr = st.frames[-1]
                        ins = fr.code[fr.blk][fr.ip]
                        n += 1
                        disp[ins[0]](st, fr, ins)
                        if n & 1023 == 0:
                            if n + st.steps > self.limits['steps']:
                                if self.limits.get('hang'): raise Violation('hang', 'no end of the call is reached within %d abstract steps' % self.limits['steps'])
                                raise Unknown('step limit')
                            if time.time() > self.deadline: raise Unknown('analysis budget exhausted')
                except Split as s:
                    alts = []
                    for node, truth in s.alts: alts += st.pc.assume(node, truth) if not isinstance(node, int) else ([st.pc] if node == truth else [])
                    if not alts: raise Infeasible()
                    for pc in alts[1:]:
                        q = st.fork(); q.steps = st.steps + n; q.pc = pc; self.stats['splits'] += 1; self.push(q)
                    st.pc = alts[0]
                    if len(alts) == 1 and len(s.alts) == 1 and s.alts[0][0] == 1: raise Unknown('split made no progress')
                except Thrown as t:
                    self.throw(st, t.ti, t.ptr)
        except Sync:
            st.steps += n; self.stats['steps'] += n; n = 0
            self.push(st)
        except Done:
            self.stats['partitions'] += 1
        except Infeasible:
            self.stats['infeasible'] += 1
        except Unknown as u:
            self.note_undecided(self.where(st) + ': ' + str(u)[:200])
        except Violation as v:
            self.report(st, v)
        except ZeroDivisionError:
            self.report(st, Violation('arith', 'division by zero'))
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, RecursionError, OverflowError, AssertionError) as e:
            if os.environ.get('VP_DEBUG'): raise
            self.note_undecided('%s: analyser limitation: %s %s' % (self.where(st), type(e).__name__, str(e)[:120]))
        finally:
            self.stats['steps'] += n; st.steps += n
            if st.steps > self.stats['longest']: self.stats['longest'] = st.steps
    # ------------------------------------------------------------ reporting
    def stack(self, st):
        out = []
        for fr in reversed(st.frames):
            try: l = self.p.loc(fr.code[fr.blk][fr.ip][1])
            except Exception: l = None
            out.append((fr.fn.dem, l))
        return out
    def where(self, st):
        for d, l in self.stack(st):
            if l and not l[0].startswith('/usr'): return '%s:%d' % (l[0], l[1])
        s = self.stack(st)
        return s[0][0][:60] if s else '?'
    def report(self, st, v, goal=()):
        w = st.pc.witness(goal, want=[x for _, x in st.inputs])
        if w is None:
            if st.pc.no_point(goal): return
            self.note_undecided('%s: possible %s violation without a witness (%s)' % (self.where(st), v.kind, v.msg[:100])); return
        ins = []
        for lab, x in st.inputs:
            try: ins.append((lab, ev(x, dict(w))))
            except Exception: ins.append((lab, '?'))
        self.violations.append({'kind': v.kind, 'msg': v.msg, 'stack': [(d[:160], '%s:%d' % l if l else '') for d, l in self.stack(st)[:12]], 'inputs': [(a, str(float(b)) if isinstance(b, Fraction) and b.denominator != 1 else str(b)) for a, b in ins], 'notes': list(st.notes)[-12:], 'facts': [repr(x)[:120] for x in st.fx][-6:]})
    # ------------------------------------------------------------ frames
    def enter(self, st, name, args, dst, va, call=None):
        F = self.p.fns[name]
        if F.code is None: self.p.decode(F)
        self.functions.add(name)
        fr = Frame(); fr.fn = F; fr.code = F.code; fr.regs = args[:F.nargs] + [None] * (F.n - F.nargs); fr.blk = 0; fr.ip = 0; fr.prev = -1; fr.dst = dst; fr.allocas = []; fr.va = va; fr.call = call
        if len(st.frames) > self.limits.get('frames', 3000) + 4 * st.ext.get('size', 0):
            raise Violation('hang', 'unbounded recursion in %s' % F.dem[:80])
        st.frames.append(fr)
        return fr
    def v(self, fr, o):
        return o[0] if o.__class__ is tuple else fr.regs[o]
    def goto(self, st, fr, blk):
        fr.prev = fr.blk; fr.blk = blk; fr.ip = 0
        code = fr.code[blk]
        if code[0][0] == 'phi':
            vals = []; i = 0
            while code[i][0] == 'phi':
                vals.append((code[i][2], self.v(fr, code[i][3][fr.prev]))); i += 1
            for d, x in vals: fr.regs[d] = x
            fr.ip = i
    # ------------------------------------------------------------ ops
    def op_nop(self, st, fr, i): fr.ip += 1
    def op_bad(self, st, fr, i): raise Unknown('instruction ' + i[2])
    def op_copy(self, st, fr, i): fr.regs[i[2]] = self.v(fr, i[3]); fr.ip += 1
    def op_bin(self, st, fr, i):
        a = i[4]; b = i[5]
        a = a[0] if a.__class__ is tuple else fr.regs[a]; b = b[0] if b.__class__ is tuple else fr.regs[b]
        op = i[3]; w = i[6]
        if a.__class__ is int and b.__class__ is int:
            if op == 'add' or op == 'sub':
                r = a + b if op == 'add' else a - b
                if -0x80000000 <= r < 0x80000000 and w >= 32: fr.regs[i[2]] = r
                else: fr.regs[i[2]] = sgn(r, w)
            else: fr.regs[i[2]] = conc_bin(op, a, b, w)
        elif isinstance(a, Vec):
            et = self.p.types[i[7]['et']]['bits']; fr.regs[i[2]] = Vec(binop(st.pc, op, x, y, et) for x, y in zip(a.v, b.v))
        else:
            if isinstance(a, (RF, float)) or isinstance(b, (RF, float)): raise Unknown('bit operation on a real')
            if op in ('sdiv', 'udiv', 'srem', 'urem') and not isinstance(b, int) and b is not UNDEF:
                z = icmp(st.pc, 'eq', b, 0, w)
                if z == 1: raise ZeroDivisionError
                if z != 0:
                    d = st.pc.decide(z)
                    if d is None: raise Split([(z, 1), (z, 0)])
                    if d: raise ZeroDivisionError
            fr.regs[i[2]] = binop(st.pc, op, a, b, w)
        fr.ip += 1
    def op_icmp(self, st, fr, i):
        a = self.v(fr, i[4]); b = self.v(fr, i[5])
        if a.__class__ is int and b.__class__ is int: fr.regs[i[2]] = conc_cmp(i[3], a, b, i[6])
        elif isinstance(a, Vec): raise Unknown('vector compare')
        elif isinstance(a, (RF, float)) or isinstance(b, (RF, float)): raise Unknown('bit compare of a real')
        else: fr.regs[i[2]] = icmp(st.pc, i[3], a, b, i[6])
        fr.ip += 1
    def real(self, x):
        if isinstance(x, RF) or isinstance(x, float) or x is UNDEF: return x
        if isinstance(x, int): return f64(x)
        if isinstance(x, Herb) and x.op == 'concat' and any(b is UNDEF for b in x.args): return UNDEF
        raise Unknown('reinterpreted real')
    def op_fbin(self, st, fr, i):
        a = self.real1(fr, i[4]); b = self.real1(fr, i[5])
        fr.regs[i[2]] = self.fbin(st, i[3], a, b); fr.ip += 1
    def real1(self, fr, o):
        x = self.v(fr, o)
        return x if isinstance(x, (RF, Vec)) else self.real(x)
    def fbin(self, st, op, a, b):
        if isinstance(a, Vec): return Vec(self.fbin(st, op, self.real(x), self.real(y)) for x, y in zip(a.v, b.v))
        if a is UNDEF or b is UNDEF: return UNDEF
        if isinstance(a, float) or isinstance(b, float):
            ca = a if isinstance(a, float) else a.const(); cb = b if isinstance(b, float) else b.const()
            if ca is None or cb is None:
                f = a if isinstance(a, float) else b; u = b if isinstance(a, float) else a
                if f != f: return math.nan
                if op in ('fadd', 'fsub'): return -f if op == 'fsub' and u is a else f
                if op == 'fmul' or (op == 'fdiv' and f is a):
                    g = self.sign(st, u)
                    return math.nan if g == 0 and op == 'fmul' else f if g >= 0 else -f
                if op == 'fdiv': return rf_const(0)
                raise Unknown('infinity or NaN combined with an unknown real')
            fa, fb = float(ca), float(cb)
            try: r = fa + fb if op == 'fadd' else fa - fb if op == 'fsub' else fa * fb if op == 'fmul' else (fa / fb if fb else (math.nan if fa == 0 or fa != fa else math.copysign(math.inf, fa))) if op == 'fdiv' else math.fmod(fa, fb)
            except (OverflowError, ValueError): r = math.nan
            return fval(r)
        if op == 'fadd': return rf_add(a, b)
        if op == 'fsub': return rf_add(a, b, -1)
        if op == 'fmul': return rf_mul(a, b)
        if op == 'fdiv':
            c = b.const()
            if c == 0:
                g = self.sign(st, a)
                return math.nan if g == 0 else math.inf * g
            if c is None:
                z = rcmp(st.pc, 'eq', b, rf_const(0))
                if z != 0:
                    d = z if z == 1 else st.pc.decide(z)
                    if d is None: raise Split([(z, 1), (z, 0)])
                    if d: return self.fbin(st, op, a, rf_const(0))
            return rf_div(a, b)
        if op == 'frem':
            return self.fmod(st, a, b)
    def sign(self, st, x):
        c = x.const()
        if c is not None: return (c > 0) - (c < 0)
        for p, g in (('eq', 0), ('gt', 1)):
            z = rcmp(st.pc, p, x, rf_const(0))
            d = z if z in (0, 1) else st.pc.decide(z)
            if d is None: raise Split([(z, 1), (z, 0)])
            if d: return g
        return -1
    def fmod(self, st, a, b):
        """a - b * trunc(a / b)"""
        ca, cb = a.const(), b.const()
        if cb == 0: return math.nan
        if ca is not None and cb is not None: return rf_const(ca - cb * math.trunc(ca / cb))
        k = to_rf(self.to_int(st, self.fbin(st, 'fdiv', a, b), 64))
        return rf_add(a, rf_mul(b, k), -1)
    def op_fneg(self, st, fr, i):
        a = self.real1(fr, i[3])
        fr.regs[i[2]] = a if a is UNDEF else -a if isinstance(a, float) else Vec(rf_mul(self.real(x), rf_const(-1)) for x in a.v) if isinstance(a, Vec) else RF(p_scale(a.num, Fraction(-1)), a.den); fr.ip += 1
    def op_fcmp(self, st, fr, i):
        fr.regs[i[2]] = self.fcmp(st, i[3], self.real1(fr, i[4]), self.real1(fr, i[5])); fr.ip += 1
    def fcmp(self, st, p, a, b):
        if a is UNDEF or b is UNDEF: return UNDEF
        if p == 'ord' or p == 'uno':
            nan = (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b)
            return int(nan == (p == 'uno'))
        if isinstance(a, float) or isinstance(b, float):
            if (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b): return int(p[0] == 'u')
            fa = a if isinstance(a, float) else 0.0 if a.const() is None else float(a.const()); fb = b if isinstance(b, float) else 0.0 if b.const() is None else float(b.const())
            q = p[1:]
            return int(fa == fb if q == 'eq' else fa != fb if q == 'ne' else fa < fb if q == 'lt' else fa <= fb if q == 'le' else fa > fb if q == 'gt' else fa >= fb)
        return rcmp(st.pc, p[1:], a, b)
    def op_fconv(self, st, fr, i):
        op = i[3]; x = self.v(fr, i[4])
        if isinstance(x, Vec): raise Unknown('vector conversion')
        if x is UNDEF: r = UNDEF
        elif op in ('sitofp', 'uitofp'):
            if isinstance(x, int): r = rf_const(x if op == 'sitofp' else uns(x, i[5]))
            else:
                if isinstance(x, Tab) and op == 'uitofp': x = mk_tab(x.atom, tuple(uns(y, i[5]) for y in x.vals))
                elif op == 'uitofp':
                    lo, hi = st.pc.range(x)
                    if lo < 0: raise Unknown('unsigned to real of a possibly negative value')
                r = to_rf(x)
                if r is None:
                    if isinstance(x, Tab): raise Split(enum_alts(st.pc, x))
                    raise Unknown('integer term to real')
        else: r = self.to_int(st, self.real(x), i[6], op == 'fptoui')
        fr.regs[i[2]] = r; fr.ip += 1
    def to_int(self, st, x, w, unsigned=False):
        if isinstance(x, float): raise Violation('arith', 'conversion of NaN or infinity to an integer')
        if x is UNDEF: return UNDEF
        c = x.const()
        if c is not None:
            t = math.trunc(c)
            if not (0 <= t < (1 << w)) if unsigned else not (-(1 << (w - 1)) <= t < (1 << (w - 1))): raise Violation('arith', 'real value %s does not fit in the integer it is converted to' % float(c))
            return sgn(t, w)
        if x.den_is_one() and all(len(m) <= 1 and all(e == 1 and (a.kind in ('int', 'fin') or (a.kind == 'def' and a.defn[0] == 'fptosi')) for a, e in m) and cc.denominator == 1 for m, cc in x.num.items()):
            return mk_lin({m[0][0]: int(cc) for m, cc in x.num.items() if m}, int(x.num.get((), 0)))
        z = rcmp(st.pc, 'ge', x, rf_const(0))
        if not isinstance(z, int):
            d = st.pc.decide(z)
            if d is None: raise Split([(z, 1), (z, 0)])
            z = d
        a = def_atom('fptosi', x)
        key = ('fptosi', a)
        if key not in st.ext:
            st.ext[key] = 1
            pc = st.pc.copy()
            ra = RF(p_atom(a)); d = rf_add(x, ra, -1)
            if z: pc.real = pc.real + ((d, 'ge0', 1), (rf_add(d, rf_const(1), -1), 'ge0', 0)); pc.iv[a] = (0, 1 << 40)
            else: pc.real = pc.real + ((d, 'gt0', 0), (rf_add(d, rf_const(1)), 'gt0', 1)); pc.iv[a] = (-(1 << 40), 0)
            # tighten the interval by projecting the real facts
            lo, hi = pc.iv[a]
            for k in (0, 1, 2, 3, 4, 5, 6, 8, 10):
                if hi > k and not pc.feasible_real(((rf_add(ra, rf_const(k), -1), 'gt0', 1),)): hi = k; break
            for k in (0, -1, -2, -3, -5):
                if lo < k and not pc.feasible_real(((rf_add(rf_const(k), ra, -1), 'gt0', 1),)): lo = k; break
            pc.iv[a] = (lo, hi)
            st.pc = pc
        return Lin(((a, 1),), 0)
    def op_cast(self, st, fr, i):
        x = self.v(fr, i[4])
        if isinstance(x, Vec): raise Unknown('vector cast')
        fr.regs[i[2]] = cast(st.pc, i[3], x, i[5], i[6]); fr.ip += 1
    def op_bitcast(self, st, fr, i):
        x = self.v(fr, i[3])
        if isinstance(x, Vec) or i[5]['k'] == 'a': raise Unknown('vector bitcast')
        fr.regs[i[2]] = x; fr.ip += 1
    def load_t(self, st, addr, t):
        T = self.p.types[t]; k = T['k']
        if k == 'i':
            x = st.load(addr, T['size'])
            if T['bits'] < 8 * T['size'] and isinstance(x, SYM + (int,)): x = cast(st.pc, 'trunc', x, 8 * T['size'], T['bits']) if not isinstance(x, int) else sgn(x, T['bits'])
            return x
        if k == 'p': 
            x = st.load(addr, 8)
            return x
        if k == 'f':
            x = st.load(addr, T['size'] if T['bits'] != 80 else 16)
            if isinstance(x, (RF, float)) or x is UNDEF: return x
            if isinstance(x, int):
                if T['bits'] == 80: return rf_const(0) if x == 0 else self._bad('long double bits')
                return f64(x) if T['bits'] == 64 else f32(x)
            if isinstance(x, Herb) and x.op == 'concat': return UNDEF
            raise Unknown('reinterpreted real')
        if k == 's': return Vec(self.load_t(st, addr + o, e) for o, e in T['e'])
        if k == 'a': return Vec(self.load_t(st, addr + j * T['es'], T['et']) for j in range(T['n']))
        raise Unknown('load of type')
    def _bad(self, m): raise Unknown(m)
    def store_t(self, st, addr, t, x):
        T = self.p.types[t]; k = T['k']
        if k == 'i':
            if T['bits'] < 8 * T['size'] and T['bits'] > 1 and isinstance(x, int): pass
            if T['bits'] == 1 and isinstance(x, SYM): x = cast(st.pc, 'zext', x, 1, 8)
            st.store(addr, T['size'], x)
        elif k == 'p': st.store(addr, 8, x)
        elif k == 'f': st.store(addr, T['size'], x)
        elif k == 's':
            for (o, e), y in zip(T['e'], x.v): self.store_t(st, addr + o, e, y)
        elif k == 'a':
            for j, y in enumerate(x.v): self.store_t(st, addr + j * T['es'], T['et'], y)
        else: raise Unknown('store of type')
    def op_load(self, st, fr, i):
        a = i[3]; a = a[0] if a.__class__ is tuple else fr.regs[a]
        if a is None: raise Unknown('constant not representable')
        fr.regs[i[2]] = self.load_t(st, a if a.__class__ is int else self.addr(st, a, 'read'), i[4]); fr.ip += 1
    def op_store(self, st, fr, i):
        a = self.v(fr, i[3]); x = self.v(fr, i[2])
        if x is None: raise Unknown('constant not representable')
        self.store_t(st, a if a.__class__ is int else self.addr(st, a, 'write'), i[4], x); fr.ip += 1
    def addr(self, st, a, what):
        if a is UNDEF: raise Violation('memory', '%s through an uninitialised pointer' % what)
        f = fixed(st.pc, a)
        if f is not None: return f
        if isinstance(a, Tab):
            raise Split(enum_alts(st.pc, a))
        if isinstance(a, Lin):
            # first separate accesses outside the object
            base = a.c >> SHIFT
            lo, hi = st.pc.range(a)
            cand = [base, base + 1] if a.c & MASK > (1 << 31) else [base]
            for b in cand:
                r = st.heap.get(b)
                if r is None: continue
                blo = b << SHIFT; bhi = blo + r.size - 1
                if lo < blo or hi > bhi:
                    z = binop(st.pc, 'and', icmp(st.pc, 'sge', a, blo, 64), icmp(st.pc, 'sle', a, bhi, 64), 1)
                    d = st.pc.decide(z)
                    if d is None: raise Split([(z, 1), (z, 0)])
                    if d == 0: raise Violation('memory', '%s outside its object (%s object of %d bytes)' % (what, r.kind, r.size))
                break
            raise Split(enum_alts(st.pc, a))
        if isinstance(a, Herb): raise Split(enum_alts(st.pc, a))
        raise Unknown('address of kind %s' % type(a).__name__)
    def op_gep(self, st, fr, i):
        b = i[3]; b = b[0] if b.__class__ is tuple else fr.regs[b]
        if b is UNDEF: fr.regs[i[2]] = UNDEF; fr.ip += 1; return
        r = b
        c = i[4]
        for o, k, w in i[5]:
            x = o[0] if o.__class__ is tuple else fr.regs[o]
            if x.__class__ is int: c += x * k
            else:
                if x is UNDEF: r = UNDEF; break
                if w < 64: x = cast(st.pc, 'sext', x, w, 64)
                r = binop(st.pc, 'add', r, binop(st.pc, 'mul', x, k, 64), 64)
        if r is UNDEF: pass
        elif r.__class__ is int:
            r = sgn(r + c, 64)
            if 0x10000 < r & MASK < 0x70000000 and b.__class__ is int: self.far(st, b, r)
        elif c: r = binop(st.pc, 'add', r, c, 64)
        fr.regs[i[2]] = r; fr.ip += 1
    def far(self, st, b, r):
        """a pointer that moves further and further from its object"""
        o = st.heap.get(b >> SHIFT)
        if o is not None and isinstance(o.size, int) and o.size + 0x10000 < r - (b & ~MASK) < 0x70000000: raise Violation('memory', 'a pointer runs away from its object')
    def op_alloca(self, st, fr, i):
        n = self.v(fr, i[4])
        if not isinstance(n, int): raise Unknown('variable length array')
        a = st.alloc(i[3] * n, 'stack', fr.fn.dem[:40]); fr.allocas.append(a >> SHIFT)
        fr.regs[i[2]] = a; fr.ip += 1
    def sync(self, fr):
        if self.pending and self.joins and self.pending < 20000 and fr.fn.flow.join[fr.blk]: raise Sync()
    def op_br(self, st, fr, i): self.goto(st, fr, i[2]); self.sync(fr)
    def op_cbr(self, st, fr, i):
        c = i[2]; c = c[0] if c.__class__ is tuple else fr.regs[c]
        if c.__class__ is not int:
            if c is UNDEF: raise Violation('uninit', 'a branch depends on an uninitialised value')
            d = st.pc.decide(c)
            if d is None:
                t = st.pc.assume(c, 1); f = st.pc.assume(c, 0)
                alts = [(p, i[3]) for p in t] + [(p, i[4]) for p in f]
                if not alts: raise Infeasible()
                for p, blk in alts[1:]:
                    q = st.fork(); q.pc = p; self.goto(q, q.frames[-1], blk); self.stats['splits'] += 1; self.push(q)
                p, blk = alts[0]; st.pc = p
                self.goto(st, fr, blk); self.sync(fr); return
            c = d
        self.goto(st, fr, i[3] if c & 1 else i[4]); self.sync(fr)
    def op_switch(self, st, fr, i):
        c = self.v(fr, i[2]); w = i[5]
        if isinstance(c, int):
            for x, b in i[4]:
                if x == c: self.goto(st, fr, b); return
            self.goto(st, fr, i[3]); return
        if c is UNDEF: raise Violation('uninit', 'a switch depends on an uninitialised value')
        byt = {}
        if isinstance(c, Tab):
            m = st.pc.mask(c.atom); tgt = dict((x, b) for x, b in i[4])
            for k, x in enumerate(c.vals):
                if m >> k & 1: b = tgt.get(x, i[3]); byt[b] = byt.get(b, 0) | 1 << k
            alts = []
            for b, mm in byt.items():
                pc = st.pc.copy()
                if pc.restrict(c.atom, mm): alts.append((pc, b))
        else:
            alts = []; rest = [st.pc]
            for x, b in i[4]:
                n = icmp(st.pc, 'eq', c, x, w)
                nr = []
                for p in rest:
                    if isinstance(n, int):
                        if n: alts.append((p, b))
                        else: nr.append(p)
                    else:
                        alts += [(q, b) for q in p.assume(n, 1)]; nr += p.assume(n, 0)
                rest = nr
            alts += [(p, i[3]) for p in rest]
        if not alts: raise Infeasible()
        for p, blk in alts[1:]:
            q = st.fork(); q.pc = p; self.goto(q, q.frames[-1], blk); self.stats['splits'] += 1; self.push(q)
        st.pc = alts[0][0]; self.goto(st, fr, alts[0][1]); self.sync(fr)
    def op_select(self, st, fr, i):
        c = self.v(fr, i[3])
        if not isinstance(c, int):
            if c is UNDEF: fr.regs[i[2]] = UNDEF; fr.ip += 1; return
            if isinstance(c, Vec): raise Unknown('vector select')
            d = st.pc.decide(c)
            if d is None:
                a, b = self.v(fr, i[4]), self.v(fr, i[5])
                if isinstance(c, Tab) and isinstance(a, (int, Tab)) and isinstance(b, (int, Tab)) and (isinstance(a, int) or a.atom is c.atom) and (isinstance(b, int) or b.atom is c.atom):
                    n = len(c.vals); av = a.vals if isinstance(a, Tab) else (a,) * n; bv = b.vals if isinstance(b, Tab) else (b,) * n
                    fr.regs[i[2]] = mk_tab(c.atom, tuple(x if k & 1 else y for k, x, y in zip(c.vals, av, bv))); fr.ip += 1; return
                one = i[6] == 1
                if one and a.__class__ is int and b.__class__ is int and a in (0, 1) and b in (0, 1):
                    fr.regs[i[2]] = a if a == b else c if a else b_not(c); fr.ip += 1; return
                if one and a == 1 and a.__class__ is int and isinstance(b, SYM): fr.regs[i[2]] = binop(st.pc, 'or', c, b, 1); fr.ip += 1; return
                if one and b == 0 and b.__class__ is int and isinstance(a, SYM): fr.regs[i[2]] = binop(st.pc, 'and', c, a, 1); fr.ip += 1; return
                if isinstance(a, (RF, int)) and type(a) == type(b) and a == b: fr.regs[i[2]] = a; fr.ip += 1; return
                raise Split([(c, 1), (c, 0)])
            c = d
        fr.regs[i[2]] = self.v(fr, i[4]) if c & 1 else self.v(fr, i[5]); fr.ip += 1
    def op_extract(self, st, fr, i):
        x = self.v(fr, i[3])
        for k in i[4]: x = x.v[k] if x is not UNDEF else UNDEF
        fr.regs[i[2]] = x; fr.ip += 1
    def op_insert(self, st, fr, i):
        def ins(x, y, ks):
            v = list(x.v); v[ks[0]] = y if len(ks) == 1 else ins(v[ks[0]], y, ks[1:]); return Vec(v)
        fr.regs[i[2]] = ins(self.v(fr, i[3]), self.v(fr, i[4]), i[5]); fr.ip += 1
    def op_xelem(self, st, fr, i): fr.regs[i[2]] = self.v(fr, i[3]).v[self.v(fr, i[4])]; fr.ip += 1
    def op_ielem(self, st, fr, i):
        v = list(self.v(fr, i[3]).v); v[self.v(fr, i[5])] = self.v(fr, i[4]); fr.regs[i[2]] = Vec(v); fr.ip += 1
    def op_shuffle(self, st, fr, i):
        v = self.v(fr, i[3]).v + self.v(fr, i[4]).v; fr.regs[i[2]] = Vec(v[k] if k >= 0 else UNDEF for k in i[5]); fr.ip += 1
    def op_rmw(self, st, fr, i):
        a = self.v(fr, i[4]); old = self.load_t(st, a, i[6]); x = self.v(fr, i[5]); w = self.p.types[i[6]].get('bits', 64)
        new = x if i[3] == 'xchg' else binop(st.pc, i[3], old, x, w)
        self.store_t(st, a, i[6], new); fr.regs[i[2]] = old; fr.ip += 1
    def op_cmpxchg(self, st, fr, i): raise Unknown('cmpxchg')
    def op_unreachable(self, st, fr, i):
        raise Violation('control', 'execution runs past the end of a function that must return a value')
    def op_phi(self, st, fr, i): raise Unknown('phi')
    # ------------------------------------------------------------ calls
    def op_ret(self, st, fr, i):
        x = None if i[2] is None else self.v(fr, i[2])
        self.leave(st, fr)
        if not st.frames:
            seq = st.ext.get('seq', ())
            if seq:
                st.ext['seq'] = seq[1:]; self.enter(st, seq[0], [], -1, None); return
            raise Done()
        self.ret_to(st, x)
    def leave(self, st, fr):
        st.frames.pop()
        h = st.heap
        for a in fr.allocas:
            r = st.wr(a); r.alive = False; r.cells = {}
    def ret_to(self, st, x):
        fr = st.frames[-1]; i = fr.code[fr.blk][fr.ip]     # the call
        if i[2] >= 0: fr.regs[i[2]] = x
        if i[6]: self.goto(st, fr, i[6][0])
        else: fr.ip += 1
    def op_call(self, st, fr, i):
        callee = i[3]
        args = [o[0] if o.__class__ is tuple else fr.regs[o] for o in i[4]]
        if callee.__class__ is not str:
            if callee is None: raise Unknown('inline assembly')
            t = self.v(fr, callee)
            if not isinstance(t, int):
                if t is UNDEF: raise Violation('memory', 'call through an uninitialised pointer')
                t = self.addr(st, t, 'call')
            callee = self.p.fbyaddr.get(t)
            if callee is None:
                if t == 0: raise Violation('memory', 'call through a null function pointer')
                import models
                callee = models.extern_slot(self, t)
                if callee is None: raise Unknown('indirect call to an unmodelled function')
        F = self.p.fns.get(callee)
        m = self.model_for(callee)
        self.stats['calls'] += 1
        if m is None and F is not None and F.raw is not None:
            if i[5]:
                for k, n in enumerate(i[5]):
                    if n >= 0:
                        a = st.alloc(n, 'stack', 'byval'); st.memcpy(a, args[k], n); args[k] = a
            self.enter(st, callee, args, i[2], args[F.nargs:] if F.va else None)
            if i[5]:
                st.frames[-1].allocas += [args[k] >> SHIFT for k, n in enumerate(i[5]) if n >= 0]
            return
        if m is None: raise Unknown('no model for %s' % (F.dem if F else callee)[:140])
        r = m(self, st, fr, args, i)
        if r is NORET: return
        if i[2] >= 0: fr.regs[i[2]] = r
        if i[6]: self.goto(st, fr, i[6][0])
        else: fr.ip += 1
    # ------------------------------------------------------------ exceptions
    def ti_name(self, addr):
        if addr == 0: return None
        i = addr >> SHIFT
        for n, a in self.p.gaddr.items():
            if a >> SHIFT == i: return n
        return None
    def ti_bases(self, name):
        out = [name]
        seen = set()
        work = [name]
        while work:
            n = work.pop()
            if n in seen: continue
            seen.add(n); out.append(n)
            if n in STD_BASE: work.append(STD_BASE[n])
            g = self.p.globals.get(n)
            for e in (g or {}).get('init', ()):
                if e[0] == 'val' and e[3][0] == 'g' and e[3][1].startswith('_ZTI'): work.append(e[3][1])
        return seen
    def throw(self, st, ti, ptr):
        """unwind to the next handler; ti: typeinfo symbol name"""
        bases = self.ti_bases(ti)
        first = True
        while st.frames:
            fr = st.frames[-1]; i = fr.code[fr.blk][fr.ip]
            if i[0] == 'call' and i[6]:
                lp = None
                blk = i[6][1]
                code = fr.code[blk]
                k = 0
                while code[k][0] == 'phi': k += 1
                lp = code[k]
                if lp[0] == 'lpad':
                    sel = None
                    for kind, c in lp[4]:
                        if kind == 'catch':
                            if c[0] == 'n': sel = self.p.typeid('...'); break
                            nm = c[1] if c[0] == 'g' else None
                            if nm in bases: sel = self.p.typeid(nm); break
                    if sel is None and lp[3]: sel = 0
                    if sel is not None:
                        self.goto(st, fr, blk)
                        fr.regs[lp[2]] = Vec((ptr, sel)); fr.ip = k + 1
                        st.exc = (ti, ptr)
                        return
            self.leave(st, fr)
        st.frames = []
        fr = None
        raise _Uncaught(ti)
    def op_lpad(self, st, fr, i): raise Unknown('landingpad')
    def op_resume(self, st, fr, i):
        ti, ptr = st.exc
        self.leave(st, fr)
        if not st.frames: raise _Uncaught(ti)
        self.throw(st, ti, ptr)

class _NoJoin(Exception): pass
class _NoRet: pass
NORET = _NoRet()
class _Uncaught(Violation):
    def __init__(self, ti): Violation.__init__(self, 'exception', 'an exception of type %s escapes to the caller' % ti)
