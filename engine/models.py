"""Models of the library functions the repository's code calls (C, C++ runtime, streams).
Each model states the documented effect of the call on abstract values; a call without a model
makes the partition undecided."""
import os, re, zlib
from dom import *
from interp import fixed, Violation, Thrown, NORET, SHIFT, MASK, Done, enum_alts, f64, fval, State, UNDEF
from fractions import Fraction
import math

T = {}
RX = []
def model(*names):
    def d(f):
        for n in names: T[n] = f
        return f
    return d
def rx(*pats):
    def d(f):
        for p in pats: RX.append((re.compile(p), f))
        return f
    return d
def table(): return T
def regexes(): return RX

def truth(st, n):
    if isinstance(n, int): return n & 1
    if n is UNDEF: raise Violation('uninit', 'a decision depends on an uninitialised value')
    d = st.pc.decide(n)
    if d is None: raise Split([(n, 1), (n, 0)])
    return d
def conc(st, v):
    if isinstance(v, int): return v
    if v is UNDEF: raise Violation('uninit', 'an uninitialised value is used')
    if isinstance(v, RF):
        c = v.const()
        if c is not None: return c
        raise Unknown('unknown real used as a concrete number')
    f = fixed(st.pc, v)
    if f is not None: return f
    raise Split(enum_alts(st.pc, v))

# ------------------------------------------------------------------ analysis entry points (drivers)
def new_input(I, st, label, mk):
    st.nat += 1
    v = mk('%s#%d' % (label, st.nat))
    st.inputs = st.inputs + ((label, v),)
    return v
def lab(I, st, a): return bytes(x & 255 for x in st.cstr(a)).decode() if a else 'in'
BYTE = tuple(sgn(i, 8) for i in range(256))
@model('vp_char')
def _(I, st, fr, a, i): return new_input(I, st, lab(I, st, a[0]), lambda n: _id(atom(n, 'fin', vals=BYTE, label='char')))
def _id(a): return Tab(a, a.vals)
@model('vp_char_in')
def _(I, st, fr, a, i):
    cs = sorted(set(x & 255 for x in st.cstr(a[1])))
    vals = tuple(sgn(x, 8) for x in cs)
    if len(vals) == 1: return vals[0]
    return new_input(I, st, lab(I, st, a[0]), lambda n: _id(atom(n, 'fin', vals=vals, label='char')))
@model('vp_bool')
def _(I, st, fr, a, i): return new_input(I, st, lab(I, st, a[0]), lambda n: _id(atom(n, 'fin', vals=(0, 1))))
@model('vp_int', 'vp_long')
def _(I, st, fr, a, i):
    lo, hi = a[1], a[2]
    if lo == hi: return lo
    if hi - lo < 300: return new_input(I, st, lab(I, st, a[0]), lambda n: _id(atom(n, 'fin', vals=tuple(range(lo, hi + 1)))))
    return new_input(I, st, lab(I, st, a[0]), lambda n: Lin(((atom(n, 'int', lo=lo, hi=hi), 1),), 0))
@model('vp_choice')
def _(I, st, fr, a, i):
    """divide the partition: the result is a known value in every part"""
    lo, hi = a[1], a[2]
    key = ('choice', st.nat, fr.fn.name, fr.blk, fr.ip, len(st.frames))
    v = st.ext.get(key)
    if v is None:
        at = atom('%s#%d' % (lab(I, st, a[0]), st.nat + 1), 'fin', vals=tuple(range(lo, hi + 1)))
        v = _id(at)
        st.ext[key] = v
    if lo == hi: c = lo
    else: 
        vals = sorted(st.pc.tvals(v))
        if len(vals) > 1: raise Split([(icmp(st.pc, 'eq', v, x, 32), 1) for x in vals])
        c = vals[0]
    del st.ext[key]; st.nat += 1
    st.inputs = st.inputs + ((lab(I, st, a[0]), c),)
    return c
@model('vp_size', 'vp_size_to')
def _(I, st, fr, a, i):
    """divide over the default sizes and the sizes at which some limit in the analysed code takes effect"""
    cap = a[1]; top = max(cap, a[2]) if len(a) > 2 else cap
    key = ('choice', st.nat, fr.fn.name, fr.blk, fr.ip, len(st.frames))
    v = st.ext.get(key)
    if v is None:
        near = sorted({c + d for c in I.p.limits() for d in ((-1, 0, 1, 2) if c < 12 else (0, 1))} & set(range(6, top + 1)))
        if len(near) > 24: near = near[::-(-len(near) // 24)]
        v = _id(atom('%s#%d' % (lab(I, st, a[0]), st.nat + 1), 'fin', vals=tuple(sorted(set(near) | {x for x in (9, 18, 35, 70, 135) if x <= cap}))))
        st.ext[key] = v
    vals = sorted(st.pc.tvals(v))
    if len(vals) > 1: raise Split([(icmp(st.pc, 'eq', v, x, 32), 1) for x in vals])
    del st.ext[key]; st.nat += 1
    st.ext['size'] = max(st.ext.get('size', 0), vals[0])
    st.inputs = st.inputs + ((lab(I, st, a[0]), vals[0]),)
    return vals[0]
@model('vp_real', 'vp_realf')
def _(I, st, fr, a, i): return new_input(I, st, lab(I, st, a[0]), lambda n: RF(p_atom(atom(n, 'real'))))
@model('vp_real_in')
def _(I, st, fr, a, i):
    lo, hi = a[1].const(), a[2].const()
    return new_input(I, st, lab(I, st, a[0]), lambda n: RF(p_atom(atom(n, 'real', lo=lo, hi=hi))))
@model('vp_assume')
def _(I, st, fr, a, i):
    n = a[0]
    if isinstance(n, int):
        if n & 1: return None
        raise Infeasible()
    alts = st.pc.assume(n, 1)
    if not alts: raise Infeasible()
    if len(alts) > 1: raise Split([(n, 1)])
    st.pc = alts[0]
@model('vp_assert')
def _(I, st, fr, a, i):
    n = a[0]; msg = bytes(x & 255 for x in st.cstr(a[1])).decode()
    l = I.p.loc(i[1]); key = '%s:%d %s' % (l[0].split('/')[-1], l[1], msg) if l else msg
    rec = I.asserts.setdefault(key, [0, 0, 0])
    rec[0] += 1; I.stats['obligations'] += 1
    if n is UNDEF: raise Violation('uninit', 'the result is uninitialised: ' + msg)
    if isinstance(n, int):
        if n & 1: rec[1] += 1; I.stats['discharged'] += 1; return None
        raise Violation('assert', msg)
    f = st.pc.assume(n, 0)
    bad = None
    for pc in f:
        w = pc.witness(want=[x for _, x in st.inputs])
        if w is not None: bad = pc; break
    if bad is None: f = [pc for pc in f if not pc.no_point()]
    if not f: rec[1] += 1; I.stats['discharged'] += 1
    elif bad is not None:
        st.fx = st.fx + (n,)
        st.pc = bad
        raise Violation('assert', msg)
    else:
        rec[2] += 1
        I.note_undecided('%s not decided' % key)
    t = st.pc.assume(n, 1)
    if not t: raise Infeasible()
    if len(t) == 1: st.pc = t[0]
@model('vp_can')
def _(I, st, fr, a, i):
    n = a[0]; msg = bytes(x & 255 for x in st.cstr(a[1])).decode(); rec = I.asserts.setdefault(msg, [0, 0, 0]); rec[0] += 1; I.stats['obligations'] += 1
    if n is UNDEF: raise Violation('uninit', 'the result is uninitialised: ' + msg)
    if isinstance(n, int) and not n & 1 or not isinstance(n, int) and not st.pc.assume(n, 1): raise Violation('assert', msg)
    rec[1] += 1; I.stats['discharged'] += 1
@model('vp_reach')
def _(I, st, fr, a, i):
    msg = bytes(x & 255 for x in st.cstr(a[0])).decode(); I.reached[msg] = I.reached.get(msg, 0) + 1
@model('vp_note')
def _(I, st, fr, a, i): st.notes = st.notes + (bytes(x & 255 for x in st.cstr(a[0])).decode(),)
@model('vp_stop')
def _(I, st, fr, a, i): raise Done()
@model('vp_unknown')
def _(I, st, fr, a, i): raise Unknown('driver gave up')
@model('vp_is_undef')
def _(I, st, fr, a, i):
    n = a[1]
    r, off = st.check(a[0], n, 'read')
    for k in range(n):
        if st.byte(r, off + k) is UNDEF: return 1
    return 0
@model('vp_live_heap')
def _(I, st, fr, a, i): return sum(1 for r in st.heap.values() if r.kind == 'heap' and r.alive)
@model('vp_sqrt')
def _(I, st, fr, a, i): return realfn(I, st, 'sqrt', [a[0]])

# ------------------------------------------------------------------ memory
@model('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnwmRKSt9nothrow_t')
def _(I, st, fr, a, i):
    n = conc(st, a[0])
    if n < 0 or n > 1 << 24:
        raise Thrown('_ZTISt9bad_alloc', mkexc(st, '_ZTISt9bad_alloc', b'std::bad_alloc'))
    return st.alloc(n, 'heap', 'allocated by ' + fr.fn.dem[:40])
@model('calloc')
def _(I, st, fr, a, i): return st.alloc(conc(st, a[0]) * conc(st, a[1]), 'heap', 'calloc', 0)
@model('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t')
def _(I, st, fr, a, i):
    p = a[0]
    if p is UNDEF: raise Violation('memory', 'release of an uninitialised pointer')
    if not isinstance(p, int): p = I.addr(st, p, 'release')
    if p == 0: return None
    r = st.heap.get(p >> SHIFT)
    if r is None or r.kind != 'heap' or p & MASK: raise Violation('memory', 'release of memory that was not allocated')
    if not r.alive: raise Violation('memory', 'memory released twice')
    r = st.wr(p >> SHIFT); r.alive = False; r.cells = {}
def ptr(I, st, p, what='access'):
    return p if isinstance(p, int) else I.addr(st, p, what)
@rx(r'^llvm\.memcpy', r'^llvm\.memmove', r'^memcpy$', r'^memmove$')
def _(I, st, fr, a, i):
    n = conc(st, a[2]); st.memcpy(ptr(I, st, a[0]), ptr(I, st, a[1]), n); return a[0]
@rx(r'^llvm\.memset', r'^memset$')
def _(I, st, fr, a, i):
    n = conc(st, a[2]); d = ptr(I, st, a[0])
    if n:
        r, off = st.check(d, n, 'write')
        r = st.wr(d >> SHIFT)
        b = a[1]
        if not isinstance(b, int): b = cast(st.pc, 'trunc', b, 32, 8) if not isinstance(b, Tab) else b
        else: b = sgn(b, 8)
        if off == 0 and n == r.size and isinstance(b, int): r.cells = {}; r.default = b
        else:
            st._clear(r, off, n)
            if r.default == b and isinstance(b, int): pass
            else:
                k = 0
                if b == 0:
                    while n - k >= 8 and (off + k) % 8 == 0: r.cells[off + k] = (8, 0); k += 8
                for q in range(k, n): r.cells[off + q] = (1, b)
    return d
def u8(b): return b
def byte_cmp_lt(st, x, y): # unsigned
    return icmp(st.pc, 'ult', x, y, 8)
def need(b):
    if b is UNDEF: raise Violation('uninit', 'a comparison reads uninitialised memory')
    return b
@model('memcmp', 'bcmp')
def _(I, st, fr, a, i):
    n = conc(st, a[2]); p, q = ptr(I, st, a[0]), ptr(I, st, a[1])
    k = 0
    while k < n:
        # whole cells first: equality of a cell does not need its bytes
        r, s = st.heap.get((p + k) >> SHIFT), st.heap.get((q + k) >> SHIFT)
        c, d = r and r.cells.get((p + k) & MASK), s and s.cells.get((q + k) & MASK)
        if c and d and c[0] == d[0] > 1 and k + c[0] <= n and r.alive and s.alive:
            x, y = c[1], d[1]
            if x is y or (type(x) is type(y) and x == y and x is not UNDEF): k += c[0]; continue
            if isinstance(x, (int, Tab, Lin)) and isinstance(y, (int, Tab, Lin)) and truth(st, icmp(st.pc, 'eq', x, y, 8 * c[0])): k += c[0]; continue
        x, y = need(st.load(p + k, 1)), need(st.load(q + k, 1)); k += 1
        if isinstance(x, Herb): x = st.pc.red(x)
        if isinstance(y, Herb): y = st.pc.red(y)
        if not truth(st, icmp(st.pc, 'eq', x, y, 8)):
            return -1 if truth(st, icmp(st.pc, 'ult', x, y, 8)) else 1
    return 0
@model('strlen')
def _(I, st, fr, a, i): return len(st.cstr(ptr(I, st, a[0])))
@model('memchr')
def _(I, st, fr, a, i):
    p = ptr(I, st, a[0]); n = conc(st, a[2]); c = cast(st.pc, 'trunc', a[1], 32, 8)
    for k in range(n):
        if truth(st, icmp(st.pc, 'eq', need(st.load(p + k, 1)), c, 8)): return p + k
    return 0
@model('strchr', '_ZL6strchrPKci', 'strrchr')
def _(I, st, fr, a, i):
    p = ptr(I, st, a[0]); c = cast(st.pc, 'trunc', a[1], 32, 8); k = 0
    while True:
        b = need(st.load(p + k, 1))
        if truth(st, icmp(st.pc, 'eq', b, c, 8)): return p + k
        if truth(st, icmp(st.pc, 'eq', b, 0, 8)): return 0
        k += 1
@model('strcmp', 'strncmp', 'strcoll', 'strcasecmp', 'strncasecmp')
def _(I, st, fr, a, i):
    if 'case' in (i[3] if isinstance(i[3], str) else ''): raise Unknown('case-insensitive compare')
    p, q = ptr(I, st, a[0]), ptr(I, st, a[1]); n = conc(st, a[2]) if len(a) > 2 else 1 << 30; k = 0
    while k < n:
        x, y = need(st.load(p + k, 1)), need(st.load(q + k, 1))
        if not truth(st, icmp(st.pc, 'eq', x, y, 8)): return -1 if truth(st, icmp(st.pc, 'ult', x, y, 8)) else 1
        if truth(st, icmp(st.pc, 'eq', x, 0, 8)): return 0
        k += 1
    return 0
@model('strcspn', 'strspn')
def _(I, st, fr, a, i):
    neg = i[3] == 'strcspn'
    s = st.cstr(ptr(I, st, a[0])); set_ = st.cstr(ptr(I, st, a[1]))
    for k, b in enumerate(s):
        hit = any(truth(st, icmp(st.pc, 'eq', b, c, 8)) for c in set_)
        if hit == neg: return k
    return len(s)
@model('strpbrk')
def _(I, st, fr, a, i):
    p = ptr(I, st, a[0]); s = st.cstr(p); set_ = st.cstr(ptr(I, st, a[1]))
    for k, b in enumerate(s):
        if any(truth(st, icmp(st.pc, 'eq', b, c, 8)) for c in set_): return p + k
    return 0
@model('strstr')
def _(I, st, fr, a, i):
    p = ptr(I, st, a[0]); s = st.cstr(p); t = st.cstr(ptr(I, st, a[1]))
    for k in range(len(s) - len(t) + 1):
        if all(truth(st, icmp(st.pc, 'eq', s[k + j], t[j], 8)) for j in range(len(t))): return p + k
    return 0
@model('strcpy', 'strncpy', 'strcat')
def _(I, st, fr, a, i):
    d, s = ptr(I, st, a[0]), st.cstr(ptr(I, st, a[1]))
    if i[3] == 'strcat': st.put_bytes(d + len(st.cstr(d)), s + [0])
    elif i[3] == 'strncpy':
        n = conc(st, a[2]); st.put_bytes(d, (s + [0] * n)[:n])
    else: st.put_bytes(d, s + [0])
    return d
def ctype(f):
    def m(I, st, fr, a, i):
        c = a[0]
        if isinstance(c, int):
            if not -1 <= c <= 255: raise Violation('ctype', 'character class of a negative char value (undefined behaviour)')
            return int(f(c)) if isinstance(f(c), bool) else f(c)
        if isinstance(c, Tab):
            m_ = st.pc.mask(c.atom)
            bad = mk_tab(c.atom, tuple(int(not -1 <= x <= 255) for x in c.vals))
            if I.limits.get('ctype_ub') and truth(st, bad): raise Violation('ctype', 'character class of a negative char value (undefined behaviour)')
            return mk_tab(c.atom, tuple(int(f(x)) if -1 <= x <= 255 else (0 if isinstance(f(65), bool) else x) for x in c.vals))
        raise Unknown('ctype')
    return m
T['isalpha'] = ctype(lambda c: 65 <= c <= 90 or 97 <= c <= 122)
T['isdigit'] = ctype(lambda c: 48 <= c <= 57)
T['isalnum'] = ctype(lambda c: 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122)
T['isspace'] = ctype(lambda c: c == 32 or 9 <= c <= 13)
T['isprint'] = ctype(lambda c: 32 <= c <= 126)
T['isupper'] = ctype(lambda c: 65 <= c <= 90)
T['islower'] = ctype(lambda c: 97 <= c <= 122)
T['ispunct'] = ctype(lambda c: 33 <= c <= 126 and not (48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122))
T['iscntrl'] = ctype(lambda c: 0 <= c < 32 or c == 127)
T['isxdigit'] = ctype(lambda c: 48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102)
T['tolower'] = ctype(lambda c: c + 32 if 65 <= c <= 90 else c + 0)
T['toupper'] = ctype(lambda c: c - 32 if 97 <= c <= 122 else c + 0)

# ------------------------------------------------------------------ runtime
@rx(r'^llvm\.(lifetime|dbg|experimental\.noalias|assume|invariant|prefetch|donothing|sideeffect|va_end|stackrestore)')
def _(I, st, fr, a, i): return None
@model('llvm.stacksave', 'llvm.stacksave.p0')
def _(I, st, fr, a, i): return 0
@rx(r'^llvm\.is\.constant')
def _(I, st, fr, a, i): return 0
@rx(r'^llvm\.expect')
def _(I, st, fr, a, i): return a[0]
@rx(r'^llvm\.objectsize')
def _(I, st, fr, a, i): return -1
@model('llvm.trap', 'llvm.debugtrap')
def _(I, st, fr, a, i): raise Violation('control', 'execution reaches a trap (a function that must return a value does not)')
def bits(I, i): return int(re.search(r'\.i(\d+)', i[3]).group(1))
@rx(r'^llvm\.(umin|umax|smin|smax)\.')
def _(I, st, fr, a, i):
    k = i[3].split('.')[1]; w = bits(I, i)
    c = icmp(st.pc, k[0] + ('lt' if k.endswith('min') else 'gt'), a[0], a[1], w)
    return a[0] if truth(st, c) else a[1]
@rx(r'^llvm\.abs\.')
def _(I, st, fr, a, i):
    w = bits(I, i)
    return binop(st.pc, 'sub', 0, a[0], w) if truth(st, icmp(st.pc, 'slt', a[0], 0, w)) else a[0]
@rx(r'^llvm\.(ctlz|cttz|ctpop|bswap)\.')
def _(I, st, fr, a, i):
    w = bits(I, i); k = i[3].split('.')[1]; x = uns(conc(st, a[0]), w)
    if k == 'ctlz': return w - x.bit_length()
    if k == 'cttz': return (x & -x).bit_length() - 1 if x else w
    if k == 'ctpop': return bin(x).count('1')
    return sgn(int.from_bytes(x.to_bytes(w // 8, 'little'), 'big'), w)
@rx(r'^llvm\.(usub|uadd|umul|sadd|ssub|smul)\.with\.overflow')
def _(I, st, fr, a, i):
    w = bits(I, i); k = i[3].split('.')[1]
    x, y = conc(st, a[0]), conc(st, a[1])
    if k[0] == 'u': x, y = uns(x, w), uns(y, w)
    r = x + y if k[1:] == 'add' else x - y if k[1:] == 'sub' else x * y
    ov = not (0 <= r < 1 << w) if k[0] == 'u' else not (-(1 << w - 1) <= r < 1 << w - 1)
    return Vec((sgn(r, w), int(ov)))
@model('llvm.eh.typeid.for', 'llvm.eh.typeid.for.p0')
def _(I, st, fr, a, i):
    n = I.ti_name(a[0]); return I.p.typeid(n if n else '...')
@model('__cxa_allocate_exception')
def _(I, st, fr, a, i): return st.alloc(a[0], 'exception', 'exception')
@model('__cxa_free_exception')
def _(I, st, fr, a, i): return None
@model('__cxa_throw')
def _(I, st, fr, a, i):
    st.ext['thrown_at'] = I.where(st)
    raise Thrown(I.ti_name(a[1]), a[0])
@model('__cxa_begin_catch')
def _(I, st, fr, a, i): st.caught = st.caught + (st.exc,); return a[0]
@model('__cxa_end_catch')
def _(I, st, fr, a, i): st.caught = st.caught[:-1]
@model('__cxa_get_exception_ptr')
def _(I, st, fr, a, i): return a[0]
@model('__cxa_rethrow')
def _(I, st, fr, a, i):
    if not st.caught: raise Violation('exception', 'rethrow without an exception')
    ti, p = st.caught[-1]; raise Thrown(ti, p)
@model('__cxa_atexit', '__cxa_thread_atexit')
def _(I, st, fr, a, i): st.ext['atexit'] = st.ext.get('atexit', ()) + ((a[0], a[1]),); return 0
@model('vp_atexit_pop')
def _(I, st, fr, a, i):
    l = st.ext.get('atexit', ())
    if not l: return 0
    st.ext['atexit'] = l[:-1]; st.store(a[0], 8, l[-1][0]); st.store(a[1], 8, l[-1][1]); return 1
@model('__cxa_guard_acquire')
def _(I, st, fr, a, i): return int(st.load(a[0], 1) == 0)
@model('__cxa_guard_release')
def _(I, st, fr, a, i): st.store(a[0], 1, 1)
@model('__cxa_guard_abort')
def _(I, st, fr, a, i): return None
@model('_ZSt9terminatev', 'abort', '__clang_call_terminate')
def _(I, st, fr, a, i): raise Violation('exception', 'the program is terminated')
@model('__cxa_pure_virtual')
def _(I, st, fr, a, i): raise Violation('control', 'pure virtual call')
@model('exit', '_exit')
def _(I, st, fr, a, i):
    if st.ext.get('exit_ok'): raise Done()
    if 'exit_when' in st.ext:
        n, m, j = st.ext['exit_when']; T['vp_assert'](I, st, fr, [n, m], j)
        if a[0] == 0: raise Violation('control', 'the program ends with success after an error')
        raise Done()
    raise Violation('control', 'the program exits')
@model('__assert_fail')
def _(I, st, fr, a, i): raise Violation('control', 'assertion failed')
@rx(r'^std::__glibcxx_assert_fail')
def _(I, st, fr, a, i): raise Violation('memory', 'precondition of a standard container or string operation is violated: ' + bytes(x & 255 for x in st.cstr(a[3])).decode())
EXC_SLOT = 8
def mkexc(st, ti, msg):
    p = st.alloc(64, 'exception', 'exception'); st.store(p, 8, 0); st.store(p + 8, 8, st.new_cstr([sgn(c, 8) for c in msg], 'exctext')); return p
def throw_std(ti):
    def m(I, st, fr, a, i):
        st.ext['thrown_at'] = I.where(st)
        vt = I.p.gaddr.get(ti.replace('_ZTI', '_ZTV'))
        p = mkexc(st, ti, b'std exception')
        st.store(p, 8, VTSTD)
        raise Thrown(ti, p)
    return m
for n, ti in (('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'), ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length'), ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
              ('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'), ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'), ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'),
              ('_ZSt25__throw_bad_function_callv', '_ZTISt17bad_function_call'), ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument'), ('_ZSt16__throw_bad_castv', '_ZTISt8bad_cast'), ('_ZSt21__throw_runtime_errorPKc', '_ZTISt13runtime_error')):
    T[n] = throw_std(ti)
VTSTD = (3 << SHIFT) + 16
def extern_slot(I, addr):
    if addr >> SHIFT == 3: return '_ZNKSt9exception4whatEv'
    return None
def extern_global(I, n, r):
    if n.startswith('_ZTVSt') or n.startswith('_ZTVN10__cxxabi'):
        r.kind = 'vtable'
        if re.match(r'_ZTVSt(9exception|13runtime_error|11logic_error|12out_of_range|16invalid_argument|12length_error|9bad_alloc)$', n):
            for k in range(6): r.cells[16 + 8 * k] = (8, (3 << SHIFT) + 64)
    elif n.startswith('_ZT'): r.default = 0
    elif n in ('_ZSt4cout', '_ZSt4cerr', '_ZSt4clog', '_ZSt3cin'):
        r.cells[0] = (8, STREAM_VT)
@model('_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', '_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
       '_ZNSt11logic_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', '_ZNSt11logic_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', '_ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', '_ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE')
def _(I, st, fr, a, i):
    st.store(a[0], 8, VTSTD); st.store(a[0] + 8, 8, st.new_cstr(get_str(st, a[1]), 'exctext'))
@rx(r'^std::(runtime_error|logic_error|invalid_argument|out_of_range|domain_error|length_error|range_error|overflow_error)::\w+\(char const\*\)$')
def _(I, st, fr, a, i): st.store(a[0], 8, VTSTD); st.store(a[0] + 8, 8, st.new_cstr(st.cstr(a[1]), 'exctext'))
@rx(r'^std::(runtime_error|logic_error|invalid_argument|out_of_range|exception)::\w+\(std::\w+ const&\)$')
def _(I, st, fr, a, i): st.store(a[0], 8, VTSTD); st.store(a[0] + 8, 8, st.load(a[1] + 8, 8))
@rx(r'^std::(runtime_error|logic_error|invalid_argument|out_of_range|exception|length_error|bad_alloc|bad_function_call)::~')
def _(I, st, fr, a, i): return None
@rx(r'^std::(runtime_error|logic_error|exception)::what\(\) const')
def _(I, st, fr, a, i): return st.load(a[0] + 8, 8)
T['_ZNKSt9exception4whatEv'] = RX[-1][1]
def set_errno(st, v):
    k = st.ext.get('errno')
    if k is None: k = st.alloc(4, 'errno', 'errno', 0); st.ext['errno'] = k
    st.store(k, 4, v)
@model('__errno_location')
def _(I, st, fr, a, i):
    k = st.ext.get('errno')
    if k is None: k = st.alloc(4, 'errno', 'errno', 0); st.ext['errno'] = k
    return k
@model('pthread_self')
def _(I, st, fr, a, i): return 1
@rx(r'^pthread_mutex_(lock|unlock|init|destroy)$', r'^pthread_once$')
def _(I, st, fr, a, i): return 0
@model('__dynamic_cast')
def _(I, st, fr, a, i): raise Unknown('dynamic_cast')
@rx(r'^std::_Hash_bytes')
def _(I, st, fr, a, i): return conc(st, a[1])
@model('getenv')
def _(I, st, fr, a, i):
    v = st.ext.get(('env', bytes(conc(st, b) & 255 for b in st.cstr(a[0]))))
    return st.new_cstr(v, 'env', 'environment') if v is not None else 0
@model('vp_setenv')
def _(I, st, fr, a, i): st.ext[('env', bytes(conc(st, b) & 255 for b in st.cstr(a[0])))] = tuple(st.cstr(a[1]))
@model('__cxa_demangle')
def _(I, st, fr, a, i):
    t = bytes(conc(st, b) & 255 for b in st.cstr(a[0])).decode(); out = []; k = 0
    def name():
        nonlocal k
        n = 0
        while k < len(t) and t[k].isdigit(): n = n * 10 + int(t[k]); k += 1
        if not n or k + n > len(t): raise Unknown('demangling of ' + t)
        k += n; out.append(t[k - n:k] if not t[k - n:k].startswith('_GLOBAL__N_') else '(anonymous namespace)')
    basic = {'i': 'int', 'd': 'double', 'f': 'float', 'c': 'char', 'b': 'bool', 'm': 'unsigned long', 'l': 'long', 'j': 'unsigned int'}
    if t in basic: out = [basic[t]]; k = len(t)
    elif t.startswith('N') and t.endswith('E'):
        k = 1
        while k < len(t) - 1: name()
        k += 1
    else: name()
    if k != len(t): raise Unknown('demangling of ' + t)
    if a[3]: st.store(a[3], 4, 0)
    return st.new_cstr([sgn(ord(c), 8) for c in '::'.join(out)])
@rx(r'^std::ios_base::Init::')
def _(I, st, fr, a, i): return None

# varargs
@rx(r'^llvm\.va_start')
def _(I, st, fr, a, i):
    k = st.alloc(8, 'valist'); st.ext[('va', k)] = tuple(fr.va or ()); st.store(a[0], 8, k); st.store(a[0] + 8, 8, 0)
@rx(r'^llvm\.va_copy')
def _(I, st, fr, a, i): st.store(a[0], 8, st.load(a[1], 8)); st.store(a[0] + 8, 8, st.load(a[1] + 8, 8))
def fmt_int(v): return [sgn(ord(c), 8) for c in str(v)]
def do_printf(I, st, fmt, args):
    out = []; k = 0; n = 0
    s = fmt
    def text(t): return [sgn(b, 8) for b in t.encode()]
    while k < len(s):
        c = s[k]
        if not isinstance(c, int): raise Unknown('unknown format character')
        if c != 37: out.append(c); k += 1; continue
        e = k + 1
        while e < len(s) and chr(s[e] & 255) in '-+ #0123456789.*lhzjt': e += 1
        if e >= len(s): raise Unknown('bad format')
        spec = ''.join(chr(x & 255) for x in s[k:e + 1]); conv = spec[-1]; k = e + 1
        if conv == '%': out.append(37); continue
        flags = re.sub('[lhzjt]', '', spec[1:-1])
        while '*' in flags:
            flags = flags.replace('*', str(conc(st, args[n])), 1); n += 1
        if n >= len(args): raise Violation('memory', 'format string reads more arguments than it is given')
        x = args[n]; n += 1
        if conv == 's':
            if not isinstance(x, int): x = I.addr(st, x, 'read')
            b = st.cstr(x)
            m = re.match(r'(-?)0?(\d*)(?:\.(\d+))?$', flags)
            if not m: raise Unknown('string format')
            if m.group(3) is not None: b = b[:int(m.group(3))]
            w = int(m.group(2) or 0); pad = [32] * max(0, w - len(b))
            out += (b + pad) if m.group(1) else (pad + b)
        elif conv in 'diuxXo':
            w = 64 if 'l' in spec or 'z' in spec else 32
            f = '%' + flags + ('d' if conv in 'diu' else conv)
            out += fmt_tab(st, x, lambda v: f % (sgn(v, w) if conv in 'di' else uns(v, w)))
        elif conv == 'c': out.append(cast(st.pc, 'trunc', x, 32, 8))
        elif conv in 'gfeGE':
            v = x if isinstance(x, float) else conc(st, x); out += text(('%' + flags + conv) % float(v))
        else: raise Unknown('format %' + conv)
    return out
def fmt_tab(st, x, f):
    """text of an integer; exact character tables when the value depends on one finite unknown"""
    if isinstance(x, Tab) and fixed(st.pc, x) is None:
        m = st.pc.mask(x.atom); txt = {}
        for k, v in enumerate(x.vals):
            if m >> k & 1: txt[k] = f(v)
        lens = {}
        for k, t in txt.items(): lens[len(t)] = lens.get(len(t), 0) | 1 << k
        if len(lens) > 1: raise Split([(Tab(x.atom, tuple(mm >> k & 1 for k in range(len(x.vals)))), 1) for mm in lens.values()])
        n = len(next(iter(txt.values())))
        return [mk_tab(x.atom, tuple(sgn(ord(txt[k][j]), 8) if k in txt else sgn(ord(next(iter(txt.values()))[j]), 8) for k in range(len(x.vals)))) for j in range(n)]
    return [sgn(ord(c), 8) for c in f(conc(st, x))]
@model('vsnprintf')
def _(I, st, fr, a, i):
    size = conc(st, a[1]); va = st.load(a[3], 8)
    out = do_printf(I, st, st.cstr(a[2]), st.ext[('va', va)])
    return snput(I, st, a[0], size, out)
def snput(I, st, buf, size, out):
    if uns(size, 64) > 0:
        m = out if uns(size, 64) > len(out) else out[:size - 1]
        st.put_bytes(buf, list(m) + [0])
    return len(out)
@model('snprintf')
def _(I, st, fr, a, i): return snput(I, st, a[0], conc(st, a[1]), do_printf(I, st, st.cstr(a[2]), a[3:]))
@model('sprintf')
def _(I, st, fr, a, i): return snput(I, st, a[0], 1 << 30, do_printf(I, st, st.cstr(a[1]), a[2:]))
@model('vsprintf')
def _(I, st, fr, a, i): return snput(I, st, a[0], 1 << 30, do_printf(I, st, st.cstr(a[1]), st.ext[('va', st.load(a[2], 8))]))
@model('printf', 'puts', 'fflush', 'fprintf', 'fputs')
def _(I, st, fr, a, i): return 0

# numbers in text
def concbyte(st, b):
    return b if isinstance(b, int) else conc(st, b)
def numclass(st, b, chars):
    """is the byte in the set (divides the partition if undecided)"""
    if isinstance(b, int): return (b & 255) in chars
    if isinstance(b, Tab): return bool(truth(st, mk_tab(b.atom, tuple(int((x & 255) in chars) for x in b.vals))))
    raise Unknown('char term')
WS = {32, 9, 10, 11, 12, 13}; DG = set(range(48, 58)); HX = DG | set(range(65, 71)) | set(range(97, 103))
def word_at(st, get, k, w):
    for j, c in enumerate(w):
        b = get(k + j)
        if b is None or not numclass(st, b, {ord(c), ord(c.upper())}): return False
    return True
def scan_int(st, get, base):
    """strtol for any radix: (length, value)"""
    k = 0
    while True:
        b = get(k)
        if b is None or not numclass(st, b, WS): break
        k += 1
    neg = False
    b = get(k)
    if b is not None and numclass(st, b, {43, 45}): neg = numclass(st, b, {45}); k += 1
    def dig(j, base):
        b = get(j)
        ok = set(range(48, 48 + min(base, 10))) | set(range(65, 65 + max(0, base - 10))) | set(range(97, 97 + max(0, base - 10)))
        if b is None or not numclass(st, b, ok): return None
        return int(chr(concbyte(st, b) & 255), base)
    b = get(k); zero = b is not None and numclass(st, b, {48})
    if base in (0, 16) and zero and get(k + 1) is not None and numclass(st, get(k + 1), {120, 88}) and dig(k + 2, 16) is not None: k += 2; base = 16
    elif base == 0: base = 8 if zero else 10
    v = 0; n = 0
    while True:
        d = dig(k, base)
        if d is None: break
        v = v * base + d; k += 1; n += 1
    if not n: return 0, 0
    return k, -v if neg else v
def scan_num(st, get, real):
    """length of the longest prefix that strtol/strtod accepts and its text; get(k) -> byte or None"""
    k = 0
    while True:
        b = get(k)
        if b is None or not numclass(st, b, WS): break
        k += 1
    s = k; digits = 0
    def at(j, chars):
        b = get(j); return b is not None and numclass(st, b, chars)
    if at(k, {43, 45}): k += 1
    while at(k, DG): k += 1; digits += 1
    if real:
        if at(k, {46}):
            j = k + 1; d2 = 0
            while at(j, DG): j += 1; d2 += 1
            if digits or d2: k = j; digits += d2
        if not digits and (word_at(st, get, k, 'inf') or word_at(st, get, k, 'nan')): raise Unknown('inf/nan text')
        if digits == 1 and at(k - 1, {48}) and at(k, {ord('x'), ord('X')}) and (at(k + 1, HX) or at(k + 1, {46}) and at(k + 2, HX)): raise Unknown('hex float')
        if digits and at(k, {101, 69}):
            j = k + 1
            if at(j, {43, 45}): j += 1
            d2 = 0
            while at(j, DG): j += 1; d2 += 1
            if d2: k = j
    if not digits: return 0, None
    bs = [get(j) for j in range(s, k)]
    return k, bs
def num_value(st, bs, real):
    t = ''.join(chr(concbyte(st, b) & 255) for b in bs)
    if real: return rf_const(Fraction(float(t)))
    return int(t)
@rx(r'^(__isoc23_)?strto(l|ul|ll|ull|d|f|ld)$', r'^ato(i|f|l)$')
def _(I, st, fr, a, i):
    name = i[3].replace('__isoc23_', ''); real = name in ('strtod', 'strtof', 'strtold', 'atof')
    p = a[0]
    if not isinstance(p, int): p = I.addr(st, p, 'read')
    end = {}
    def get(k):
        b = need(st.load(p + k, 1)); return b
    if real:
        k, bs = scan_num(st, get, real)
        v = num_value(st, bs, real) if k else rf_const(0)
    else:
        k, v = scan_int(st, get, conc(st, a[2]) if name[0] == 's' else 10)
        u = name in ('strtoul', 'strtoull')
        if u and v < 0 and -v < 1 << 64: v = v + (1 << 64) if v else 0
        lo, hi = (0, (1 << 64) - 1) if u else (-(1 << 63), (1 << 63) - 1)
        if v < lo or v > hi: v = min(max(v, lo), hi); set_errno(st, 34)
    if name[0] == 's' and a[1] != 0: st.store(a[1], 8, p + k)
    if not real:
        w = 32 if name == 'atoi' else 64
        return sgn(v, w)
    return v

# ------------------------------------------------------------------ math
def cfn(fn, x):
    return fval(conc_real_fn(fn, x))
def realfn(I, st, fn, a):
    a = [I.real(x) for x in a]
    if any(x is UNDEF for x in a): return UNDEF
    cs = [x if isinstance(x, float) else x.const() for x in a]
    if fn == 'fabs':
        if isinstance(a[0], float): return abs(a[0])
        return a[0] if truth(st, I.fcmp(st, 'oge', a[0], rf_const(0))) else rf_mul(a[0], rf_const(-1))
    if fn in ('fmin', 'fmax'):
        return a[0] if truth(st, I.fcmp(st, 'ole' if fn == 'fmin' else 'oge', a[0], a[1])) else a[1]
    if fn == 'fmod' and not any(isinstance(x, float) for x in a): return I.fmod(st, a[0], a[1])
    if all(c is not None for c in cs):
        try:
            if fn == 'sqrt' and isinstance(cs[0], Fraction) and cs[0] >= 0:
                n, d = math.isqrt(cs[0].numerator), math.isqrt(cs[0].denominator)
                if n * n == cs[0].numerator and d * d == cs[0].denominator: return rf_const(Fraction(n, d))
                return RF(p_atom(def_atom('sqrt', a[0])))
            if fn in ('sin', 'tan', 'asin', 'atan', 'sinh', 'tanh') and cs[0] == 0: return rf_const(0)
            if fn in ('cos', 'exp', 'cosh') and cs[0] == 0: return rf_const(1)
            if fn in ('floor', 'ceil', 'trunc', 'round'): return cfn(fn, cs)
            if any(isinstance(c, float) for c in cs): return cfn(fn, cs)
            if fn == 'pow' and cs[1].denominator == 1 and abs(cs[1]) < 64: return rf_const(cs[0] ** int(cs[1]))
            if fn == 'log' and cs[0] == 1: return rf_const(0)
            return RF(p_atom(def_atom(fn, *a)))
        except (ValueError, ZeroDivisionError): return math.nan
        except OverflowError: return math.inf
    if any(isinstance(x, float) for x in a): raise Unknown('infinity or NaN in ' + fn)
    if fn == 'sqrt':
        z = rcmp(st.pc, 'ge', a[0], rf_const(0))
        if not truth(st, z): return math.nan
        # sqrt(q^2)
        n = a[0]
        if n.den_is_one() and len(n.num) == 1:
            (m, c), = n.num.items()
            s = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator)) if c > 0 else 0
            if s * s == c and all(e % 2 == 0 for x, e in m):
                r = RF({tuple((x, e // 2) for x, e in m): s})
                return realfn(I, st, 'fabs', [r])
        return RF(p_atom(def_atom('sqrt', a[0])))
    if fn == 'pow' and cs[1] is not None and cs[1].denominator == 1 and 0 <= cs[1] <= 8:
        r = rf_const(1)
        for _ in range(int(cs[1])): r = rf_mul(r, a[0])
        return r
    if fn in ('floor', 'ceil'):
        k = I.to_int(st, a[0], 64)
        r = to_rf(k)
        if fn == 'floor':
            if truth(st, rcmp(st.pc, 'lt', a[0], r)): r = rf_add(r, rf_const(1), -1)
        elif truth(st, rcmp(st.pc, 'gt', a[0], r)): r = rf_add(r, rf_const(1))
        return r
    if fn == 'trunc': return to_rf(I.to_int(st, a[0], 64))
    if fn in ('sin', 'cos') :
        # parity: sin(-x) = -sin(x), cos(-x) = cos(x)
        x = a[0]
        if x.num and x.num[p_lead(x.num)] < 0:
            y = RF(p_scale(x.num, Fraction(-1)), x.den); v = RF(p_atom(def_atom(fn, y)))
            return v if fn == 'cos' else rf_mul(v, rf_const(-1))
    return RF(p_atom(def_atom(fn, *a)))
for fn in 'sqrt sin cos tan asin acos atan atan2 exp log pow floor ceil fmod log10 log2 tanh sinh cosh cbrt round trunc fabs fmin fmax lgamma erf'.split():
    for suf in ('', 'f', 'l'):
        T[fn + suf] = (lambda fn: lambda I, st, fr, a, i: realfn(I, st, fn, a))(fn)
@rx(r'^llvm\.(sqrt|sin|cos|exp|log|pow|floor|ceil|fabs|minnum|maxnum|round|trunc)\.f')
def _(I, st, fr, a, i):
    fn = i[3].split('.')[1]; return realfn(I, st, {'minnum': 'fmin', 'maxnum': 'fmax'}.get(fn, fn), a)
@rx(r'^llvm\.(fmuladd|fma)\.')
def _(I, st, fr, a, i): return I.fbin(st, 'fadd', I.fbin(st, 'fmul', I.real(a[0]), I.real(a[1])), I.real(a[2]))
@rx(r'^llvm\.copysign\.')
def _(I, st, fr, a, i):
    m = realfn(I, st, 'fabs', [a[0]])
    return m if truth(st, I.fcmp(st, 'oge', I.real(a[1]), rf_const(0))) else rf_mul(m, rf_const(-1))
@rx(r'^llvm\.is\.fpclass')
def _(I, st, fr, a, i):
    x = I.real(a[0]); m = conc(st, a[1])
    if isinstance(x, float): return int(bool(m & 3) if x != x else bool(m & 0x204))
    if m & 0x3 and not m & ~0x3: return 0
    if m & 0x204 and not m & ~0x204: return 0
    raise Unknown('fpclass')
@model('__isnan', 'isnan', '__isnanf')
def _(I, st, fr, a, i): return int(isinstance(a[0], float) and a[0] != a[0])
@model('__isinf', 'isinf')
def _(I, st, fr, a, i): return int(isinstance(a[0], float) and abs(a[0]) == math.inf)
@rx(r'^(lround|llround|lrint)f?$')
def _(I, st, fr, a, i): raise Unknown('lround')

# ------------------------------------------------------------------ strings helpers (libstdc++ layout)
def get_str(st, p):
    d = st.load(p, 8); n = st.load(p + 8, 8)
    n = conc(st, n)
    return st.bytes_at(d, n)
def make_str(st, p, bs):
    """construct a std::string object at p"""
    n = len(bs)
    if n < 16: d = p + 16
    else:
        d = st.alloc(n + 1, 'heap', 'string'); st.store(p + 16, 8, n)
    st.store(p, 8, d); st.store(p + 8, 8, n); st.put_bytes(d, list(bs) + [0])
def set_str(st, p, bs):
    """assign to an existing std::string"""
    d = st.load(p, 8)
    if d != p + 16:
        r = st.wr(d >> SHIFT); r.alive = False; r.cells = {}
    make_str(st, p, bs)

# ------------------------------------------------------------------ streams
# A stream object is described in st.ext[('stream', address)] = dict-like tuple; its memory only
# holds a vtable pointer so that the conversion to the virtual base finds the object itself.
STREAM_VT = (4 << SHIFT) + 64
class Stream:
    __slots__ = ('kind', 'out', 'inp', 'pos', 'state', 'path', 'mode', 'open', 'width', 'prec', 'flags', 'fill', 'eofbit', 'failbit', 'badbit', 'isdir', 'gcount', 'peeked', 'base')
    def __init__(self, kind):
        self.kind = kind; self.out = (); self.base = (); self.inp = (); self.pos = 0; self.path = None; self.mode = 0; self.open = False; self.width = 0; self.prec = 6; self.flags = 0x1002; self.fill = 32; self.eofbit = self.failbit = self.badbit = 0
    def copy(self):
        s = Stream(self.kind)
        for a in Stream.__slots__:
            if hasattr(self, a): setattr(s, a, getattr(self, a))
        return s
def base(st, p):
    """stream identity of a pointer to a stream or one of its bases"""
    if not isinstance(p, int): raise Unknown('stream address')
    return p
def stream(I, st, p, create=None):
    k = ('stream', p)
    s = st.ext.get(k)
    if s is None:
        # istream part of iostreams lies at offset 16 for the ostream base
        for d in (16,):
            s = st.ext.get(('stream', p - d))
            if s is not None: return ('stream', p - d), s
        n = I.p_gname(p) if hasattr(I, 'p_gname') else None
        if p in (I.p.gaddr.get('_ZSt4cout'), I.p.gaddr.get('_ZSt4cerr'), I.p.gaddr.get('_ZSt4clog')):
            s = Stream('cout'); st.ext[k] = s
        else: raise Unknown('unmodelled stream object')
    return k, s
def upd(I, st, p):
    k, s = stream(I, st, p); s = s.copy(); st.ext[k] = s; return s
def init_stream(I, st, p, kind):
    reg = st.heap.get(p >> SHIFT)
    st.store(p, 8, STREAM_VT)
    if kind in ('stringstream', 'fstream', 'iostream'): st.store(p + 16, 8, STREAM_VT + 16)
    s = Stream(kind); st.ext[('stream', p)] = s
    return s
import interp as _interp
_orig_initial = _interp.Interp.initial
def _initial(self):
    st = _orig_initial(self)
    r = _interp.Region(4096, 'vtable', 0, 'stream vtable'); 
    r.cells[64 - 24] = (8, 0); r.cells[80 - 24] = (8, -16)
    r.const = True
    st.heap[4] = r
    r3 = _interp.Region(4096, 'vtable', 0, 'std exception vtable'); 
    for k in range(16): r3.cells[16 + 8 * k] = (8, (3 << SHIFT) + 1024)
    r3.const = True
    st.heap[3] = r3
    for n in ('_ZSt4cout', '_ZSt4cerr', '_ZSt4clog'):
        if n in self.p.gaddr:
            st.heap[self.p.gaddr[n] >> SHIFT].cells[0] = (8, STREAM_VT)
    return st
_interp.Interp.initial = _initial
def put(I, st, p, bs, fmt=True):
    s = upd(I, st, p)
    if fmt and s.width:
        pad = [s.fill] * max(0, s.width - len(bs))
        bs = list(bs) + pad if s.flags & 0x20 else pad + list(bs)
        s.width = 0
    if s.badbit or s.failbit: return p
    if s.kind in ('ofstream', 'fstream') and not s.open: s.badbit = 1; return p
    if s.kind in ('ofstream', 'fstream') and st.ext.get('fs_write_fails'):
        s.badbit = 1; return p
    s.out = s.out + tuple(bs)
    st.ext['trace'] = st.ext.get('trace', ()) + (('write', s.kind, s.path, tuple(bs)),)
    if s.kind == 'stringstream': s.inp = s.inp + tuple(bs)
    return p
SS = r'std::__cxx11::basic_(string|ostring|istring)stream<char, std::char_traits<char>, std::allocator<char>>'
@rx('^' + SS + r'::basic_\w+\(\)$', '^' + SS + r'::basic_\w+\(std::_Ios_Openmode\)$')
def _(I, st, fr, a, i): init_stream(I, st, a[0], kindof(I, i))
def kindof(I, i):
    d = I.p.fns[i[3]].dem
    return re.search(r'basic_(\w+)<', d[d.find('basic_'):]).group(1)
@rx('^' + SS + r'::basic_\w+\(std::__cxx11::basic_string<')
def _(I, st, fr, a, i):
    s = init_stream(I, st, a[0], kindof(I, i)); bs = tuple(get_str(st, a[1]))
    s.inp = bs; s.out = () if not (conc(st, a[2]) & 3) else ()
    s.out = bs if s.kind != 'istringstream' else ()
    if s.kind != 'istringstream' and not conc(st, a[2]) & 1: s.path = 'overwrite'
@rx('^' + SS + r'::~', r'^std::basic_[io]?fstream<char, std::char_traits<char>>::~')
def _(I, st, fr, a, i):
    k, s = stream(I, st, a[0])
    if s.kind.endswith('fstream'): close_file(I, st, a[0])
    st.ext.pop(k, None)
@rx('^' + SS + r'::str\(\) const$')
def _(I, st, fr, a, i): k, s = stream(I, st, a[1]); make_str(st, a[0], s.out if s.kind != 'istringstream' else s.inp)
@rx('^' + SS + r'::str\(std::__cxx11::basic_string<')
def _(I, st, fr, a, i): s = upd(I, st, a[0]); bs = tuple(get_str(st, a[1])); s.out = bs; s.inp = bs; s.pos = 0
CHR = 'char, std::char_traits<char>'
@rx(r'operator<< ?<std::char_traits<char>>\(std::(basic_)?ostream(<char, std::char_traits<char>>)?&, (unsigned |signed )?char const\*\)')
def _(I, st, fr, a, i): return put(I, st, a[0], st.cstr(a[1]))
@rx(r'operator<< ?<std::char_traits<char>>\(std::(basic_)?ostream(<char, std::char_traits<char>>)?&, (unsigned |signed )?char\)')
def _(I, st, fr, a, i): return put(I, st, a[0], [a[1]])
@rx(r'operator<< ?<char, std::char_traits<char>, std::allocator<char>>\(std::(basic_)?ostream')
def _(I, st, fr, a, i): return put(I, st, a[0], get_str(st, a[1]))
@rx(r'^std::(basic_)?ostream(<char, std::char_traits<char>>)?& std::__ostream_insert')
def _(I, st, fr, a, i): return put(I, st, a[0], st.bytes_at(a[1], conc(st, a[2])))
@rx(r'^std::(basic_)?ostream(<char, std::char_traits<char>>)?::write\(')
def _(I, st, fr, a, i): return put(I, st, a[0], st.bytes_at(a[1], conc(st, a[2])), False)
@rx(r'^std::(basic_)?ostream(<char, std::char_traits<char>>)?::put\(')
def _(I, st, fr, a, i): return put(I, st, a[0], [a[1]], False)
@rx(r'std::(basic_)?ostream(<char, std::char_traits<char>>)?& std::endl')
def _(I, st, fr, a, i): put(I, st, a[0], [10], False); flush(I, st, a[0]); return a[0]
@rx(r'std::(basic_)?ostream(<char, std::char_traits<char>>)?& std::flush', r'^std::(basic_)?ostream(<char, std::char_traits<char>>)?::flush\(\)')
def _(I, st, fr, a, i): flush(I, st, a[0]); return a[0]
def flush(I, st, p):
    k, s = stream(I, st, p)
    st.ext['trace'] = st.ext.get('trace', ()) + (('flush', s.kind, s.path, ()),)
    if s.kind in ('ofstream', 'fstream') and s.open and not (s.badbit or s.failbit): d = dict(fs(st)); d[s.path] = content(s); st.ext['fs'] = d
@rx(r'^std::(basic_)?ostream(<char, std::char_traits<char>>)?::operator<<\(std::(basic_)?ostream(<char, std::char_traits<char>>)?& \(\*\)')
def _(I, st, fr, a, i):
    n = I.p.fbyaddr.get(a[1]); d = I.p.fns[n].dem if n else ''
    if 'endl' in d: put(I, st, a[0], [10], False); flush(I, st, a[0])
    elif 'flush' in d: flush(I, st, a[0])
    elif 'ends' in d: put(I, st, a[0], [0], False)
    else: raise Unknown('manipulator ' + d)
    return a[0]
@rx(r'^std::(basic_)?ostream(<char, std::char_traits<char>>)?::operator<<\(std::ios_base& \(\*\)')
def _(I, st, fr, a, i):
    I.enter(st, I.p.fbyaddr[a[1]], [a[0]], i[2], None) if False else None
    n = I.p.fbyaddr.get(a[1]); d = I.p.fns[n].dem if n else ''
    s = upd(I, st, a[0])
    if 'fixed' in d: s.flags = (s.flags & ~0x104) | 4
    elif 'scientific' in d: s.flags = (s.flags & ~0x104) | 0x100
    elif 'left' in d: s.flags = (s.flags & ~0xb0) | 0x20
    elif 'right' in d: s.flags = (s.flags & ~0xb0) | 0x80
    elif 'boolalpha' in d: s.flags |= 1
    else: raise Unknown('manipulator ' + d)
    return a[0]
@rx(r'operator<< ?<char, std::char_traits<char>>\(std::(basic_)?ostream.*std::_Setw\)')
def _(I, st, fr, a, i): upd(I, st, a[0]).width = conc(st, a[1]); return a[0]
@rx(r'operator<< ?<char, std::char_traits<char>>\(std::(basic_)?ostream.*std::_Setprecision\)')
def _(I, st, fr, a, i): upd(I, st, a[0]).prec = conc(st, a[1]); return a[0]
@rx(r'operator<< ?<char, std::char_traits<char>>\(std::(basic_)?ostream.*std::_Setfill')
def _(I, st, fr, a, i): upd(I, st, a[0]).fill = conc(st, a[1]); return a[0]
def fmt_real(s, v):
    v = float(v)
    if s.flags & 4: return '%.*f' % (s.prec, v)
    if s.flags & 0x100: return '%.*e' % (s.prec, v)
    return '%.*g' % (s.prec or 1, v)
@rx(r'^std::(basic_)?ostream(<char, std::char_traits<char>>)?::operator<<\((bool|int|long|unsigned int|unsigned long|short|unsigned short|long long|unsigned long long|float|double|long double)\)',
    r'^std::(basic_)?ostream(<char, std::char_traits<char>>)?& std::(basic_)?ostream(<char, std::char_traits<char>>)?::_M_insert<')
def _(I, st, fr, a, i):
    d = I.p.fns[i[3]].dem; ty = re.search(r'(?:operator<<\(|_M_insert<[^>]*>\()([a-z ]+)\)', d).group(1)
    k, s = stream(I, st, a[0]); x = a[1]
    if ty in ('float', 'double', 'long double'):
        x = I.real(x)
        if x is UNDEF: raise Violation('uninit', 'an uninitialised value is written')
        if not isinstance(x, float):
            c = x.const()
            if c is None: raise Unknown('text of an unknown real')
            x = c
        t = fmt_real(s, x)
    else:
        w = 64 if 'long' in ty else 16 if 'short' in ty else 32
        f = (lambda v: 'true' if v else 'false') if ty == 'bool' and s.flags & 1 else (lambda v: str(uns(v, w) if 'unsigned' in ty else v))
        return put(I, st, a[0], fmt_tab(st, x, f))
    return put(I, st, a[0], [sgn(ord(c), 8) for c in t])
@rx(r'^std::(basic_)?ostream(<char, std::char_traits<char>>)?::operator<<\(std::(basic_)?streambuf')
def _(I, st, fr, a, i):
    # copy everything from the source buffer
    k, s = stream(I, st, a[1] - 0 if ('stream', a[1]) in st.ext else a[1])
    data = s.inp[s.pos:]
    s2 = upd(I, st, a[1]); s2.pos = len(s2.inp)
    d = upd(I, st, a[0])
    if not data: d.failbit = 1; return a[0]
    return put(I, st, a[0], list(data), False)
@rx(r'::rdbuf\(\) const$')
def _(I, st, fr, a, i): return a[0]
IOS = r'^std::basic_ios<char, std::char_traits<char>>::'
@rx(IOS + r'good\(\) const')
def _(I, st, fr, a, i): k, s = stream(I, st, a[0]); return int(not (s.eofbit or s.failbit or s.badbit))
@rx(IOS + r'fail\(\) const')
def _(I, st, fr, a, i): k, s = stream(I, st, a[0]); return int(bool(s.failbit or s.badbit))
@rx(IOS + r'bad\(\) const')
def _(I, st, fr, a, i): k, s = stream(I, st, a[0]); return s.badbit
@rx(IOS + r'eof\(\) const')
def _(I, st, fr, a, i): k, s = stream(I, st, a[0]); return s.eofbit
@rx(IOS + r'operator bool\(\) const')
def _(I, st, fr, a, i): k, s = stream(I, st, a[0]); return int(not (s.failbit or s.badbit))
@rx(IOS + r'operator!\(\) const')
def _(I, st, fr, a, i): k, s = stream(I, st, a[0]); return int(bool(s.failbit or s.badbit))
@rx(IOS + r'rdstate\(\) const')
def _(I, st, fr, a, i): k, s = stream(I, st, a[0]); return s.badbit | s.eofbit << 1 | s.failbit << 2
@rx(IOS + r'(_M_)?setstate\(')
def _(I, st, fr, a, i):
    s = upd(I, st, a[0]); b = conc(st, a[1]); s.badbit |= b & 1; s.eofbit |= b >> 1 & 1; s.failbit |= b >> 2 & 1
@rx(IOS + r'clear\(')
def _(I, st, fr, a, i):
    s = upd(I, st, a[0]); b = conc(st, a[1]); s.badbit = b & 1; s.eofbit = b >> 1 & 1; s.failbit = b >> 2 & 1
@rx(IOS + r'fill\(\) const')
def _(I, st, fr, a, i): k, s = stream(I, st, a[0]); return s.fill
@rx(IOS + r'exceptions\(')
def _(I, st, fr, a, i): return None
@rx(r'^std::ios_base::(width|precision)\((long)?\)')
def _(I, st, fr, a, i):
    s = upd(I, st, a[0]); n = 'width' if 'width' in I.p.fns[i[3]].dem else 'prec'; old = getattr(s, n)
    if len(a) > 1: setattr(s, n, conc(st, a[1]))
    return old
# files: the abstract file system is st.ext['fs'] : path bytes -> tuple of bytes (absent = does not exist)
def fs(st): return st.ext.get('fs', {})
def cpath(st, bs):
    """the file a name stands for: repeated and trailing separators do not count, relative names start at the current folder"""
    t = bytes(concbyte(st, b) & 255 for b in bs); cwd = st.ext.get('cwd', b'')
    if cwd and t and not t.startswith(b'/'): t = cwd + b'/' + t
    out = b'/'.join(x for x in t.split(b'/') if x and x != b'.')
    out = (b'/' if t.startswith(b'/') else b'') + out
    return tuple(sgn(b, 8) for b in (out or (b'.' if t else b'')))
def dirs(st): return st.ext.get('dirs', frozenset())
def is_dir(st, p): return p in dirs(st) or bytes(b & 255 for b in p) in (b'.', b'/') or bool(st.ext.get('cwd')) and bytes(b & 255 for b in p) == st.ext['cwd']
def parent(p):
    b = bytes(x & 255 for x in p); k = b.rfind(b'/')
    return tuple(sgn(x, 8) for x in (b'.' if k < 0 else b'/' if k == 0 else b[:k]))
@model('vp_fs_mkdir')
def _(I, st, fr, a, i): st.ext['dirs'] = dirs(st) | {cpath(st, st.cstr(a[0]))}
@model('vp_fs_special')
def _(I, st, fr, a, i): st.ext['special'] = {**st.ext.get('special', {}), cpath(st, st.cstr(a[0])): a[1]}       # a socket (0140000) or another file that is neither a plain file nor a folder
def special(st, p): return st.ext.get('special', {}).get(p)
@model('vp_fs_is_dir')
def _(I, st, fr, a, i): return int(is_dir(st, cpath(st, st.cstr(a[0]))))
@model('vp_fs_dirs')
def _(I, st, fr, a, i): return len(dirs(st))
@model('stat', 'lstat', 'stat64')
def _(I, st, fr, a, i):
    p = cpath(st, st.cstr(a[0])); d = is_dir(st, p)
    if not d and p not in fs(st) and not special(st, p): set_errno(st, 2); return -1
    for k in range(0, 144, 8): st.store(a[1] + k, 8, 0)
    st.store(a[1], 8, 2049); st.store(a[1] + 8, 8, 1000 + zlib.crc32(bytes(x & 255 for x in p))); st.store(a[1] + 16, 8, 1)
    st.store(a[1] + 24, 4, 0o40755 if d else special(st, p) + 0o644 if special(st, p) else 0o100644); st.store(a[1] + 48, 8, 0 if d or special(st, p) else len(fs(st)[p])); return 0
@model('access')
def _(I, st, fr, a, i): p = cpath(st, st.cstr(a[0])); return 0 if is_dir(st, p) or p in fs(st) or special(st, p) else -1
@model('mkdir')
def _(I, st, fr, a, i):
    p = cpath(st, st.cstr(a[0]))
    if not p or is_dir(st, p) or p in fs(st) or special(st, p) or not is_dir(st, parent(p)) or st.ext.get('fs_mkdir_fails'): set_errno(st, 17 if is_dir(st, p) or p in fs(st) or special(st, p) else 13 if st.ext.get('fs_mkdir_fails') else 2); return -1
    st.ext['dirs'] = dirs(st) | {p}; return 0
@model('remove', 'unlink', 'rmdir')
def _(I, st, fr, a, i):
    p = cpath(st, st.cstr(a[0])); n = i[3]
    if p in fs(st) and n != 'rmdir': d = dict(fs(st)); del d[p]; st.ext['fs'] = d; return 0
    if p in dirs(st) and n != 'unlink' and not any(parent(x) == p for x in list(fs(st)) + list(dirs(st))): st.ext['dirs'] = dirs(st) - {p}; return 0
    set_errno(st, 39 if p in dirs(st) else 2); return -1
@model('rename')
def _(I, st, fr, a, i):
    p, q = cpath(st, st.cstr(a[0])), cpath(st, st.cstr(a[1]))
    if p not in fs(st) or is_dir(st, q) or not is_dir(st, parent(q)): set_errno(st, 2); return -1
    d = dict(fs(st)); d[q] = d.pop(p); st.ext['fs'] = d; return 0
@model('chdir')
def _(I, st, fr, a, i):
    p = cpath(st, st.cstr(a[0]))
    if not is_dir(st, p): set_errno(st, 20 if p in fs(st) else 2); return -1
    st.ext['cwd'] = bytes(x & 255 for x in p); return 0
@model('getcwd')
def _(I, st, fr, a, i):
    c = st.ext.get('cwd', b'')
    if not c.startswith(b'/'): raise Unknown('unknown current folder')
    t = [sgn(x, 8) for x in c]
    n = conc(st, a[1])
    if n < len(t) + 1 and (n or a[0] != 0): return 0
    if a[0] == 0: return st.new_cstr(t)
    st.put_bytes(a[0], t + [0]); return a[0]
def content(s): o = s.base; return s.out + o[len(s.out):]      # a file that was opened without truncation keeps what lies behind what is written
def open_file(I, st, p, path, mode):
    s = upd(I, st, p); path = cpath(st, path); s.path = path; s.mode = mode
    st.ext['trace'] = st.ext.get('trace', ()) + (('open', s.kind, path, mode),)
    if s.kind == 'ifstream' or (mode & 8 and not mode & 16):
        if path in fs(st): s.open = True; s.inp = fs(st)[path]; s.pos = 0
        elif is_dir(st, path): s.open = True; s.inp = (); s.pos = 0; s.isdir = 1      # opens, but reading fails
        else: s.failbit = 1; set_errno(st, 2)
    else:
        if st.ext.get('fs_open_fails') or is_dir(st, path) or special(st, path): s.failbit = 1; set_errno(st, 13); return
        if dirs(st) and not is_dir(st, parent(path)): s.failbit = 1; set_errno(st, 2); return
        s.open = True
        d = dict(fs(st)); old = d.get(path, ()); s.base = ()
        if mode & 8 and not mode & 33 and path not in d: s.open = False; s.failbit = 1; set_errno(st, 2); return
        s.out = old if mode & 1 else ()
        if mode & 8 and not mode & 33: s.base = old; return
        if old and not s.out:
            for k, o in list(st.ext.items()):       # who is reading this file loses what is not in its buffer yet
                if k[0] == 'stream' and o is not s and o.open and o.kind == 'ifstream' and o.path == path:
                    o = o.copy(); st.ext[k] = o; o.inp = o.inp[:(o.pos // 8191 + 1) * 8191 if o.pos or getattr(o, 'peeked', 0) else 0]
        d[path] = s.out; st.ext['fs'] = d
@rx(r'^std::basic_(ifstream|ofstream|fstream)<char, std::char_traits<char>>::basic_\w+\(\)$')
def _(I, st, fr, a, i): init_stream(I, st, a[0], kindof(I, i))
@rx(r'^std::basic_(ifstream|ofstream|fstream)<char, std::char_traits<char>>::basic_\w+\((std::__cxx11::basic_string|char const\*)')
def _(I, st, fr, a, i):
    init_stream(I, st, a[0], kindof(I, i)); d = I.p.fns[i[3]].dem
    open_file(I, st, a[0], st.cstr(a[1]) if '(char const*' in d else get_str(st, a[1]), conc(st, a[2]))
@rx(r'^std::basic_(ifstream|ofstream|fstream)<char, std::char_traits<char>>::open\((std::__cxx11::basic_string|char const\*)')
def _(I, st, fr, a, i):
    d = I.p.fns[i[3]].dem
    open_file(I, st, a[0], st.cstr(a[1]) if '(char const*' in d else get_str(st, a[1]), conc(st, a[2]))
@rx(r'^std::basic_(ifstream|ofstream|fstream)<char, std::char_traits<char>>::is_open\(')
def _(I, st, fr, a, i): k, s = stream(I, st, a[0]); return int(s.open)
def close_file(I, st, p):
    s = upd(I, st, p)
    if s.open and s.kind != 'ifstream':
        if st.ext.get('fs_close_fails'): s.failbit = 1
        else:
            d = dict(fs(st)); d[s.path] = content(s); st.ext['fs'] = d
        st.ext['trace'] = st.ext.get('trace', ()) + (('close', s.kind, s.path, s.out),)
    s.open = False
@rx(r'^std::basic_(ifstream|ofstream|fstream)<char, std::char_traits<char>>::close\(\)')
def _(I, st, fr, a, i):
    k, s = stream(I, st, a[0])
    if not s.open: upd(I, st, a[0]).failbit = 1
    else: close_file(I, st, a[0])
# input
IST = r'^std::(basic_)?istream(<char, std::char_traits<char>>)?::'
@rx(IST + r'peek\(\)')
def _(I, st, fr, a, i):
    s = upd(I, st, a[0])
    if s.failbit or s.badbit or s.eofbit: return -1
    if getattr(s, 'isdir', 0): s.badbit = 1; return -1
    if s.pos >= len(s.inp): s.eofbit = 1; return -1
    s.peeked = 1; return cast(st.pc, 'zext', s.inp[s.pos], 8, 32)
@rx(IST + r'get\(\)')
def _(I, st, fr, a, i):
    s = upd(I, st, a[0])
    if s.failbit or s.badbit or s.eofbit: s.failbit = 1; return -1
    if s.pos >= len(s.inp): s.eofbit = 1; s.failbit = 1; return -1
    b = s.inp[s.pos]; s.pos += 1; return cast(st.pc, 'zext', b, 8, 32)
@rx(IST + r'read\(')
def _(I, st, fr, a, i):
    k, s0 = stream(I, st, a[0]); n = conc(st, a[2]); got = s0.inp[s0.pos:s0.pos + n] if not (s0.failbit or s0.badbit) else ()
    st.put_bytes(a[1], got); s = upd(I, st, a[0]); s.pos += len(got); s.gcount = len(got)
    if len(got) < n: s.eofbit = s.failbit = 1
    return a[0]
SB = r'^std::(basic_)?streambuf(<char, std::char_traits<char>>)?::'
def sb_get(st, s): return -1 if s.pos >= len(s.inp) or getattr(s, 'isdir', 0) else cast(st.pc, 'zext', s.inp[s.pos], 8, 32)
@rx(SB + r'sgetc\(\)')
def _(I, st, fr, a, i): k, s = stream(I, st, a[0]); return sb_get(st, s)
@rx(SB + r'sbumpc\(\)')
def _(I, st, fr, a, i):
    s = upd(I, st, a[0]); r = sb_get(st, s); s.pos = min(s.pos + 1, len(s.inp)); return r
@rx(SB + r'snextc\(\)')
def _(I, st, fr, a, i):
    s = upd(I, st, a[0]); s.pos = min(s.pos + 1, len(s.inp)); return sb_get(st, s)
@rx(IST + r'get\(char&\)')
def _(I, st, fr, a, i):
    s = upd(I, st, a[0])
    if s.failbit or s.badbit or s.eofbit: s.failbit = 1; return a[0]
    if s.pos >= len(s.inp): s.eofbit = s.failbit = 1; return a[0]
    b = s.inp[s.pos]; s.pos += 1; st.store(a[1], 1, b); return a[0]
@rx(IST + r'gcount\(\) const')
def _(I, st, fr, a, i): k, s = stream(I, st, a[0]); return getattr(s, 'gcount', 0)
@rx(IST + r'unget\(\)')
def _(I, st, fr, a, i):
    s = upd(I, st, a[0]); s.eofbit = 0
    if s.pos > 0: s.pos -= 1
    else: s.badbit = 1
    return a[0]
@rx(IST + r'tellg\(\)')
def _(I, st, fr, a, i):
    k, s = stream(I, st, a[0])
    if s.failbit or s.badbit: return Vec([-1, 0])
    return Vec([s.pos, 0])
@rx(IST + r'seekg\(long, std::_Ios_Seekdir\)')
def _(I, st, fr, a, i):
    s = upd(I, st, a[0]); s.eofbit = 0
    if s.failbit or s.badbit: return a[0]
    p = conc(st, a[1]) + {0: 0, 1: s.pos, 2: len(s.inp)}[conc(st, a[2])]
    if 0 <= p <= len(s.inp): s.pos = p
    else: s.failbit = 1
    return a[0]
@rx(IST + r'seekg\(std::fpos')
def _(I, st, fr, a, i):
    s = upd(I, st, a[0]); s.eofbit = 0; p = conc(st, a[1])
    if s.failbit or s.badbit: return a[0]
    if 0 <= p <= len(s.inp): s.pos = p
    else: s.failbit = 1
    return a[0]
def skipws(st, s):
    pos = s.pos
    while pos < len(s.inp) and numclass(st, s.inp[pos], WS): pos += 1
    return pos
@rx(r'std::(basic_)?istream(<char, std::char_traits<char>>)?& std::operator>> ?<char, std::char_traits<char>, std::allocator<char>>')
def _(I, st, fr, a, i):
    k, s0 = stream(I, st, a[0])
    if s0.failbit or s0.badbit or s0.eofbit: upd(I, st, a[0]).failbit = 1; return a[0]
    p = skipws(st, s0); e = p
    while e < len(s0.inp) and not numclass(st, s0.inp[e], WS): e += 1
    s = upd(I, st, a[0]); s.pos = e
    if e >= len(s.inp): s.eofbit = 1
    if e == p: s.failbit = 1
    else: set_str(st, a[1], s.inp[p:e])
    return a[0]
@rx(r'^std::(basic_)?istream(<char, std::char_traits<char>>)?::operator>>\(std::(basic_)?istream(<char, std::char_traits<char>>)?& \(\*\)', r'std::(basic_)?istream(<char, std::char_traits<char>>)?& std::ws<')
def _(I, st, fr, a, i):
    if len(a) > 1:
        n = I.p.fbyaddr.get(a[1]); d = I.p.fns[n].dem if n else ''
        if 'std::ws<' not in d: raise Unknown('manipulator ' + d)
    k, s0 = stream(I, st, a[0])
    if s0.failbit or s0.badbit or s0.eofbit: upd(I, st, a[0]).failbit = 1; return a[0]
    p = skipws(st, s0); s = upd(I, st, a[0]); s.pos = p
    if p >= len(s.inp): s.eofbit = 1
    return a[0]
@rx(r'std::(basic_)?istream(<char, std::char_traits<char>>)?& std::operator>> ?<char, std::char_traits<char>>\(.*, char&\)', r'std::(basic_)?istream(<char, std::char_traits<char>>)?& std::operator>> ?<std::char_traits<char>>\(.*char&\)')
def _(I, st, fr, a, i):
    k, s0 = stream(I, st, a[0])
    if s0.failbit or s0.badbit or s0.eofbit: upd(I, st, a[0]).failbit = 1; return a[0]
    p = skipws(st, s0); s = upd(I, st, a[0])
    if p >= len(s.inp): s.eofbit = s.failbit = 1; s.pos = p
    else: st.store(a[1], 1, s.inp[p]); s.pos = p + 1
    return a[0]
@rx(IST + r'operator>>\((bool|int|long|unsigned int|unsigned long|float|double|short|unsigned short)&\)', r'^std::(basic_)?istream(<char, std::char_traits<char>>)?& std::(basic_)?istream(<char, std::char_traits<char>>)?::_M_extract<')
def _(I, st, fr, a, i):
    d = I.p.fns[i[3]].dem; ty = re.search(r'(?:operator>>\(|_M_extract<[^>]*>\()([a-z ]+)&\)', d).group(1)
    k, s0 = stream(I, st, a[0])
    if s0.failbit or s0.badbit or s0.eofbit: upd(I, st, a[0]).failbit = 1; return a[0]
    p = skipws(st, s0); real = ty in ('float', 'double', 'long double')
    size = {'bool': 1, 'int': 4, 'unsigned int': 4, 'float': 4, 'short': 2, 'unsigned short': 2}.get(ty, 8)
    n, bs = scan_num(st, lambda j: s0.inp[p + j] if p + j < len(s0.inp) else None, real)
    if n:
        v = num_value(st, bs, real)
    s = upd(I, st, a[0]); s.pos = p + n
    if s.pos >= len(s.inp): s.eofbit = 1
    if not n:
        s.failbit = 1
        if p < len(s.inp): st.store(a[1], size, rf_const(0) if real else 0)
    else:
        if not real and 'unsigned' not in ty and not -(1 << 8 * size - 1) <= v < 1 << 8 * size - 1: s.failbit = 1; v = (1 << 8 * size - 1) - 1 if v > 0 else -(1 << 8 * size - 1)
        if not real and 'unsigned' in ty and not -(1 << 8 * size) < v < 1 << 8 * size: s.failbit = 1; v = (1 << 8 * size) - 1
        if ty == 'bool' and v not in (0, 1): s.failbit = 1; v = 1
        st.store(a[1], size, v if real else sgn(v, 8 * size))
    return a[0]
@rx(r'std::(basic_)?istream(<char, std::char_traits<char>>)?& std::getline<char, std::char_traits<char>, std::allocator<char>>')
def _(I, st, fr, a, i):
    k, s0 = stream(I, st, a[0]); delim = a[2] if len(a) > 2 else 10
    if s0.failbit or s0.badbit or s0.eofbit: upd(I, st, a[0]).failbit = 1; return a[0]
    e = s0.pos
    while e < len(s0.inp) and not truth(st, icmp(st.pc, 'eq', s0.inp[e], delim, 8)): e += 1
    s = upd(I, st, a[0]); txt = s.inp[s.pos:e]
    if e >= len(s.inp):
        s.eofbit = 1; s.pos = e
        if not txt: s.failbit = 1
    else: s.pos = e + 1
    set_str(st, a[1], txt); return a[0]

# clocks: a steady clock never decreases, the system clock is arbitrary
def clock(name, steady):
    def m(I, st, fr, a, i):
        if 'clock' in st.ext:      # a clock set by the driver
            v, step = st.ext['clock']; st.ext['clock'] = (v + step, step); return v
        st.nat += 1
        v = Lin(((atom('%s#%d' % (name, st.nat), 'int', lo=0, hi=1 << 60), 1),), 0)
        st.inputs = st.inputs + ((name, v),)
        if steady:
            last = st.ext.get(('clock', name))
            if last is not None:
                n = icmp(st.pc, 'sge', v, last, 64)
                if not isinstance(n, int):
                    alts = st.pc.assume(n, 1); st.pc = alts[0]
            st.ext[('clock', name)] = v
        return v
    return m
T['_ZNSt6chrono3_V212steady_clock3nowEv'] = clock('steady_clock', True)
T['_ZNSt6chrono3_V212system_clock3nowEv'] = clock('system_clock', False)

@model('vp_clock')
def _(I, st, fr, a, i): st.ext['clock'] = (conc(st, a[0]), conc(st, a[1]))
# driver access to the modelled environment
@model('vp_trace_len')
def _(I, st, fr, a, i): return len(st.ext.get('trace', ()))
@model('vp_trace_mark')
def _(I, st, fr, a, i): st.ext['trace'] = ()
@model('vp_fs_put')
def _(I, st, fr, a, i):
    d = dict(fs(st)); d[cpath(st, st.cstr(a[0]))] = tuple(get_str(st, a[1])); st.ext['fs'] = d
@model('vp_fs_exists')
def _(I, st, fr, a, i): return int(cpath(st, st.cstr(a[0])) in fs(st))
@model('vp_fs_count')
def _(I, st, fr, a, i): return len(fs(st))
@model('vp_fs_get')
def _(I, st, fr, a, i): set_str(st, a[1], fs(st).get(cpath(st, st.cstr(a[0])), ()))
@model('vp_fs_fail')
def _(I, st, fr, a, i): st.ext['fs_open_fails'] = a[0] & 1; st.ext['fs_write_fails'] = a[0] >> 1 & 1; st.ext['fs_close_fails'] = a[0] >> 2 & 1; st.ext['fs_mkdir_fails'] = a[0] >> 3 & 1
@model('vp_cout_get')
def _(I, st, fr, a, i):
    g = I.p.gaddr.get('_ZSt4cout'); s = st.ext.get(('stream', g)); set_str(st, a[0], s.out if s else ())
@model('vp_exit_when')
def _(I, st, fr, a, i): st.ext['exit_when'] = (a[0], a[1], i)
@model('vp_exit_ok')
def _(I, st, fr, a, i): st.ext['exit_ok'] = 1

# random numbers: the engine is a linear congruential generator with known state; what a distribution
# makes of a state is an unknown number of the range the distribution promises, the same for the same state
def lcg(st, p, dem, n):
    m = re.search(r'linear_congruential_engine<unsigned long, (\d+)ul, (\d+)ul, (\d+)ul>', dem)
    if not m: raise Unknown('random engine ' + dem)
    A, C, M = map(int, m.groups()); x = conc(st, st.load(p, 8)) & ((1 << 64) - 1); x0 = x
    for _ in range(n): x = (A * x + C) % M
    st.store(p, 8, x); return x0
def rname(kind, x): return '%s number of state %d' % (kind, x)
def fload(I, st, p, w):
    x = st.load(p, w)
    if isinstance(x, int): x = f64(x) if w == 8 else _interp.f32(x)
    if not isinstance(x, RF): raise Unknown('number of a distribution')
    return x
def dem_of(I, i):
    F = I.p.fns.get(i[3]) if isinstance(i[3], str) else None
    if F is None: raise Unknown('random distribution called through a pointer')
    return F.dem
@rx(r'^(float|double) std::generate_canonical<')
def _(I, st, fr, a, i):
    d = dem_of(I, i); x = lcg(st, a[0], d, 1 if d.startswith('float') else 2)
    u = RF(p_atom(atom(rname('uniform', x), 'real', lo=0, hi=1)))
    alts = st.pc.assume(rcmp(st.pc, 'lt', u, rf_const(1)), 1)
    if alts: st.pc = alts[0]
    return u
@rx(r'^(float|double) std::normal_distribution<(float|double)>::operator\(\)<.*param_type const&')
def _(I, st, fr, a, i):
    d = dem_of(I, i); w = 4 if d.startswith('float') else 8
    if conc(st, st.load(a[0] + 3 * w, 1)) & 1: st.store(a[0] + 3 * w, 1, 0); z = fload(I, st, a[0] + 2 * w, w)
    else:
        x = lcg(st, a[1], d, 4); z = RF(p_atom(atom(rname('normal', x), 'real')))
        st.store(a[0] + 2 * w, w, RF(p_atom(atom(rname('second normal', x), 'real')))); st.store(a[0] + 3 * w, 1, 1)
    return rf_add(rf_mul(z, fload(I, st, a[2] + w, w)), fload(I, st, a[2], w), 1)
