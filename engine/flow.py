"""Control-flow facts of a function (computed once, from its CFG): a weak topological order of the
blocks, the join points, and the live registers, used to bring partitions that meet at the same
program point together and to join them."""

def succs(code):
    out = []
    for b in code:
        t = b[-1]; s = []
        if t[0] == 'br': s = [t[2]]
        elif t[0] == 'cbr': s = [t[3], t[4]]
        elif t[0] == 'switch': s = [t[3]] + [x[1] for x in t[4]]
        elif t[0] == 'call' and t[6]: s = [t[6][0], t[6][1]]
        out.append(sorted(set(s)))
    return out

def wto(n, su):
    """weak topological order: loop bodies are contiguous and precede the loop's exits"""
    order = []
    def sccs(nodes, root_first):
        index = {}; low = {}; on = set(); stack = []; out = []; cnt = [0]
        for r in root_first:
            if r in index or r not in nodes: continue
            work = [(r, iter([s for s in su[r] if s in nodes]))]
            index[r] = low[r] = cnt[0]; cnt[0] += 1; stack.append(r); on.add(r)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = cnt[0]; cnt[0] += 1; stack.append(w); on.add(w)
                        work.append((w, iter([s for s in su[w] if s in nodes]))); adv = True; break
                    elif w in on: low[v] = min(low[v], index[w])
                if adv: continue
                work.pop()
                if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    c = []
                    while True:
                        w = stack.pop(); on.discard(w); c.append(w)
                        if w == v: break
                    out.append((v, c))
        out.reverse()
        return out
    def rec(nodes, roots):
        for head, c in sccs(nodes, roots):
            if len(c) == 1: order.append(c[0]); continue
            order.append(head)
            rest = set(c); rest.discard(head)
            rec(rest, [s for s in su[head] if s in rest] + sorted(rest))
    rec(set(range(n)), [0] + list(range(n)))
    idx = [0] * n
    for i, b in enumerate(order): idx[b] = i
    return idx

def _opnds(i):
    """registers read by an instruction"""
    k = i[0]; out = []
    def o(x):
        if x.__class__ is int and x >= 0: out.append(x)
    if k in ('bin', 'icmp', 'fbin', 'fcmp'): o(i[4]); o(i[5])
    elif k in ('fneg', 'load', 'copy', 'bitcast', 'extract'): o(i[3])
    elif k == 'store': o(i[2]); o(i[3])
    elif k == 'gep':
        o(i[3])
        for x in i[5]: o(x[0])
    elif k == 'alloca': o(i[4])
    elif k in ('cbr', 'switch', 'resume'): o(i[2])
    elif k == 'ret': o(i[2]) if i[2] is not None else None
    elif k == 'select': o(i[3]); o(i[4]); o(i[5])
    elif k == 'call':
        if i[3].__class__ is int: o(i[3])
        for x in i[4]: o(x)
    elif k in ('cast', 'fconv'): o(i[4])
    elif k in ('insert', 'xelem', 'shuffle'): o(i[3]); o(i[4])
    elif k == 'ielem': o(i[3]); o(i[4]); o(i[5])
    elif k == 'rmw': o(i[4]); o(i[5])
    elif k == 'cmpxchg': o(i[3]); o(i[4]); o(i[5])
    return out
def _def(i):
    k = i[0]
    if k in ('store', 'br', 'cbr', 'switch', 'ret', 'resume', 'unreachable', 'nop', 'bad'): return -1
    return i[2]

class Flow:
    def __init__(self, code):
        self.code = code; n = len(code); self.su = succs(code)
        self.idx = wto(n, self.su)
        np = [0] * n
        for s in self.su:
            for x in s: np[x] += 1
        self.join = [c > 1 for c in np]
        # liveness at block entry (phi results count as defined before the entry point we compare at)
        use = []; de = []; phid = []; phiu = [dict() for _ in range(n)]
        for b, blk in enumerate(code):
            u = set(); d = set(); pd = set()
            for i in blk:
                if i[0] == 'phi':
                    pd.add(i[2])
                    for p, x in i[3].items():
                        if x.__class__ is int: phiu[b].setdefault(p, set()).add(x)
                    continue
                for r in _opnds(i):
                    if r not in d: u.add(r)
                x = _def(i)
                if x >= 0: d.add(x)
            use.append(u); de.append(d); phid.append(pd)
        live = [set(u) for u in use]      # live at the first non-phi instruction
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set()
                for s in self.su[b]:
                    out |= live[s] - phid[s]; out |= phiu[s].get(b, set())
                x = use[b] | (out - de[b])
                if x != live[b]: live[b] = x; ch = True
        self.live = live; self.phid = phid; self.phiu = phiu; self._after = {}
    def live_after(self, b, ip):
        """registers live after instruction ip of block b"""
        k = (b, ip); v = self._after.get(k)
        if v is None:
            out = set()
            for s in self.su[b]: out |= self.live[s] - self.phid[s]; out |= self.phiu[s].get(b, set())
            for i in reversed(self.code[b][ip + 1:]):
                if i[0] == 'phi': break
                x = _def(i)
                out.discard(x); out.update(_opnds(i))
            x = _def(self.code[b][ip]); out.discard(x)      # the result of a pending call is not yet there
            v = self._after[k] = out
        return v
    def live_before(self, b, ip):
        k = (b, -1 - ip); v = self._after.get(k)
        if v is None:
            v = set(self.live_after(b, ip)); v.update(_opnds(self.code[b][ip])); self._after[k] = v
        return v
