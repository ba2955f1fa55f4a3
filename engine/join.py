"""Canonical forms of abstract states, subsumption and join.

A state is taken apart into a shape (control stack, memory layout, node graph: everything that is not
a number) and a vector of linear expressions, one per place of the shape that holds a number. Two
states of one shape are joined by the affine relations both satisfy (Karr's domain) together with the
inequalities both satisfy; a state is subsumed by another one of the same shape if its numbers satisfy
all of the other's relations."""
from fractions import Fraction
from lin import Lin, L, ZERO, ONE, Facts, sym, Infeasible
from dom import *
import interp as _i

class NoMerge(Exception): pass
NODE_SRC = ('K', 'V', 'S', 'C', 'A', 'cnt', 'grp')     # sources that belong to a node
PLAIN = (str, bool, int, type(None), float)

class Live:
    """what the rest of the computation can still refer to"""
    def __init__(self, I, st):
        self.I, self.st = I, st
        self.syms = set(); self.nodes = set(); self.bases = set(); self.srcs = set(); self.clean = set()
        self.roots()
        self.tables()
    def lin(self, e):
        for s, _ in self.st.norm(e).t:
            if s[0] == '#': self.syms.add(s); self.node(int(s[2:])); continue
            self.syms.add(s)
    def weak(self, v):
        """a value whose node ids are mere numbers (a hint): it does not keep nodes alive"""
        if type(v) is Lin:
            for s, _ in self.st.norm(v).t: self.syms.add(s)
        elif type(v) is Agg:
            for x in v.f: self.weak(x) if type(x) in (Lin, Agg) else self.any(x)
        else: self.any(v)
    def node(self, n):
        n = self.st.res(n)
        if n in self.nodes: return
        self.nodes.add(n)
        nd = self.st.nodes[n]
        if nd.ids is not None:
            s = nd.ids.sym()
            if s is not None: self.syms.add(s)
        for x in (nd.level, nd.start, nd.end, nd.ids, nd.size):
            if x is not None: self.lin(x)
    def src(self, s):
        if s in self.srcs: return
        self.srcs.add(s)
        if s[0] in NODE_SRC and len(s) == 2 and isinstance(s[1], int): self.node(s[1])
        elif s[0] == 'cl': self.src(s[2])
        elif s[0] == 'gen': self.src(s[1])
        elif s[0] == 'app':
            a = self.st.apps.get(s[1])
            if a: self.segs(a[1]); self.segs(a[2])
        else:
            for x in s[1:]:
                if type(x) is Lin: self.lin(x)
    def segs(self, segs):
        for s in segs:
            self.lin(s[1])
            if s[0] == 'S': self.src(s[2]); self.lin(s[3])
            else: self.any(s[2:])
    def any(self, x):
        if type(x) is Lin: self.lin(x)
        elif isinstance(x, V): self.val(x)
        elif isinstance(x, tuple):
            if x and x[0] in NODE_SRC + ('cl', 'app') and len(x) in (2, 3) and isinstance(x[1], int): self.src(x)
            else:
                for y in x: self.any(y)
        elif callable(x) and not isinstance(x, type): raise NoMerge('function')
    def path(self, p):
        for k, i in p:
            if type(i) is Lin: self.lin(i)
    def val(self, v):
        t = type(v)
        if t is Lin: self.lin(v)
        elif t is Agg:
            for x in v.f: self.any(x)
        elif t is Ptr:
            self.base(v.base); self.path(v.path)
            if v.ln is not None: self.lin(v.off); self.lin(v.ln)
        elif t is It: self.base(v.base); self.path(v.path); self.lin(v.i); self.lin(v.end)
        elif t is Tok: self.src(v.src); self.lin(v.idx)
        elif t is Nd: self.node(v.nid)
        elif t is Arr: self.segs(v.segs)
        elif t is VecV: self.lin(v.ln); self.segs(v.arr.segs)
        elif t is StoreV:
            self.lin(v.ln)
            for k, x in v.slots:
                if isinstance(k, int): self.node(k)
                else: self.any(k)
                self.any(x)
        elif t is Lazy:
            if v.k[0] not in ('next', 'prev'): raise NoMerge('lazy')
            self.node(v.k[1])
    def base(self, b):
        if b in self.bases: return
        self.bases.add(b)
        if b[0] in 'HO' and isinstance(b[1], int): self.node(b[1])
        if b in self.clean: return
        v = self.st.mem.get(b)
        if v is not None: (self.weak if b == ('X', 'tree') else self.any)(v)
    def roots(self):
        st = self.st
        for b, v in st.mem.items():
            if b[0] == 'H' and isinstance(b[1], int):
                o = st.mem.get(('O', b[1]))
                if o is v or o == v: self.clean.add(b); self.clean.add(('O', b[1]))
        uids = set()
        for fr in st.frames:
            uids.add(fr.uid)
            if fr.kind == 'drop':
                for it in fr.data: self.item(it)
            elif fr.kind == 'value': self.any(fr.data)
            elif fr.kind not in ('fn',): raise NoMerge(fr.kind)
            if fr.ret: self.path(fr.ret[1])
        for b in list(st.mem):
            if b[0] == 'L':
                if b[1] in uids: self.base(b)
            elif b[0] == 'X':
                if isinstance(b[1], str) and not b[1][-1:].isdigit(): self.base(b)
            elif b[0] == 'H':
                if not isinstance(b[1], int): self.base(b)
                elif b not in self.clean: self.dirty(b[1])
            elif b[0] not in 'O': raise NoMerge(str(b))
        for n in st.nodes.values():
            if n.new: self.node(n.nid)
        for k, v in st.g.items():
            if k in ('root', 'prefix'): self.node(v)
            elif k == 'qsep': pass
            elif k == 'tree0': self.weak(v)
            elif k == 'dropped_nodes':
                for n in v: self.node(n)
            else: self.any(v) if not (callable(v)) else None
        self.segs(st.drops); self.segs(st.made)
        self.any(st.events)
    def item(self, it):
        k = it[0]
        if k == 'place':
            self.base(it[1]); self.path(it[2])
            if it[3]: self.any(it[3])
        elif k == 'tok': self.segs((it[1],))
        elif k == 'free': self.base(it[1])
        elif k == 'call': self.any(tuple(it[2]))
        elif k == 'node': self.node(it[1])
        else: raise NoMerge('drop item ' + k)
    def dirty(self, n):
        st = self.st
        self.base(('H', n)); self.base(('O', n))
        while True:
            n = st.res(n)
            self.node(n)
            p = st.nodes[n].parent
            if not isinstance(p, tuple): return
            self.lin(p[1]); n = p[0]
    def indices(self):
        """the indices that iterators in the frames stand at, in a fixed order"""
        st = self.st; out = [st.norm(st.g[k]) for k in ('m',) if k in st.g]
        def walk(v):
            if type(v) is It:
                out.append(st.norm(v.i)); out.append(st.norm(v.end))
                if st.facts.ge(v.i, 1): out.append(st.norm(v.i - 1))
            elif type(v) is Ptr and v.base == ('X', 'second') and v.path and v.path[0][0] == 'i': out.append(st.norm(v.path[0][1])); out.append(st.norm(v.path[0][1] + 1))
            elif type(v) is Agg:
                for x in v.f: walk(x)
        for fr in st.frames:
            if fr.kind == 'fn':
                for i in range(len(fr.body['locals'])):
                    v = st.mem.get(('L', fr.uid, i))
                    if v is not None: walk(v)
        return out
    def tables(self):
        """boundary positions worth keeping: those whose index is still known"""
        st = self.st
        self.bp = {}
        dirty = {b[1] for b in self.bases if b[0] == 'H' and isinstance(b[1], int) and b not in self.clean}
        while True:
            k = (len(self.syms), len(self.nodes))
            kids = {}
            for n in list(self.nodes):
                p = st.nodes[n].parent
                if isinstance(p, tuple) and st.res(p[0]) in self.nodes:
                    self.lin(p[1])
                    kids.setdefault(st.res(p[0]), []).extend((st.norm(p[1]), st.norm(p[1] + 1)))
            for n in list(self.nodes):
                tab = st.bps.get(n)
                if not tab: continue
                out = []
                ends = (ZERO, st.norm(st.nodes[n].size + 1))
                if st.g.get('prefix') == n:
                    for i in ends + tuple(self.indices()):
                        self.lin(i); p = st.norm(st.bp(n, i)); out.append((i, p)); self.lin(p)
                    self.bp[n] = out
                    continue
                for i, p in tab:
                    i = st.norm(i); p = st.norm(p)
                    if n not in dirty and i not in ends and i not in kids.get(n, ()): continue
                    if all(s in self.syms for s, _ in i.t):
                        out.append((i, p)); self.lin(p)
                self.bp[n] = out
            if k == (len(self.syms), len(self.nodes)): return

def slot_keys(v):
    if type(v) is StoreV: return [k for k, _ in v.slots if not isinstance(k, int)]
    if type(v) is Agg: return [k for x in v.f for k in slot_keys(x)]
    return []

class Build:
    """rebuilds a state with nodes, frames and sources renumbered in order of discovery; numbers are
    replaced by repl[i] (or by placeholders, collecting them)"""
    def __init__(self, I, st, live, repl=None):
        self.I, self.st, self.live, self.repl = I, st, live, repl
        self.lins = []; self.nm = {}; self.order = []; self.um = {}; self.cl = {}; self.ap = {}; self.xb = {}; self.bases = []
        self.seen = set(); self.apps = {}
        self.run()
    def lin(self, e):
        e = self.st.norm(e)
        s = e.sym()
        if s is not None and s[0] == '#' and self.st.res(int(s[2:])) in self.live.nodes: return sym(f'#{s[1]}{self.node(int(s[2:]))}')
        i = len(self.lins)
        self.lins.append(e)
        return self.repl[i] if self.repl is not None else sym('@%03d' % i)
    def node(self, n):
        n = self.st.res(n)
        r = self.nm.get(n)
        if r is None:
            r = self.nm[n] = len(self.nm); self.order.append(n)
        return r
    def base(self, b):
        if b[0] == 'L':
            if b[1] not in self.um: self.um[b[1]] = 100000 + len(self.um)      # a frame that is gone
            return ('L', self.um[b[1]], b[2])
        if b[0] in 'HO' and isinstance(b[1], int): r = (b[0], self.node(b[1]))
        elif b[0] == 'X' and isinstance(b[1], str) and not b[1][-1:].isdigit(): r = b
        elif b[0] == 'X' and isinstance(b[1], tuple): r = b
        elif b[0] in 'HX':
            if b not in self.xb: self.xb[b] = (b[0], b[1].rstrip('0123456789@') + f'@{len(self.xb)}')
            r = self.xb[b]
        else: r = b
        if b not in self.seen: self.seen.add(b); self.bases.append(b)
        return r
    def src(self, s):
        if s[0] in NODE_SRC and len(s) == 2 and isinstance(s[1], int): return (s[0], self.node(s[1]))
        if s[0] == 'cl':
            k = s[1]
            if k not in self.cl: self.cl[k] = len(self.cl)
            return ('cl', self.cl[k], self.src(s[2]))
        if s[0] == 'gen': return ('gen', self.src(s[1]))
        if s[0] == 'app':
            if s[1] not in self.ap:
                k = self.ap[s[1]] = len(self.ap)
                a = self.st.apps.get(s[1])
                if a: self.apps[k] = (a[0], self.segs(a[1]), self.segs(a[2]))
            return ('app', self.ap[s[1]])
        return tuple(self.lin(x) if type(x) is Lin else x for x in s)
    def segs(self, segs):
        out = []
        for s in segs:
            n = self.lin(s[1])
            if s[0] == 'S':
                src = self.src(s[2])
                out.append(('S', n, src, self.lin(s[3])))
            else: out.append((s[0], n) + tuple(self.any(x) for x in s[2:]))
        return tuple(out)
    def any(self, x):
        if isinstance(x, PLAIN): return x
        if type(x) is Lin: return self.lin(x)
        if isinstance(x, V): return self.val(x)
        if isinstance(x, tuple):
            if x and x[0] in NODE_SRC + ('cl', 'app') and len(x) in (2, 3) and isinstance(x[1], int): return self.src(x)
            if x and x[0] == 'S' and len(x) == 4: return self.segs((x,))[0]
            return tuple(self.any(y) for y in x)
        if x is UNINIT: return x
        raise NoMerge(type(x).__name__)
    def path(self, p): return tuple((k, self.lin(i) if type(i) is Lin else i) for k, i in p)
    def val(self, v):
        t = type(v)
        if t is Agg: return Agg(v.v, [self.any(x) for x in v.f])
        if t is Ptr:
            b = self.base(v.base); p = self.path(v.path)
            return Ptr(b, p) if v.ln is None else Ptr(b, p, self.lin(v.off), self.lin(v.ln))
        if t is It: return It(self.base(v.base), self.path(v.path), self.lin(v.i), self.lin(v.end))
        if t is Tok: return Tok(self.src(v.src), self.lin(v.idx))
        if t is Nd: return Nd(self.node(v.nid))
        if t is Arr: return Arr(self.segs(v.segs))
        if t is VecV: return VecV(self.lin(v.ln), Arr(self.segs(v.arr.segs)))
        if t is StoreV:
            ln = self.lin(v.ln)
            sl = tuple((self.node(k) if isinstance(k, int) else self.any(k), self.any(x)) for k, x in v.slots)
            return StoreV(v.kind, ln, tuple(sorted(sl, key=lambda x: str(x[0]))), v.sid)
        if t is Lazy: return Lazy((v.k[0], self.node(v.k[1])))
        return v
    def item(self, it):
        k = it[0]
        if k == 'place': return (k, self.base(it[1]), self.path(it[2]), self.any(it[3]) if it[3] else None, it[4])
        if k == 'tok': return (k, self.segs((it[1],))[0])
        if k == 'free': return (k, self.base(it[1]))
        if k == 'call': return (k, it[1], tuple(self.any(x) for x in it[2]))
        return (k, self.node(it[1]))
    def run(self):
        st = self.st; live = self.live
        new = State(st.prog); self.new = new
        key = []
        for i, fr in enumerate(st.frames): self.um[fr.uid] = i + 1
        for fr in st.frames:
            f = fr.copy(); f.uid = self.um[fr.uid]
            if fr.ret: f.ret = (self.base(fr.ret[0]) if fr.ret[0] != ('Z',) else fr.ret[0], self.path(fr.ret[1]))
            if fr.kind == 'drop': f.data = tuple(self.item(x) for x in fr.data); kd = tuple(x if x[0] != 'call' else (x[0], x[1]['id'], x[2]) for x in f.data)
            elif fr.kind == 'value': f.data = self.any(fr.data); kd = f.data
            else: kd = None
            new.frames.append(f)
            key.append(('f', fr.kind, fr.inst['id'] if fr.inst else None, fr.bb, fr.si, fr.unw, fr.retbb, f.ret, kd))
            if fr.kind == 'fn':
                for i in range(len(fr.body['locals'])):
                    v = st.mem.get(('L', fr.uid, i))
                    if v is not None:
                        v = self.any(v); new.mem[('L', f.uid, i)] = v; key.append((i, v))
        for b in sorted((b for b in st.mem if b[0] == 'X' and isinstance(b[1], str) and not b[1][-1:].isdigit()), key=str): self.base(b)
        for k in sorted(st.g, key=str):
            v = st.g[k]
            if k in ('root', 'prefix'): new.g[k] = self.node(v)
            elif k == 'dropped_nodes': new.g[k] = tuple(self.node(x) for x in v)
            elif callable(v): new.g[k] = v
            elif k == 'qsep':
                q = []
                for p, o in v:
                    p = st.norm(p)
                    if all(s in live.syms for s, _ in p.t): q.append((self.lin(p), o))
                if q: new.g[k] = tuple(q)
            else: new.g[k] = self.any(v)
            if k in new.g: key.append((k, new.g[k] if not callable(v) else 0))
        new.drops = self.segs(st.drops); new.made = self.segs(st.made); new.events = self.any(st.events)
        key.append((new.drops, new.made, new.events))
        # dirty and new heap objects, in a stable order
        for b in st.mem:
            if b[0] == 'H' and not isinstance(b[1], int): self.base(b)
        for b in st.mem:
            if b[0] == 'H' and isinstance(b[1], int) and b not in live.clean and st.res(b[1]) in live.nodes: self.base(b); self.base(('O', b[1]))
        for n in st.nodes.values():
            if n.new: self.node(n.nid)
        new.freed = tuple(self.base(b) for b in st.freed); key.append(new.freed)
        i = j = 0
        while i < len(self.order) or j < len(self.bases):
            if i < len(self.order):
                n = self.order[i]; i += 1
                nd = st.nodes[n]
                c = nd.copy(); c.nid = self.nm[n]
                for a in ('level', 'start', 'end', 'ids', 'size'):
                    x = getattr(nd, a)
                    setattr(c, a, None if x is None else self.lin(x))
                if isinstance(nd.parent, tuple):
                    p = st.res(nd.parent[0])
                    c.parent = (self.node(p), self.lin(nd.parent[1])) if p in live.nodes else None
                if nd.lotok is not None: raise NoMerge('lotok')
                new.nodes[c.nid] = c
                tab = live.bp.get(n)
                if tab: new.bps[c.nid] = tuple((self.lin(a), self.lin(p)) for a, p in tab)
                key.append(('n', c.nid, c.kind, c.new, c.store, c.level, c.start, c.end, c.ids, c.size, c.parent, new.bps.get(c.nid)))
                continue
            b = self.bases[j]; j += 1
            if b[0] == 'L' or b in live.clean: continue
            v = st.mem.get(b)
            if v is None: continue
            nb = self.base(b)
            new.mem[nb] = self.any(v)
            key.append((nb, new.mem[nb]))
        ch = []
        used = {k for v in st.mem.values() for k in slot_keys(v)}
        for k, v in st.choice.items():
            if k[0] != 'slot' or v not in used: continue
            i = st.norm(k[2])
            if isinstance(v, int):
                if st.res(v) in self.nm and st.norm(st.nodes[st.res(v)].ids) == i: continue     # known by its id
            if not all(s in live.syms for s, _ in i.t): continue
            if isinstance(v, int):
                if st.res(v) not in self.nm: continue
                ch.append((k[1], i, v))
            else: ch.append((k[1], i, 'none'))
        for k, i, v in sorted(ch, key=str):
            i2 = self.lin(i)
            new.choice[('slot', k, i2)] = self.nm[st.res(v)] if isinstance(v, int) else ('none', i2)
            key.append((k, i2, new.choice[('slot', k, i2)]))
        new.apps = self.apps; key.append(tuple(sorted(self.apps.items())))
        new.unwinding = st.unwinding; key.append(st.unwinding)
        new.ctr = dict(st.ctr)
        new.ctr['node'] = len(self.nm); new.ctr['uid'] = len(st.frames)
        new.ctr['cl'] = len(self.cl); new.ctr['app'] = len(self.ap)
        new.trace = st.trace; new.splits = st.splits
        for k in ('kf',):
            e = st.g.get(k)
            if e is not None:
                e = st.norm(e); key.append(e.c if e.is_const() else None)
        self.key = tuple(key)

def facts_over(st, lins, node_map):
    """what is known about the numbers, as facts over the placeholders"""
    syms = set()
    for e in lins:
        for s, _ in e.t: syms.add(s)
    P = st.facts.project(syms, 200)
    ren = {}
    for i, e in enumerate(lins):
        s = e.sym()
        if s is not None and s not in ren: ren[s] = sym('@%03d' % i)
    k = 0
    for s in sorted(syms):
        if s not in ren:
            if s[0] == '#':
                n = node_map.get(st.res(int(s[2:])))
                ren[s] = sym(f'#{s[1]}{n}') if n is not None else sym(f'~{k}')
            else: ren[s] = sym(f'~{k}')
            k += 1
    def tr(e):
        r = Lin(e.c)
        for s, c in e.t: r = r + ren[s].scale(c)
        return r
    out = Facts()
    bnd = {}
    for s, (lo, hi) in P.bnd.items():
        if s in ren: bnd[ren[s].sym()] = (lo, hi)
    eq = {}
    for s, e in P.eq.items():
        if s in ren: eq[ren[s].sym()] = tr(e)
    f = Facts(tuple(tr(e) for e in P.cons), eq, tuple(tr(e) for e in P.ne), bnd)
    for i, e in enumerate(lins):
        x = tr(e)
        a = sym('@%03d' % i)
        if x != a:
            f = Facts(f.cons, dict(f.eq), f.ne, f.bnd)
            f.eq[a.sym()] = f.norm(x)
    left = [s for s in (r.sym() for r in ren.values()) if s[0] in '~#']
    if left:
        keep = {'@%03d' % i for i in range(len(lins))}
        f = f.project(keep, 200)
    return f

class Elem:
    __slots__ = ('key', 'n', 'facts', 'joins', 'tmpl')

def coalesce(st):
    """write runs of dropped elements as single segments"""
    by = {}
    rest = []
    for s in st.drops:
        (by.setdefault(s[2], []) if s[0] == 'S' else rest).append(s)
    out = []
    for src, xs in by.items():
        i = 0
        while i < len(xs):
            for j in range(len(xs)):
                if i != j and st.same(xs[i][3] + xs[i][1], xs[j][3]):
                    xs[i] = ('S', st.norm(xs[i][1] + xs[j][1]), src, xs[i][3]); del xs[j]
                    i = -1; break
            i += 1
        out += xs
    if len(out) + len(rest) != len(st.drops): st.drops = tuple(rest + out)

def decompose(I, st):
    if len(st.drops) > 1: coalesce(st)
    live = Live(I, st)
    b = Build(I, st, live)
    return live, b
def restate(I, st, live, facts, n):
    """the state of st's shape whose numbers are constrained by facts only"""
    repl = [facts.norm(sym('@%03d' % i)) for i in range(n)]
    b = Build(I, st, live, repl)
    s = b.new
    s.facts = Facts(facts.cons, {}, facts.ne, facts.bnd)
    f = s.facts
    for nd in s.nodes.values():
        if nd.ids is not None and nd.ids.sym() is not None and nd.ids.sym()[0] == '#':
            k0 = s.g.get('nleaf0' if nd.kind == 'L' else 'ninner0')
            if k0 is not None: f = f.add_ge(nd.ids).add_ge(k0 - nd.ids - 1)
    s.facts = f
    invariants(s)
    return s

def invariants(s):
    """what holds of every node of the initial tree"""
    N = s.g.get('N')
    for nd in list(s.nodes.values()):
        if nd.new or nd.kind == 'alias' or nd.start is None or nd.end is None: continue
        f = s.facts
        root = nd.parent == 'root'
        f = f.add_ge(nd.start).add_ge(nd.level).add_ge(L(15) - nd.level)
        if N is not None: f = f.add_ge(N - nd.end)
        if not root: f = f.add_ge(nd.end - nd.start - 1)
        if nd.size is not None and nd.kind:
            f = f.add_ge(nd.size - (0 if root and nd.kind == 'L' else 1)).add_ge(L(64) - nd.size)
            f = f.add_eq(nd.end - nd.start - nd.size) if nd.kind == 'L' else f.add_ge(nd.end - nd.start - nd.size - 1).add_ge(nd.level - 1)
            if nd.kind == 'L': f = f.add_eq(nd.level)
        s.facts = f
    s.saturate()

def holds(sf, lins, F):
    """do the numbers lins (of a state with facts sf) satisfy F?"""
    def sub(e):
        r = Lin(e.c)
        for s, c in e.t: r = r + lins[int(s[1:])].scale(c)
        return r
    for s, e in F.eq.items():
        if not sf.eq0(sub(sym(s) - e)): return False
    for s, (lo, hi) in F.bnd.items():
        x = lins[int(s[1:])]
        if lo is not None and not sf.ge0(x - lo): return False
        if hi is not None and not sf.ge0(L(hi) - x): return False
    for e in F.cons:
        if not sf.ge0(sub(e)): return False
    for e in F.ne:
        if not sf.ne0(sub(e)): return False
    return True

def ineqs(F):
    out = []
    for s, e in F.eq.items(): out.append(sym(s) - e); out.append(e - sym(s))
    for s, (lo, hi) in F.bnd.items():
        if lo is not None: out.append(sym(s) - lo)
        if hi is not None: out.append(L(hi) - sym(s))
    out += list(F.cons)
    return out

def affine(va, vb):
    """the affine relations '@i = combination of earlier ones' that both vectors of expressions satisfy"""
    rows = {}
    def vec(i):
        d = {('a', 1): Fraction(va[i].c), ('b', 1): Fraction(vb[i].c)}
        for s, c in va[i].t: d[('a', s)] = Fraction(c)
        for s, c in vb[i].t: d[('b', s)] = Fraction(c)
        return {k: v for k, v in d.items() if v}
    basis = []     # (pivot, vector, combination of coordinates / constant)
    def reduce(v, comb):
        for piv, w, cw in basis:
            x = v.get(piv)
            if x:
                v = dict(v)
                for k, y in w.items():
                    z = v.get(k, 0) - x * y
                    if z: v[k] = z
                    else: v.pop(k, None)
                comb = dict(comb)
                for k, y in cw.items():
                    z = comb.get(k, 0) - x * y
                    if z: comb[k] = z
                    else: comb.pop(k, None)
        return v, comb
    def insert(v, comb):
        piv = min(v, key=str); x = v[piv]
        v = {k: y / x for k, y in v.items()}; comb = {k: y / x for k, y in comb.items()}
        basis.append((piv, v, comb))
    insert({('a', 1): Fraction(1), ('b', 1): Fraction(1)}, {'c': Fraction(1)})
    rel = {}
    for i in range(len(va)):
        v, comb = reduce(vec(i), {i: Fraction(1)})
        if v: insert(v, comb); continue
        # sum comb = 0
        k = comb.pop(i)
        e = {j: -c / k for j, c in comb.items()}
        if all(c.denominator == 1 for c in e.values()):
            r = Lin(int(e.pop('c', 0)))
            for j, c in e.items(): r = r + sym('@%03d' % j).scale(int(c))
            rel[i] = r
    return rel

def templates(tpl):
    """relations between nodes, entries and looked-up keys that are worth keeping (over the placeholders)"""
    out = []
    g = tpl.g
    N, kp, kf = g.get('N'), g.get('kp'), g.get('kf')
    ns = [n for n in tpl.nodes.values() if n.start is not None and n.end is not None]
    for n in ns:
        a, b = n.start, n.end
        out += [a, b - a - 1, b - a]
        if N is not None: out += [N - b, N - b - 1]
        if kp is not None: out += [kp - a, kp + kf - a, kp - a - 1, b - kp - kf, b - kp - 1, b - kp, a - kp - kf, kp - b, kp + kf - b, a - kp - kf - 1]
        if n.size is not None: out += [b - a - n.size, b - a - n.size - 1]
        for m in ns:
            if m is not n: out += [m.start - b, m.start - a, b - m.end, a - m.start]
    if kp is not None: out += [N - kp - kf]
    pos = [g[k] for k in ('f', 'b') if k in g]
    if len(pos) == 2:
        d = pos[1] - pos[0]
        out += [d, d - 1]
    if 'gone' in g:
        lo, hi = g['gone']
        out += [hi - lo, hi - lo - 1] + [x for p in pos for x in (lo - p, p - hi)]
        pos += [lo, hi]
    its(tpl.mem.values(), out)
    for i, n in (('ui', 'na'), ('uj', 'nb')):
        if i in g: out += [g[i], g[i] - 1, g[n] - g[i], g[n] - g[i] - 1, g[i] - g[n]]
    for p in pos:
        out += [p, N - p, N - p - 1, p - 1]
        for n in ns: out += [p - n.start, n.end - p, p - n.start - 1, n.end - p - 1, n.start - p, p - n.end]
    return out

def its(vs, out):
    for v in vs:
        if type(v) is It: out += [v.end - v.i, v.end - v.i - 1, v.i]
        elif type(v) is Agg: its(v.f, out)

def join(E, st, lins, fs):
    """weaken E.facts so that it also holds of the state (st, lins); fs: its facts over the placeholders"""
    n = E.n
    va = [E.facts.norm(sym('@%03d' % i)) for i in range(n)]
    vb = lins
    rel = affine(va, vb)
    f = Facts()
    eq = {}
    for i, e in rel.items():
        r = Lin(e.c)
        for s, c in e.t: r = r + (eq[s].scale(c) if s in eq else Lin(0, ((s, c),)))
        eq['@%03d' % i] = r
    f = Facts((), eq, (), {})
    def subs(e):
        r = Lin(e.c)
        for s, c in e.t: r = r + lins[int(s[1:])].scale(c)
        return r
    cand = []
    for e in ineqs(E.facts):
        if st.facts.ge0(subs(e)): cand.append(e)
    if E.joins < 4:
        for e in ineqs(fs):
            if (E.joins < 2 or len(e.t) > 1) and E.facts.ge0(e): cand.append(e)
        free = [i for i in range(n) if i not in rel]
        for a in free:
            for b in free:
                if a == b: continue
                d = sym('@%03d' % a) - sym('@%03d' % b)
                for k in (1, 0):
                    if E.facts.ge0(d - k) and st.facts.ge0(subs(d) - k): cand.append(d - k); break
    for e in E.tmpl:
        if E.facts.ge0(e) and st.facts.ge0(subs(e)): cand.append(e)
    for e in cand: f = f.add_ge(e)
    for e in E.facts.ne:
        if st.facts.ne0(subs(e)): f = f.add_ne(e)
    E.facts = f
    E.joins += 1

class Merger:
    """prunes states that were already analysed at the same program point, and joins at loop heads"""
    def __init__(self, disjuncts=3):
        self.tab = {}
        self.k = disjuncts
        self.pruned = self.joined = self.kept = self.failed = 0
        self.reasons = {}; self.pre = None; self.more = None
    def at(self, I, st, where, joining):
        """-> None (already covered) or the state to go on with"""
        if self.pre: self.pre(st)
        try:
            live, b = decompose(I, st)
        except NoMerge as e:
            self.failed += 1; self.reasons[str(e)] = self.reasons.get(str(e), 0) + 1
            return st
        key = (where, b.key)
        es = self.tab.setdefault(key, [])
        for E in es:
            if holds(st.facts, b.lins, E.facts): self.pruned += 1; return None
        fs = facts_over(st, b.lins, b.nm)
        if joining and len(es) >= self.k:
            E = es[-1]
            join(E, st, b.lins, fs)
            self.joined += 1
            return restate(I, st, live, E.facts, E.n)
        E = Elem(); E.key = key; E.n = len(b.lins); E.facts = fs; E.joins = 0; E.tmpl = templates(b.new) + (self.more(b.new) if self.more else []) + [sym('@%03d' % i) for i in range(E.n)]
        es.append(E)
        self.kept += 1
        return restate(I, st, live, fs, E.n)

class Accel:
    """exact acceleration: if a call maps a state s to s + d for a constant vector d, the states s + k*d it reaches
    after any number k >= 1 of calls. The call is analysed again from s + j*d for an unknown j >= 0; what it then
    assumes of j is a conjunction of linear inequalities, so it is enough that it holds of j = 0 and of j = k-1."""
    def __init__(self, I, s):
        self.I, self.s = I, s
        self.live, self.b = decompose(I, s)
        self.memo = {}
    def delta(self, t):
        try: lt, bt = decompose(self.I, t)
        except NoMerge: return None
        if bt.key != self.b.key: return None
        d = []
        for a, b in zip(self.b.lins, bt.lins):
            x = t.norm(b - a)
            if not x.is_const(): return None
            d.append(x.c)
        return tuple(d) if any(d) else None
    def start(self, d):
        """the state s + j*d"""
        j = sym('~j')
        b = Build(self.I, self.s, self.live, [a + j.scale(x) if x else a for a, x in zip(self.b.lins, d)])
        r = b.new; r.facts = self.s.facts.add_ge(j)
        return r
    def reached(self, d, t):
        """t: a result of the call from start(d) -> the accelerated state, or None"""
        lt, bt = decompose(self.I, t)
        j = sym('~j')
        if bt.key != self.b.key: return None
        for a, b, x in zip(self.b.lins, bt.lins, d):
            y = t.norm(b - a - j.scale(x) - x)
            if not (y.is_const() and y.c == 0): return None
        live = {y for a in self.b.lins for y, _ in a.t} | {'~j'}
        G = t.facts.project(live, 400)
        k = sym('~k'); signs = []; ne = []
        def at(e, v):
            r = Lin(e.c)
            for y, c in e.t: r = r + (v.scale(c) if y == '~j' else Lin(0, ((y, c),)))
            return r
        for e in G.ne:
            if all(y != '~j' for y, _ in e.t): ne.append(e); continue
            z = at(e, ZERO)              # on one side of the excluded point: stay there (fewer states)
            if self.s.facts.ge0(z - 1): signs.append(e - 1)
            elif self.s.facts.ge0(-z - 1): signs.append(-e - 1)
            else: return None
        f = self.s.facts.add_ge(k - 1)
        for e in ineqs(G) + signs: f = f.add_ge(at(e, ZERO)).add_ge(at(e, k - 1))
        for e in ne: f = f.add_ne(e)
        b = Build(self.I, self.s, self.live, [a + k.scale(x) if x else a for a, x in zip(self.b.lins, d)])
        b.new.facts = f
        b.new.saturate()
        return b.new
