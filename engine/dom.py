"""Abstract domain: values, array segments, symbolic tree nodes, and the abstract state.

A state describes a set of concrete memories: a conjunction of linear facts (lin.Facts), a heap of
materialised nodes, and a symbolic rest of the tree from which nodes are focused on demand."""
from lin import Lin, L, ZERO, ONE, sym, Facts, Infeasible

class Split(Exception):
    """the abstract state must be partitioned: alts are functions state -> None that add an assumption"""
    def __init__(self, alts): self.alts = alts

class Bad(Exception):
    """a rule is violated here"""
    def __init__(self, rule, msg): self.rule, self.msg = rule, msg

class Undecided(Exception): pass

class _U:
    __slots__ = ()
    def __repr__(self): return 'UNINIT'
UNINIT = _U()

class V:
    __slots__ = ()
    def key(self): return tuple(getattr(self, s) for s in self.__slots__)
    def __eq__(self, o): return self is o or (type(self) is type(o) and self.key() == o.key())
    def __hash__(self): return hash((type(self).__name__, self.key()))

class Agg(V):
    __slots__ = ('v', 'f')
    def __init__(self, v, f): self.v = v; self.f = tuple(f)
    def __repr__(self): return f"{'' if self.v is None else '#%s' % self.v}{list(self.f)}"
class Tok(V):
    """an opaque owned user value: element idx of the abstract collection src"""
    __slots__ = ('src', 'idx')
    def __init__(self, src, idx=ZERO): self.src = src; self.idx = idx
    def __repr__(self): return f"{_s(self.src)}[{self.idx}]"
class Nd(V):
    """the NodeId of node nid (leaf or inner not yet decided)"""
    __slots__ = ('nid',)
    def __init__(self, nid): self.nid = nid
    def __repr__(self): return f"Nd({self.nid})"
class Ptr(V):
    """thin pointer (ln None) or slice [off, off+ln) of the array at base.path"""
    __slots__ = ('base', 'path', 'off', 'ln')
    def __init__(self, base, path=(), off=None, ln=None): self.base = base; self.path = path; self.off = off; self.ln = ln
    def __repr__(self):
        return f"&{self.base}{''.join('.%s' % (p[1],) if p[0] == 'f' else '[%s]' % (p[1],) for p in self.path)}" + (f"<{self.off};{self.ln}>" if self.ln is not None else '')
class FnV(V):
    __slots__ = ('inst',)
    def __init__(self, inst): self.inst = inst
class Opq(V):
    __slots__ = ('n',)
    def __init__(self, n): self.n = n
    def __repr__(self): return f"Opq({self.n})"
class Lazy(V):
    """an undetermined value resolved on first inspection"""
    __slots__ = ('k',)
    def __init__(self, k): self.k = k
    def __repr__(self): return f"Lazy{self.k}"
class It(V):
    """slice iterator over [i, end) of the array at base.path"""
    __slots__ = ('base', 'path', 'i', 'end')
    def __init__(self, base, path, i, end): self.base = base; self.path = path; self.i = i; self.end = end
class Arr(V):
    """segs: ('S', len, src, off) | ('1', ONE, value) | ('U', len) | ('F', len, value) | ('P', len, tmpl...)"""
    __slots__ = ('segs',)
    def __init__(self, segs): self.segs = tuple(segs)
    def __repr__(self): return '<' + ' '.join(_seg(s) for s in self.segs) + '>'
class StoreV(V):
    """the Vec of a node store; slots: {nid: value} for touched slots (others are as in the initial tree)"""
    __slots__ = ('kind', 'ln', 'slots', 'sid')
    def __init__(self, kind, ln, slots=(), sid=0): self.kind = kind; self.ln = ln; self.slots = slots; self.sid = sid
    def __repr__(self): return f"Store:{self.kind}({self.ln},{self.slots})"
class VecV(V):
    __slots__ = ('ln', 'arr')
    def __init__(self, ln, arr): self.ln = ln; self.arr = arr
    def __repr__(self): return f"Vec({self.ln}:{self.arr})"

def _s(src): return src if isinstance(src, str) else ''.join(str(x) for x in src) if isinstance(src, tuple) else str(src)
def _seg(s):
    if s[0] == 'S': return f"{_s(s[2])}[{s[3]}..+{s[1]}]"
    if s[0] == '1': return f"{s[2]}"
    if s[0] == 'U': return f"?*{s[1]}"
    return str(s)

class Node:
    """a node of the initial (or summarised) tree"""
    __slots__ = ('nid', 'level', 'start', 'end', 'parent', 'ids', 'size', 'kind', 'new', 'onpath', 'lotok', 'store')
    def __init__(self, nid, level, start, end, parent, ids):
        self.nid = nid; self.level = level; self.start = start; self.end = end
        self.parent = parent          # (pnid, idx) | 'root' | None (unknown)
        self.ids = ids                # Lin: the numeric id
        self.size = None; self.kind = None; self.new = False; self.onpath = False; self.lotok = None
        self.store = 0                # number of the store it belongs to (0: that of the initial tree)
    def copy(self):
        n = Node.__new__(Node)
        for s in Node.__slots__: setattr(n, s, getattr(self, s))
        return n

class Frame:
    __slots__ = ('inst', 'body', 'bb', 'si', 'uid', 'ret', 'retbb', 'unw', 'kind', 'data', 'sp')
    def __init__(self, inst, body, uid, ret, retbb, unw, kind='fn', data=None):
        self.inst = inst; self.body = body; self.bb = 0; self.si = 0; self.uid = uid
        self.ret = ret; self.retbb = retbb; self.unw = unw; self.kind = kind; self.data = data; self.sp = None
    def copy(self):
        f = Frame.__new__(Frame)
        for s in Frame.__slots__: setattr(f, s, getattr(self, s))
        return f

BIG = 1 << 64

class State:
    def __init__(self, prog):
        self.prog = prog
        self.mem = {}
        self.facts = Facts()
        self.nodes = {}
        self.bps = {}              # inner nid -> tuple of (idx, position)
        self.choice = {}
        self.frames = []
        self.drops = ()            # log of dropped tokens: tuple of segs
        self.events = ()           # callback log
        self.apps = {}             # app id -> (kind, segs, segs)
        self.made = ()             # created tokens
        self.freed = ()            # heap objects released
        self.ctr = {}
        self.g = {}                # ghost values
        self.unwinding = False
        self.trace = ()
        self.splits = 0; self.hooked = False; self.back = False
    def copy(self):
        s = State.__new__(State)
        s.prog = self.prog
        s.mem = dict(self.mem); s.facts = self.facts; s.nodes = dict(self.nodes); s.bps = dict(self.bps)
        s.choice = dict(self.choice)
        s.frames = list(self.frames)
        if s.frames: s.frames[-1] = s.frames[-1].copy()
        s.drops = self.drops; s.events = self.events; s.apps = dict(self.apps); s.made = self.made; s.freed = self.freed
        s.ctr = dict(self.ctr); s.g = dict(self.g); s.unwinding = self.unwinding; s.trace = self.trace
        s.splits = self.splits; s.hooked = self.hooked; s.back = self.back
        return s

    # ---- names and facts
    def fresh_uid(self):
        n = self.ctr.get('uid', 0) + 1
        self.ctr['uid'] = n
        return n
    def fresh(self, p):
        n = self.ctr.get(p, 0)
        self.ctr[p] = n + 1
        return f'{p}{n}'
    def fsym(self, p, lo=None, hi=None):
        s = sym(self.fresh(p))
        if lo is not None: self.facts = self.facts.add_ge(s - lo)
        if hi is not None: self.facts = self.facts.add_ge(L(hi) - s)
        return s
    def norm(self, e): return self.facts.norm(e)
    def assume(self, op, a, b): self.facts = self.facts.assume(op, a, b)
    def split_on(self, op, a, b):
        neg = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}[op]
        raise Split([lambda s: s.assume(op, a, b), lambda s: s.assume(neg, a, b)])
    def is_id(self, e):
        s = e.sym()
        return isinstance(s, str) and s.startswith('#')
    def decide0(self, op, a, b):
        a = self.norm(L(a)); b = self.norm(L(b))
        if op in ('eq', 'ne'):
            # ids of distinct nodes of one kind differ; ids of new nodes are beyond the old length
            na, nb = self.id_of(a), self.id_of(b)
            if na is not None and nb is not None and na[0] == nb[0]:
                r = na[1] == nb[1]
                return r if op == 'eq' else not r
        return self.facts.decide(op, a, b)
    def id_of(self, e):
        """(kind, nid) when e is known to be a node's id"""
        s = e.sym()
        if isinstance(s, str) and s[0] == '#': return s[1], int(s[2:])
        return None
    def decide(self, op, a, b):
        r = self.decide0(op, a, b)
        if r is None: self.split_on(op, a, b)
        return r
    def same(self, a, b): return self.facts.same(a, b)
    def choose(self, key, n, alts=None):
        """a lazily made finite choice"""
        if key in self.choice: return self.choice[key]
        def mk(v):
            def f(s): s.choice[key] = v
            return f
        raise Split([mk(v) for v in (alts if alts is not None else range(n))])

    # ---- arrays
    def norm_segs(self, segs):
        out = []
        for s in segs:
            ln = self.norm(s[1])
            if not ln.t and ln.c == 0: continue
            k = s[0]
            if k == '1':
                v = s[2]
                if isinstance(v, Tok): s = ('S', ONE, v.src, v.idx); k = 'S'; ln = ONE
                elif v is UNINIT: s = ('U', ONE); k = 'U'
            elif k == 'S' and isinstance(s[2], tuple) and s[2][0] == 'kid' : pass
            if out:
                p = out[-1]
                if k == 'S' and p[0] == 'S' and p[2] == s[2] and self.same(p[3] + p[1], s[3]):
                    out[-1] = ('S', self.norm(p[1] + ln), p[2], p[3]); continue
                if k == 'U' and p[0] == 'U':
                    out[-1] = ('U', self.norm(p[1] + ln)); continue
                if k == 'F' and p[0] == 'F' and p[2] == s[2]:
                    out[-1] = ('F', self.norm(p[1] + ln), p[2]); continue
            out.append((k, ln) + tuple(s[2:]))
        return tuple(out)
    def alen(self, segs):
        n = ZERO
        for s in segs: n = n + s[1]
        return self.norm(n)
    def seg_cut(self, s, a):
        """split one segment at a (0 <= a <= len)"""
        k = s[0]
        b = self.norm(s[1] - a); a = self.norm(a)
        if k == 'S': return ('S', a, s[2], s[3]), ('S', b, s[2], self.norm(s[3] + a))
        if k == 'U': return ('U', a), ('U', b)
        if k == 'F': return ('F', a, s[2]), ('F', b, s[2])
        if k == 'P': return self.path_cut(s, a)
        if k == '1':
            if self.decide('eq', a, 0): return None, s
            return s, None
        raise Undecided('cut of segment ' + k)
    def cut(self, segs, p):
        """-> (left, right) with len(left) == p"""
        p = self.norm(L(p))
        cum = ZERO
        left = []
        for i, s in enumerate(segs):
            if self.same(p, cum): return tuple(left), tuple(segs[i:])
            end = self.norm(cum + s[1])
            if self.facts.ge(p, end):
                left.append(s); cum = end; continue
            if self.facts.ge(end, p):
                x, y = self.seg_cut(s, self.norm(p - cum))
                if x: left.append(x)
                return tuple(left), ((y,) if y else ()) + tuple(segs[i + 1:])
            self.split_on('ge', p, end)
        if self.facts.ge(cum, p): return tuple(left), ()
        if self.decide('le', p, cum): return tuple(left), ()
        raise Bad('bounds', f'array accessed at {p}, beyond its {cum} slots')
    def sub(self, segs, off, ln):
        _, r = self.cut(segs, off)
        m, _ = self.cut(r, ln)
        return m
    def replace(self, segs, off, ln, new):
        l, r = self.cut(segs, off)
        m, r2 = self.cut(r, ln)
        return self.norm_segs(l + tuple(new) + r2)
    def elem(self, segs, i):
        i = self.norm(L(i))
        cum = ZERO
        if not i.t and 8 < i.c < len(segs) and all(s[1] is ONE for s in segs[:i.c + 1]): return self.seg_elem(segs[i.c], ZERO)
        if not self.facts.ge0(i): 
            if not self.decide('ge', i, 0): raise Bad('bounds', f'negative index {i}')
        for s in segs:
            end = self.norm(cum + s[1])
            if self.facts.gt(end, i): return self.seg_elem(s, self.norm(i - cum))
            if not self.facts.ge(i, end):
                self.split_on('ge', i, end)
            cum = end
        raise Bad('bounds', f'index {i} is beyond the {cum} slots of the array')
    def seg_elem(self, s, j):
        k = s[0]
        if k == 'S': return self.src_elem(s[2], self.norm(s[3] + j))
        if k == '1': return s[2]
        if k == 'U': return UNINIT
        if k == 'F': return s[2]
        if k == 'P': return self.path_elem(s, j)
        raise Undecided('element of segment ' + k)
    def src_elem(self, src, idx):
        if src[0] == 'C': return Nd(self.child(src[1], idx))
        if src[0] == 'cnt': return self.norm(self.bp(src[1], idx + 1) - self.bp(src[1], idx))
        if src[0] == 'grp': return self.g['grp_elem'](self, src[1], idx)
        return Tok(src, idx)
    def path_cut(self, s, a): raise Undecided('path segment')
    def path_elem(self, s, j): raise Undecided('path segment')

    # ---- nodes
    def new_node(self, level, start, end, parent):
        nid = self.ctr.get('node', 0)
        self.ctr['node'] = nid + 1
        n = Node(nid, level, start, end, parent, None)
        self.nodes[nid] = n
        return nid
    def mut(self, nid):
        n = self.nodes[nid].copy(); self.nodes[nid] = n
        return n
    def kind(self, nid):
        """decides whether nid is a leaf ('L') or inner ('I')"""
        nid = self.res(nid)
        n = self.nodes[nid]
        if n.kind: return n.kind
        leaf = self.decide('eq', n.level, 0)
        if leaf and n.ids is None:
            # the leaf may already be known through the leaf chain or a hint
            o = self.find_leaf_at(n.start, nid)
            if o is not None:
                raise Split([lambda s: s.merge_leaf(nid, o)])
            for m in list(self.nodes.values()):
                if m.kind == 'L' and not m.new:
                    if self.decide('gt', m.start, n.start): self.facts = self.facts.add_ge(m.start - n.end)
                    else: self.facts = self.facts.add_ge(n.start - m.end)
        n = self.mut(nid)
        n.kind = 'L' if leaf else 'I'
        root = n.parent == 'root'
        n.size = self.fsym('s' + n.kind.lower() + str(nid) + '_', 0 if (root and leaf) else 1, 64)
        if n.ids is None: n.ids = sym(f'#{n.kind}{nid}')
        f = self.facts
        f = f.add_ge(n.ids)
        f = f.add_ge(self.g['nleaf0' if leaf else 'ninner0'] - n.ids - 1)
        if leaf: f = f.add_eq(n.end - n.start - n.size)
        else:
            f = f.add_ge(n.end - n.start - n.size - 1)
            self.bps[nid] = ((ZERO, n.start), (n.size + 1, n.end))
        self.facts = f
        return n.kind
    def merge_leaf(self, nid, o):
        """nid (a child not yet focused) is the already known leaf o"""
        self.choice[('alias', nid)] = o
        a = self.nodes[nid]; b = self.mut(o)
        self.facts = self.facts.add_eq(a.end - b.end).add_eq(a.start - b.start)
        if b.parent is None: b.parent = a.parent
        n = self.mut(nid); n.kind = 'alias'
    def res(self, nid):
        while ('alias', nid) in self.choice: nid = self.choice[('alias', nid)]
        return nid
    def find_leaf_at(self, pos, exc=None):
        """an already focused original leaf starting at pos (may split)"""
        for m in list(self.nodes.values()):
            if m.kind == 'L' and not m.new and m.nid != exc and self.facts.same(m.start, pos): return m.nid
        for m in list(self.nodes.values()):
            if m.kind == 'L' and not m.new and m.nid != exc:
                if self.decide('eq', m.start, pos): return m.nid
        return None
    def bp(self, nid, i):
        """position of the boundary before child i of inner node nid"""
        i = self.norm(L(i))
        tab = self.bps[nid]
        for j, p in tab:
            if self.same(i, j): return p
        p = self.fsym(f'b{nid}_')
        f = self.facts
        for j, q in tab:
            if f.gt(j, i): f = f.add_ge(q - p - (j - i))
            elif f.gt(i, j): f = f.add_ge(p - q - (i - j))
            elif f.ge(j, i): f = f.add_ge(q - p - (j - i))
            elif f.ge(i, j): f = f.add_ge(p - q - (i - j))
        self.facts = f
        self.bps[nid] = tab + ((i, p),)
        return p
    def saturate(self):
        """propagate what was learned about indices to the boundary positions"""
        for nid, tab in self.bps.items():
            for a in range(len(tab)):
                for b in range(a):
                    (i, p), (j, q) = tab[a], tab[b]
                    if self.same(i, j):
                        if not self.same(p, q): self.facts = self.facts.add_eq(p - q)
                    elif self.facts.gt(i, j): self.facts = self.facts.add_ge(p - q - (i - j))
                    elif self.facts.gt(j, i): self.facts = self.facts.add_ge(q - p - (j - i))
    def child(self, nid, idx):
        """focus: the node that is child idx of the original inner node nid"""
        idx = self.norm(L(idx))
        for m in self.nodes.values():
            if isinstance(m.parent, tuple) and m.parent[0] == nid and self.same(m.parent[1], idx): return self.res(m.nid)
        n = self.nodes[nid]
        for m in list(self.nodes.values()):
            if isinstance(m.parent, tuple) and m.parent[0] == nid and m.kind != 'alias':
                if self.decide('eq', m.parent[1], idx): return self.res(m.nid)
        a = self.bp(nid, idx); b = self.bp(nid, self.norm(idx + 1))
        m = self.new_node(self.norm(n.level - 1), a, b, (nid, idx))
        return m
    def leaf_starting_at(self, pos):
        o = self.find_leaf_at(pos)
        if o is not None: return o
        return self._chain_leaf(pos, None)
    def leaf_ending_at(self, pos):
        for m in list(self.nodes.values()):
            if m.kind == 'L' and not m.new and self.same(m.end, pos): return m.nid
        for m in list(self.nodes.values()):
            if m.kind == 'L' and not m.new and self.decide('eq', m.end, pos): return m.nid
        return self._chain_leaf(None, pos)
    def _chain_leaf(self, start, end):
        nid = self.ctr.get('node', 0); self.ctr['node'] = nid + 1
        size = self.fsym(f'sl{nid}_', 1, 64)
        if start is None: start = self.norm(end - size)
        else: end = self.norm(start + size)
        n = Node(nid, ZERO, start, end, None, sym(f'#L{nid}'))
        n.kind = 'L'; n.size = size
        self.nodes[nid] = n
        f = self.facts.add_ge(n.ids).add_ge(self.g['nleaf0'] - n.ids - 1)
        f = f.add_ge(start).add_ge(self.g['N'] - end)
        for m in self.nodes.values():        # leaves do not overlap
            if m.kind == 'L' and not m.new and m.nid != nid:
                if f.gt(m.end, start) and not f.ge(start, m.end): f = f.add_ge(m.start - end)
                elif f.gt(end, m.start) and not f.ge(m.start, end): f = f.add_ge(start - m.end)
        self.facts = f
        return nid
