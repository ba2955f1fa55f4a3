"""Abstract interpreter over the MIR of the instantiated crate.

Every basic block is translated once into closures over the abstract state (dom.State). A step that
needs information the state does not have raises Split; the state is then partitioned and the step
is evaluated in each part. All effects of a step happen after its last possible Split."""
import sys, time
from lin import Lin, L, ZERO, ONE, sym, Infeasible
from dom import *

sys.setrecursionlimit(20000)
UNIT = Agg(None, ())
NONE = Agg(0, ())
def some(v): return Agg(1, (v,))

UNW = ('unw',)
class Panic(Exception):
    def __init__(self, why, user=False): self.why, self.user = why, user
class Dead(Exception):
    """the step cannot be reached in this state"""

class _P: pass
PUSHED = _P()

def W(bits): return 1 << bits

class Types:
    """type queries with memo"""
    def __init__(self, prog):
        self.T = prog.types
        self.tr = {}
        self.un = {}
    def main(self, t):
        """for a transparent struct/union: index of its only sized field, else None"""
        if t in self.tr: return self.tr[t]
        T = self.T[t]; r = None
        if T['k'] == 'adt' and T['kind'] in ('struct', 'union') and T['path'] not in OPAQUE_ADT:
            fs = T['variants'][0]['fields']
            big = [i for i, f in enumerate(fs) if self.T[f[1]].get('size', 1) != 0]
            if len(big) == 1: r = big[0]
            elif T['kind'] == 'union' and len(big) == 0 and fs: r = len(fs) - 1
        self.tr[t] = r
        return r
    def strip(self, t):
        while True:
            m = self.main(t)
            if m is None: return t
            t = self.T[t]['variants'][0]['fields'][m][1]
    def pointee(self, t):
        T = self.T[self.strip(t)]
        return T.get('e')
    def bits(self, t):
        s = self.T[t]['s']
        if s in ('usize', 'isize'): return 64
        if s and s[0] in 'iu' and s[1:].isdigit(): return int(s[1:])
        return None
    def signed(self, t): return self.T[t]['s'][0] == 'i'
    def uninit(self, t):
        if t in self.un: return self.un[t]
        s = self.strip(t); T = self.T[s]
        if T['k'] == 'array': r = Arr((('U', L(T['n'])),)) if T['n'] else Arr(())
        else: r = UNINIT
        self.un[t] = r
        return r

USER = {'UK', 'PK', 'UQ', 'UV', 'UA', 'UG', 'UQuery', 'URank', 'UVis', 'URes', 'USrc', 'USrcK', 'USrcC', 'USrcA'}
OPAQUE_ADT = set(USER)
VEC = ('std::vec::Vec', 'alloc::vec::Vec')

class Compiled:
    __slots__ = ('blocks', 'nloc', 'inst', 'heads', 'body')

class Interp:
    def __init__(self, prog, mode='functional'):
        self.prog = prog
        self.ty = Types(prog)
        self.T = prog.types
        self.code = {}
        self.mode = mode
        self.models = {}
        self.findings = []      # (rule, function, msg, span, trace)
        self.unknown = []       # undecided paths
        self.nsteps = 0
        self.visited = set()    # (inst id, block) reached
        self.merger = None; self.allheads = False
        self.nohint = False       # the hint leads to no leaf
        self.exit_hook = None
        self.call_hook = None
        self.panic_ok = None
        self.shared = False       # the operation borrows the tree shared: other readers may run
        self.max_steps = 3_000_000
        self.deadline = None
        import models
        models.install(self)

    # ------------------------------------------------------------------ values
    def kpath(self, t): return self.T[t].get('path') if self.T[t]['k'] == 'adt' else None
    def lazy(self, st, v):
        k = v.k
        if k[0] == 'next':
            n = st.nodes[k[1]]
            if n.new: raise Undecided('link of a new node')
            if st.decide('eq', n.end, st.g['N']): return NONE
            return some(st.nodes[st.leaf_starting_at(n.end)].ids)
        if k[0] == 'prev':
            n = st.nodes[k[1]]
            if st.decide('eq', n.start, 0): return NONE
            return some(st.nodes[st.leaf_ending_at(n.start)].ids)
        if k[0] == 'fn': return k[1](self, st)
        raise Undecided(f'lazy {k}')
    def heap(self, st, base):
        """the initial contents of a heap object, built on first use"""
        if base[0] == 'H' and isinstance(base[1], int):
            nid = base[1]
            v = self.node_value(st, nid)
            st.mem[base] = v
            st.mem[('O', nid)] = v
            return v
        raise Bad('access', f'dereference of a dangling pointer {base}')
    def node_types(self):
        """(leaf type id, inner type id) per store, found by name"""
        raise NotImplementedError
    def node_value(self, st, nid):
        kd = st.kind(nid)
        n = st.nodes[nid]
        tid = st.g['leaf_ty'] if kd == 'L' else st.g['inner_ty']
        T = self.T[tid]; fs = []
        links = 0
        for nm, ft, _ in T['variants'][0]['fields']:
            S = self.T[self.ty.strip(ft)]
            if S['k'] == 'prim': fs.append(n.size)
            elif S['k'] == 'array':
                e = self.ty.strip(S['e'])
                es = self.T[e]['s']
                ln = n.size
                if es in ('UK', 'PK'): src = ('K' if kd == 'L' else 'S', nid)
                elif es == 'UV': src = ('V', nid)
                elif self.T[e]['k'] == 'adt' and self.T[e]['kind'] == 'enum' and 'NodeId' in es: src = ('C', nid); ln = n.size + 1
                elif es == '()': fs.append(Arr((('F', L(S['n']), UNIT),))); continue
                else: src = ('A', nid); ln = n.size + 1
                ln = st.norm(ln)
                a, b = self.intact(st, nid) if kd == 'L' and 'gone' in st.g else (ZERO, ln)
                fs.append(Arr(st.norm_segs((('U', a), ('S', st.norm(b - a), src, a), ('U', st.norm(L(S['n']) - b))))))
            elif S['k'] == 'adt' and S['kind'] == 'enum':
                which = nm if nm in ('prev', 'next') else ('prev', 'next')[links]
                links += 1
                fs.append(Lazy((which, nid)))
            else: raise Undecided(f'field {nm} of {T["s"]}')
        return Agg(None, fs)

    def intact(self, st, nid):
        """the slots of an original leaf whose entries were not handed out"""
        n = st.nodes[nid]; lo, hi = st.g['gone']
        a = ZERO if st.decide('le', lo, n.start) else n.size if st.decide('ge', lo, n.end) else st.norm(lo - n.start)
        b = n.size if st.decide('ge', hi, n.end) else ZERO if st.decide('le', hi, n.start) else st.norm(hi - n.start)
        if not st.decide('le', a, b): b = a
        return a, b

    def fld(self, st, v, i):
        if type(v) is Agg:
            if i >= len(v.f): raise Undecided(f'field {i} of {v}')
            return v.f[i]
        if type(v) is Lazy: return self.fld(st, self.lazy(st, v), i)
        if type(v) is Nd:
            st.kind(v.nid)
            return st.nodes[st.res(v.nid)].ids
        if v is UNINIT: return UNINIT
        raise Undecided(f'field {i} of {v}')
    def idx(self, st, v, i):
        if type(v) is Arr: return st.elem(v.segs, i)
        if type(v) is StoreV: return self.slot(st, v, i)
        if type(v) is VecV: return st.elem(v.arr.segs, i)
        if v is UNINIT: return UNINIT
        raise Undecided(f'element {i} of {v}')
    def root_of(self, st, base):
        v = st.mem.get(base)
        if v is None:
            if base[0] == 'H' and base in st.freed: raise Bad('access', 'use of a freed node')
            v = self.heap(st, base)
        return v
    def read(self, st, base, path):
        v = self.root_of(st, base)
        for k, i in path:
            if k == 'f':
                if type(v) is Agg and i < len(v.f): v = v.f[i]
                else: v = self.fld(st, v, i)
            else: v = self.idx(st, v, i)
        return v
    def write(self, st, base, path, val):
        if not path:
            if base[0] == 'H' and base in st.freed: raise Bad('access', 'write to a freed node')
            st.mem[base] = val
            return
        if base[0] == 'L' and path[0][0] == 'f' and st.mem.get(base, UNINIT) is UNINIT: self.blank(st, base)
        st.mem[base] = self.upd(st, self.root_of(st, base), path, 0, val)
    def blank(self, st, base):
        """a local that is initialised field by field"""
        fr = next((f for f in st.frames if f.uid == base[1]), None)
        if fr is None or fr.inst is None: return
        T = self.T[self.ty.strip(fr.body['locals'][base[2]])]
        if T['k'] == 'tuple': n = [self.ty.uninit(x) for x in T['fields']]
        elif T['k'] == 'adt' and T['kind'] == 'struct': n = [self.ty.uninit(x[1]) for x in T['variants'][0]['fields']]
        else: return
        st.mem[base] = Agg(None, n)
    def upd(self, st, v, path, n, val):
        if n == len(path): return val
        k, i = path[n]
        if k == 'f':
            if type(v) is Lazy: v = self.lazy(st, v)
            if v is UNINIT: raise Undecided('field write into uninitialised value')
            if type(v) is Nd: raise Undecided('field write into node id')
            f = list(v.f)
            f[i] = self.upd(st, f[i], path, n + 1, val)
            return Agg(v.v, f)
        if type(v) is Arr:
            if n + 1 < len(path): val = self.upd(st, st.elem(v.segs, i), path, n + 1, val)
            return Arr(st.replace(v.segs, i, ONE, (('1', ONE, val),)))
        if type(v) is VecV:
            if n + 1 < len(path): val = self.upd(st, st.elem(v.arr.segs, i), path, n + 1, val)
            return VecV(v.ln, Arr(st.replace(v.arr.segs, i, ONE, (('1', ONE, val),))))
        if type(v) is StoreV:
            nid = self.slot_id(st, v, i)
            old = self.slot(st, v, i)
            nv = self.upd(st, old, path, n + 1, val)
            sl = dict(v.slots); sl[nid] = nv
            return StoreV(v.kind, v.ln, tuple(sorted(sl.items(), key=lambda x: str(x[0]))), v.sid)
        raise Undecided(f'write into {v}')
    # slots of a node store
    def slot_id(self, st, v, i):
        i = st.norm(L(i))
        k = v.kind
        for n in st.nodes.values():
            if n.ids is not None and n.kind == k and n.store == v.sid and st.norm(n.ids) == i: return n.nid
        key = ('slot', k, i)
        if v.sid: return self.own_slot(st, v, i)
        if key in st.choice: return st.choice[key]
        alts = []
        def eqn(nid):
            def f(s):
                s.facts = s.facts.add_eq(i - s.nodes[nid].ids)
            return f
        for n in st.nodes.values():
            if n.ids is None or n.kind != k or n.store: continue
            o = st.id_of(i)
            if o: continue
            r = st.facts.decide('eq', i, n.ids)
            if r is True: return n.nid
            if r is None: alts.append(eqn(n.nid))
        n0 = st.g['nleaf0' if k == 'L' else 'ninner0']
        def empty(s):
            s.assume('lt', i, n0); s.choice[key] = ('none', i)
        alts.append(empty)
        if k == 'L' and not st.g.get('nonodes'):
            known = [n for n in st.nodes.values() if n.kind == 'L' and not n.new]
            def mk(order):
                def other(s):
                    nid = s.ctr.get('node', 0); s.ctr['node'] = nid + 1
                    size = s.fsym(f'sl{nid}_', 1, 64)
                    start = s.fsym(f'zs{nid}_', 0)
                    nn = Node(nid, ZERO, start, s.norm(start + size), None, sym(f'#L{nid}'))
                    nn.kind = 'L'; nn.size = size
                    s.nodes[nid] = nn
                    s.facts = s.facts.add_ge(nn.ids).add_ge(n0 - nn.ids - 1).add_ge(s.g['N'] - nn.end)
                    for m, o in zip(known, order):
                        s.facts = s.facts.add_ge(m.start - nn.end) if o else s.facts.add_ge(nn.start - m.end)
                    s.facts = s.facts.add_eq(i - nn.ids)
                    s.choice[key] = nid
                return other
            import itertools
            for order in itertools.product((True, False), repeat=len(known)): alts.append(mk(order))
        elif k == 'I' and st.g.get('anyinner'):
            def other(s):
                import low
                nid = low.add_inner(s); n = s.mut(nid)
                n.size = s.fsym(f'si{nid}_', 0, 64)
                s.facts = s.facts.add_ge(n.ids).add_ge(n0 - n.ids - 1).add_ge(n.end - n.start - n.size - 1).add_eq(i - n.ids)
                s.bps[nid] = ((ZERO, n.start), (s.norm(n.size + 1), n.end))
                s.choice[key] = nid
            alts.append(other)
        elif k == 'I' and not st.g.get('nonodes'):
            raise Undecided('arbitrary inner node id')
        raise Split(alts)
    def own_slot(self, st, v, i):
        """a store that was made during the operation holds the nodes that were put into it only"""
        alts = []
        for nid, x in v.slots:
            d = st.norm(i - st.nodes[nid].ids)
            r = st.facts.decide('eq', d, ZERO)
            if r is True: return nid
            if r is None: alts.append(lambda s, d=d: setattr(s, 'facts', s.facts.add_eq(d)))
        if not alts: raise Bad('access', 'a node slot that does not exist is used')
        raise Split(alts)
    def slot(self, st, v, i):
        nid = self.slot_id(st, v, i)
        for a, b in v.slots:
            if a == nid: return b
        if isinstance(nid, tuple): return NONE
        return some(Ptr(('H', nid)))

    # ------------------------------------------------------------------ compile
    def compiled(self, inst):
        c = self.code.get(inst['id'])
        if c is None:
            c = self.code[inst['id']] = self.compile(inst)
        return c
    def compile(self, inst):
        b = inst['body']
        c = Compiled(); c.inst = inst; c.nloc = len(b['locals']); c.body = b
        c.blocks = []
        for bb in b['bbs']:
            ss = []
            for s in bb['s']:
                x = self.c_stmt(s, b)
                if x: ss.append((x, s.get('sp')))
            c.blocks.append((ss, self.c_term(bb['t'], b), bb['t'].get('sp')))
        c.heads = self.loop_heads(b)
        return c
    def succs(self, t):
        k = t['t']
        if k == 'goto': return [t['b']]
        if k == 'switch': return [x[1] for x in t['v']] + [t['else']]
        if k in ('call', 'drop', 'assert'): return [t['b']] if t['b'] is not None and t['b'] >= 0 else []
        return []
    def loop_heads(self, b):
        heads = {}; state = {}
        stack = [(0, iter(self.succs(b['bbs'][0]['t'])))]
        state[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in state:
                    state[m] = 1
                    stack.append((m, iter(self.succs(b['bbs'][m]['t']))))
                    break
                elif state[m] == 1: heads.setdefault(m, set()).add(n)
            else:
                state[n] = 2; stack.pop()
        return heads
    def c_place(self, p, body):
        """-> (local, steps, final type)"""
        t = body['locals'][p['l']]
        steps = []
        for e in p['p']:
            k = e[0]
            if k == '*':
                t = self.ty.pointee(t)
                steps.append(('*', t))
            elif k == 'f':
                m = self.ty.main(t)
                if m is not None:
                    if e[1] != m and self.T[e[2]].get('size', 1) == 0: steps.append(('zst',))
                elif self.T[t]['k'] == 'adt' and self.T[t]['path'] in OPAQUE_ADT: steps.append(('bad', 'field of an opaque type'))
                else: steps.append(('f', e[1]))
                t = e[2]
            elif k == 'i':
                t = self.T[self.ty.strip(t)]['e']; steps.append(('i', e[1]))
            elif k == 'ci':
                t = self.T[self.ty.strip(t)]['e']; steps.append(('ci', e[1], e[2]))
            elif k == 'ss': steps.append(('ss', e[1], e[2], e[3]))
            elif k == 'd': pass
            else: steps.append(('bad', str(e)))
        return p['l'], tuple(steps), t
    def c_loc(self, p, body):
        """closure (st, fr) -> (base, path, slice or None)"""
        l, steps, t = self.c_place(p, body)
        if not steps:
            def f(st, fr): return ('L', fr.uid, l), (), None
            return f, t
        I = self
        if all(s[0] == 'f' for s in steps):
            path = steps
            def f(st, fr): return ('L', fr.uid, l), path, None
            return f, t
        def f(st, fr):
            base = ('L', fr.uid, l); path = (); slc = None
            for s in steps:
                k = s[0]
                if k == 'f': path += (s,)
                elif k == '*':
                    v = I.read(st, base, path)
                    if type(v) is not Ptr:
                        if type(v) is Lazy: v = I.lazy(st, v)
                        if v is UNINIT: raise Bad('access', 'dereference of an uninitialised pointer')
                        if type(v) is not Ptr: raise Undecided(f'dereference of {v}')
                    base, path = v.base, v.path
                    slc = None if v.ln is None else (v.off, v.ln)
                elif k == 'i':
                    i = I.read(st, ('L', fr.uid, s[1]), ())
                    if slc: path += (('i', st.norm(slc[0] + i)),); slc = None
                    else: path += (('i', i),)
                elif k == 'ci':
                    if slc:
                        i = L(s[1]) if not s[2] else slc[1] - s[1]
                        path += (('i', st.norm(slc[0] + i)),); slc = None
                    else:
                        if s[2]: raise Undecided('const index from end')
                        path += (('i', L(s[1])),)
                elif k == 'ss':
                    if not slc: raise Undecided('subslice of array')
                    o, n = slc
                    a = o + s[1]; e2 = (o + n - s[2]) if s[3] else (o + s[2])
                    slc = (st.norm(a), st.norm(e2 - a))
                elif k == 'zst': return ('Z',), (), None
                else: raise Undecided(str(s))
            return base, path, slc
        return f, t
    def c_read(self, p, body):
        l, steps, t = self.c_place(p, body)
        if self.T[t].get('size') == 0 and (self.T[t]['k'] in ('tuple', 'fndef', 'closure') or (self.T[t]['k'] == 'adt' and self.T[t]['kind'] != 'enum')):
            z = self.zst(t)
            return lambda st, fr: z
        I = self
        if not steps:
            def f(st, fr):
                return st.mem.get(('L', fr.uid, l), UNINIT)
            return f
        loc, _ = self.c_loc(p, body)
        def f(st, fr):
            b, pa, slc = loc(st, fr)
            if b == ('Z',): return UNIT
            if slc: raise Undecided('read of an unsized place')
            return I.read(st, b, pa)
        return f
    def zst(self, t):
        T = self.T[t]
        if T['k'] == 'fndef': return FnV(T.get('inst', -1))
        if T['k'] == 'array': return Arr((('F', L(T['n']), UNIT),)) if T['n'] else Arr(())
        return UNIT
    def c_op(self, o, body):
        k = o['o']
        if k in ('copy', 'move'): return self.c_read(o['p'], body)
        if k == 'const':
            v = self.cval(o['v'])
            return lambda st, fr: v
        if k == 'rtcheck': return lambda st, fr: False
        raise Undecided(k)
    def cval(self, v):
        c = v['c']
        if c == 'int':
            T = self.T[v['t']]
            if T['s'] == 'bool': return bool(v['v'])
            n = int(v['v'])
            b = self.ty.bits(v['t'])
            if b is None: return Opq(('int', n))
            if self.ty.signed(v['t']) and n >= W(b - 1): n -= W(b)
            return L(n)
        if c == 'zst': return self.zst(v['t']) if 't' in v else UNIT
        if c == 'fn': return FnV(self.T[v['t']].get('inst', -1))
        if c == 'agg': return self.agg_const(v)
        if c == 'ref':
            return Opq(('ref', repr(v)[:60])) if 'v' not in v else ConstRef(self.cval(v['v']))
        if c == 'str': return Ptr(('X', 'text'))
        return Opq((c, repr(v)[:60]))
    def agg_const(self, v):
        t = v.get('t')
        fs = [self.cval(x) for x in v['f']]
        if t is not None:
            T = self.T[t]
            if T['k'] == 'array': return Arr(tuple(('1', ONE, x) for x in fs))
            if T['k'] == 'adt' and T['kind'] == 'enum': return Agg(v['variant'], fs)
            m = self.ty.main(t)
            if m is not None: return fs[m]
            return Agg(None, fs)
        return Agg(v.get('variant'), fs)
    def c_stmt(self, s, body):
        k = s['s']
        if k == 'assign':
            rv = self.c_rv(s['r'], body, s['p']['t'])
            loc, t = self.c_loc(s['p'], body)
            if not s['p']['p']:
                l = s['p']['l']
                def f(I, st, fr): st.mem[('L', fr.uid, l)] = rv(I, st, fr)
                return f
            def f(I, st, fr):
                v = rv(I, st, fr)
                b, p, slc = loc(st, fr)
                if b == ('Z',): return
                I.write(st, b, p, v)
            return f
        if k == 'live': return None
        if k == 'dead':
            l = s['l']
            def f(I, st, fr): st.mem.pop(('L', fr.uid, l), None)
            return f
        if k == 'setd':
            loc, t = self.c_loc(s['p'], body)
            var = s['v']
            def f(I, st, fr):
                b, p, _ = loc(st, fr)
                old = I.read(st, b, p)
                I.write(st, b, p, Agg(var, old.f if type(old) is Agg else ()))
            return f
        if k == 'assume':
            return None
        if k == 'cpno':
            a, d, n = self.c_op(s['src'], body), self.c_op(s['dst'], body), self.c_op(s['n'], body)
            def f(I, st, fr): I.memcpy(st, a(st, fr), d(st, fr), n(st, fr), overlap=False)
            return f
        return None
    def memcpy(self, st, src, dst, n, overlap):
        segs = self.read_n(st, src, n)
        if n.is_const() and n.c == 0: return
        if not overlap and src.base == dst.base and src.path[:-1] == dst.path[:-1] and src.path and src.path[-1][0] == 'i' and dst.path[-1][0] == 'i':
            a, b = src.path[-1][1], dst.path[-1][1]
            if not st.facts.ge(a, b + n) and not st.facts.ge(b, a + n):
                if not st.decide('ge', a, b + n) and not st.decide('ge', b, a + n):
                    if st.decide('ge', n, 1): raise Bad('access', 'copy_nonoverlapping on overlapping ranges')
        self.write_n(st, dst, n, segs)
    def read_n(self, st, p, n):
        """segments of n elements starting at pointer p"""
        if type(p) is not Ptr: raise Undecided(f'memory copy through {p}')
        if p.path and p.path[-1][0] == 'i':
            v = self.read(st, p.base, p.path[:-1])
            if type(v) is Arr: return st.sub(v.segs, p.path[-1][1], n)
            if type(v) is VecV: return st.sub(v.arr.segs, p.path[-1][1], n)
        if st.same(n, 1): return (('1', ONE, self.read(st, p.base, p.path)),)
        if st.decide('eq', n, 0): return ()
        raise Undecided('copy from non-array')
    def write_n(self, st, p, n, segs):
        if type(p) is not Ptr: raise Undecided(f'memory copy through {p}')
        if p.path and p.path[-1][0] == 'i':
            v = self.read(st, p.base, p.path[:-1])
            if type(v) in (Arr, VecV):
                a = v if type(v) is Arr else v.arr
                new = Arr(st.replace(a.segs, p.path[-1][1], n, segs))
                self.write(st, p.base, p.path[:-1], new if type(v) is Arr else VecV(v.ln, new))
                return
        if st.same(n, 1):
            v = st.elem(segs, ZERO)
            self.write(st, p.base, p.path, v)
            return
        raise Undecided('copy to non-array')

    # ---- rvalues
    def c_rv(self, r, body, dt):
        k = r['r']; I0 = self
        if k == 'use':
            o = self.c_op(r['o'], body)
            un = self.ty.uninit(dt)
            if type(un) is Arr:
                def f(I, st, fr):
                    v = o(st, fr)
                    return un if (v is UNINIT or type(v) is Opq) else v
                return f
            if r['o']['o'] == 'const' and r['o']['v']['c'] not in ('int', 'zst', 'fn', 'agg', 'ref', 'str'):
                return lambda I, st, fr: UNINIT
            def f(I, st, fr):
                v = o(st, fr)
                if type(v) is ConstRef: return v.ptr(st)
                return v
            return f
        if k == 'repeat':
            o = self.c_op(r['o'], body); n = r['n']
            def f(I, st, fr):
                v = o(st, fr)
                if v is UNINIT or type(v) is Opq: return Arr((('U', L(n)),))
                return Arr((('F', L(n), v),))
            return f
        if k in ('ref', 'rawptr'):
            loc, t = self.c_loc(r['p'], body)
            def f(I, st, fr):
                b, p, slc = loc(st, fr)
                if slc: return Ptr(b, p, slc[0], slc[1])
                return Ptr(b, p)
            return f
        if k == 'cast': return self.c_cast(r, body, dt)
        if k == 'bin': return self.c_bin(r, body, dt)
        if k == 'un':
            a = self.c_op(r['a'], body); op = r['op']
            def f(I, st, fr):
                v = a(st, fr)
                if op == 'Not':
                    if type(v) is bool: return not v
                    raise Undecided('bitwise not')
                if op == 'PtrMetadata':
                    if type(v) is Ptr: return v.ln if v.ln is not None else UNIT
                    raise Undecided('metadata')
                if op == 'Neg': return -v
                raise Undecided(op)
            return f
        if k == 'discr':
            loc, t = self.c_loc(r['p'], body)
            T = self.T[t]
            vs = None
            if T['k'] == 'adt':
                bits = self.ty.bits(dt) or 64; vs = []
                for v in T['variants']:
                    d = int(v['d']) % W(bits)
                    if self.ty.signed(dt) and d >= W(bits - 1): d -= W(bits)
                    vs.append(L(d))
            if T['k'] == 'adt' and T.get('size') == 0:
                live = [i for i, v in enumerate(T['variants']) if not any(self.T[x[1]]['s'] == '!' for x in v['fields'])]
                if len(live) == 1:
                    only = vs[live[0]]
                    return lambda I, st, fr: only
            def f(I, st, fr):
                b, p, _ = loc(st, fr)
                v = I.read(st, b, p)
                return I.discr(st, v, vs)
            return f
        if k == 'agg':
            ops = [self.c_op(o, body) for o in r['f']]
            kk = r['k']
            if kk == 'array':
                T = self.T[dt]
                def f(I, st, fr): return Arr(st.norm_segs(tuple(('1', ONE, o(st, fr)) for o in ops)))
                return f
            if kk == 'adt':
                T = self.T[dt]
                if T['kind'] == 'enum':
                    var = r['variant']
                    def f(I, st, fr): return Agg(var, [o(st, fr) for o in ops])
                    return f
                m = self.ty.main(dt)
                if m is not None:
                    if T['kind'] == 'union':
                        uf = r['uf']
                        if uf != m:
                            un = self.ty.uninit(dt)
                            return lambda I, st, fr: un
                        return lambda I, st, fr: ops[0](st, fr)
                    return lambda I, st, fr: ops[m](st, fr)
                def f(I, st, fr): return Agg(None, [o(st, fr) for o in ops])
                return f
            if kk in ('tuple', 'closure'):
                def f(I, st, fr): return Agg(None, [o(st, fr) for o in ops])
                return f
            if kk == 'rawptr':
                def f(I, st, fr):
                    p, m = ops[0](st, fr), ops[1](st, fr)
                    if type(m) is Lin: return I.mk_slice(st, p, m)
                    return p
                return f
        def f(I, st, fr): raise Undecided(f'rvalue {k}')
        return f
    def mk_slice(self, st, p, n):
        if type(p) is not Ptr: raise Undecided('slice from ' + repr(p))
        if p.path and p.path[-1][0] == 'i':
            return Ptr(p.base, p.path[:-1], p.path[-1][1], st.norm(n))
        if st.same(n, 0): return Ptr(p.base, p.path, ZERO, ZERO)
        raise Undecided('slice from non-element pointer')
    def discr(self, st, v, vs):
        if type(v) is Lazy: v = self.lazy(st, v)
        if type(v) is Nd:
            kd = st.kind(v.nid)
            if kd == 'alias': kd = 'L'
            return vs[0 if kd == 'I' else 1]
        if type(v) is Agg:
            if v.v is None: raise Undecided(f'discriminant of {v}')
            return vs[v.v] if vs else L(v.v)
        if type(v) is bool: return L(int(v))
        if v is UNINIT: raise Bad('access', 'discriminant of an uninitialised value')
        raise Undecided(f'discriminant of {v}')
    def c_cast(self, r, body, dt):
        o = self.c_op(r['o'], body); k = r['k']
        sp = r['o']
        st_ = sp['p']['t'] if sp['o'] in ('copy', 'move') else sp['v'].get('t')
        ty = self.ty
        if k == 'IntToInt':
            b = ty.bits(dt)
            def f(I, st, fr):
                v = o(st, fr)
                if type(v) is bool: return L(int(v))
                if type(v) is not Lin: raise Undecided(f'cast of {v}')
                if b is None: raise Undecided('cast')
                if ty.signed(dt): lo, hi = -W(b - 1), W(b - 1)
                else: lo, hi = 0, W(b)
                if st.facts.ge(v, lo) and st.facts.gt(hi, v): return v
                if v.is_const(): return L((v.c - lo) % W(b) + lo)
                if not st.decide('ge', v, lo) or not st.decide('lt', v, hi):
                    return st.fsym('wr', lo, hi - 1)
                return v
            return f
        # pointer casts: array pointer to element pointer
        a_s = ty.pointee(st_) if st_ is not None else None
        a_d = ty.pointee(dt)
        if 'Unsize' in k:
            A = self.T[ty.strip(a_s)] if a_s is not None else None
            if A and A['k'] == 'array':
                n = L(A['n'])
                def f(I, st, fr):
                    v = o(st, fr)
                    if type(v) is ConstRef: v = v.ptr(st)
                    if type(v) is not Ptr: raise Undecided('unsize')
                    return Ptr(v.base, v.path, ZERO, n)
                return f
            return lambda I, st, fr: o(st, fr)
        if a_s is not None and a_d is not None and k in ('PtrToPtr', 'Transmute', 'BoxDerefTransmute'):
            A = self.T[ty.strip(a_s)]; D = self.T[ty.strip(a_d)]
            if A['k'] == 'array' and D['k'] != 'array':
                def f(I, st, fr):
                    v = o(st, fr)
                    if type(v) is not Ptr: return v
                    return Ptr(v.base, v.path + (('i', ZERO),))
                return f
            if A['k'] == 'slice' and D['k'] != 'slice':
                def f(I, st, fr):
                    v = o(st, fr)
                    if type(v) is not Ptr: return v
                    return Ptr(v.base, v.path + (('i', v.off),))
                return f
            if D['k'] == 'array' and A['k'] != 'array':
                nD = D['n']
                def f(I, st, fr):
                    v = o(st, fr)
                    if type(v) is Ptr and v.path and v.path[-1][0] == 'i' and st.same(v.path[-1][1], 0): return Ptr(v.base, v.path[:-1])
                    raise Undecided('cast to array pointer')
                return f
            return lambda I, st, fr: o(st, fr)
        if k == 'Transmute':
            def f(I, st, fr): return o(st, fr)
            return f
        return lambda I, st, fr: o(st, fr)
    def c_bin(self, r, body, dt):
        a = self.c_op(r['a'], body); b = self.c_op(r['b'], body); op = r['op']
        ao = r['a']
        at = ao['p']['t'] if ao['o'] in ('copy', 'move') else ao['v'].get('t')
        bits = self.ty.bits(at) if at is not None else None
        signed = self.ty.signed(at) if bits else False
        names = {'Eq': 'eq', 'Ne': 'ne', 'Lt': 'lt', 'Le': 'le', 'Gt': 'gt', 'Ge': 'ge'}
        if op in names:
            n = names[op]
            def f(I, st, fr):
                x, y = a(st, fr), b(st, fr)
                if type(x) is Lin and type(y) is Lin: return st.decide(n, x, y)
                return I.cmp_other(st, n, x, y)
            return f
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            def f(I, st, fr):
                x, y = a(st, fr), b(st, fr)
                if type(x) is bool and type(y) is bool:
                    return (x and y) if op == 'BitAnd' else (x or y) if op == 'BitOr' else (x != y)
                if type(x) is Lin and type(y) is Lin and x.is_const() and y.is_const():
                    return L({'BitAnd': x.c & y.c, 'BitOr': x.c | y.c, 'BitXor': x.c ^ y.c}[op])
                return st.fsym('bw', 0)
            return f
        if op == 'Offset':
            def f(I, st, fr): return I.ptr_add(st, a(st, fr), b(st, fr))
            return f
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        ovf = op.endswith('WithOverflow')
        def arith(I, st, x, y):
            if type(x) is not Lin or type(y) is not Lin: raise Undecided(f'{op} of {x} {y}')
            if base == 'Add': return x + y
            if base == 'Sub': return x - y
            if base == 'Mul':
                if x.is_const(): return y.scale(x.c)
                if y.is_const(): return x.scale(y.c)
                x, y = st.norm(x), st.norm(y)
                if x.is_const(): return y.scale(x.c)
                if y.is_const(): return x.scale(y.c)
                r_ = st.fsym('mul', 0)
                return r_
            y = st.norm(y)
            if not y.is_const():
                if base in ('Div', 'Rem'): return st.fsym('div', 0)
                raise Undecided(f'{op} by a variable')
            c = y.c
            if base == 'Shl': return x.scale(1 << c)
            if base == 'Shr': c = 1 << c; bs = 'Div'
            else: bs = base
            if c <= 0: raise Undecided('division')
            x = st.norm(x)
            if x.is_const(): return L(x.c // c if bs == 'Div' else x.c % c)
            q = st.fsym('q', 0)
            st.facts = st.facts.add_ge(x - q.scale(c)).add_ge(q.scale(c) + (c - 1) - x)
            return q if bs == 'Div' else x - q.scale(c)
        def f(I, st, fr):
            x, y = a(st, fr), b(st, fr)
            v = arith(I, st, x, y)
            lo, hi = (-W(bits - 1), W(bits - 1)) if signed else (0, W(bits))
            ok = (base in ('Div', 'Rem', 'Shr')) or (st.decide('ge', v, lo) if base == 'Sub' or signed else True)
            if ok and base in ('Add', 'Mul', 'Shl'):
                if bits == 64:
                    # positions, lengths and indices are bounded by the address space
                    ok = True if not v.is_const() else v.c < hi
                else: ok = st.decide('lt', v, hi)
            if ovf:
                return Agg(None, (v if ok else st.fsym('wr', lo, hi - 1), not ok))
            if ok: return v
            if op.endswith('Unchecked'): raise Bad('access', f'unchecked {base} overflows')
            if base == 'Sub': return v + hi
            return st.fsym('wr', lo, hi - 1)
        return f
    def cmp_other(self, st, op, x, y):
        if type(x) is bool and type(y) is bool:
            return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[op]
        if type(x) is bool: return st.decide(op, L(int(x)), y)
        if type(y) is bool: return st.decide(op, x, L(int(y)))
        if type(x) is Agg and type(y) is Agg and not x.f and not y.f and op in ('eq', 'ne'):
            return (x.v == y.v) == (op == 'eq')
        if type(x) is Ptr and type(y) is Ptr and op in ('eq', 'ne'):
            if x.base != y.base: return op == 'ne'
            if x.path == y.path and x.off == y.off: return op == 'eq'
            if len(x.path) == len(y.path) and x.path[:-1] == y.path[:-1] and x.path and x.path[-1][0] == 'i':
                return st.decide(op, x.path[-1][1], y.path[-1][1])
        raise Undecided(f'comparison of {x} and {y}')
    def ptr_add(self, st, p, n):
        if type(p) is not Ptr: raise Undecided('pointer arithmetic on ' + repr(p))
        n = st.norm(n)
        if p.path and p.path[-1][0] == 'i':
            return Ptr(p.base, p.path[:-1] + (('i', st.norm(p.path[-1][1] + n)),))
        if n.is_const() and n.c == 0: return p
        raise Undecided('pointer arithmetic outside an array')

    # ---- terminators: closures (I, st, fr) -> None; they set fr.bb or push/pop frames
    def c_term(self, t, body):
        k = t['t']
        if k == 'goto':
            b = t['b']
            def f(I, st, fr): fr.bb = b; fr.si = 0
            return f
        if k == 'switch':
            o = self.c_op(t['o'], body)
            arms = [(int(v), b) for v, b in t['v']]; els = t['else']
            ty = t['ty']
            bits = self.ty.bits(ty)
            sg = bits and self.ty.signed(ty)
            arms = [((v - W(bits)) if sg and v >= W(bits - 1) else v, b) for v, b in arms]
            def f(I, st, fr):
                v = o(st, fr)
                if type(v) is bool: v = int(v)
                elif type(v) is Lin:
                    v = st.norm(v)
                    if v.is_const(): v = v.c
                    else:
                        for n, b in arms:
                            if st.decide('eq', v, n): fr.bb = b; fr.si = 0; return
                        fr.bb = els; fr.si = 0; return
                else: raise Undecided(f'switch on {v}')
                for n, b in arms:
                    if n == v: fr.bb = b; fr.si = 0; return
                fr.bb = els; fr.si = 0
            return f
        if k == 'return':
            def f(I, st, fr): I.do_return(st, fr)
            return f
        if k == 'call': return self.c_call(t, body)
        if k == 'drop':
            loc, ty_ = self.c_loc(t['p'], body)
            b = t['b']; u = t['u']
            nd = self.T[ty_]['needs_drop']
            def f(I, st, fr):
                if not nd: fr.bb = b; fr.si = 0; return
                ba, p, slc = loc(st, fr)
                fr.bb = b; fr.si = 0
                I.push_drop(st, [('place', ba, p, slc, ty_)], u)
            return f
        if k == 'assert':
            o = self.c_op(t['o'], body); e = bool(t['e']); b = t['b']; u = t['u']
            def f(I, st, fr):
                v = o(st, fr)
                if type(v) is not bool: raise Undecided('assert')
                if v == e: fr.bb = b; fr.si = 0
                else: raise PanicAt('assertion / bounds check fails', u)
            return f
        if k == 'unreachable':
            def f(I, st, fr): raise Bad('access', 'unreachable code is reached')
            return f
        if k == 'resume':
            def f(I, st, fr): I.unwind_pop(st)
            return f
        if k == 'terminate':
            def f(I, st, fr): st.frames.clear(); st.g['exit'] = 'abort'
            return f
        def f(I, st, fr): raise Undecided(f'terminator {k}')
        return f
    def c_call(self, t, body):
        fo = self.c_op(t['f'], body)
        args = [self.c_op(o, body) for o in t['a']]
        dst, dty = self.c_loc(t['d'], body)
        simple = t['d']['l'] if not t['d']['p'] else None
        nb = t['b']; u = t['u']
        def f(I, st, fr):
            fv = fo(st, fr)
            if type(fv) is not FnV: raise Undecided(f'indirect call through {fv}')
            if fv.inst < 0: raise Undecided('unresolved callee')
            inst = I.prog.insts[fv.inst]
            vs = [a(st, fr) for a in args]
            for i, v in enumerate(vs):
                if type(v) is ConstRef: vs[i] = v.ptr(st)
            m = I.model_of(inst)
            if I.call_hook: I.call_hook(I, st, fr, inst, vs)
            if m is not None:
                try: v = m(I, st, inst, vs)
                except Panic as p: raise PanicAt(p.why, u, p.user)
                if v is PUSHED:
                    # the model pushed a frame; complete its return linkage
                    nf = st.frames[-1]
                    if simple is not None: nf.ret = (('L', fr.uid, simple), ())
                    else: nf.ret = dst(st, fr)[:2]
                    nf.unw = u
                    fr.bb = nb; fr.si = 0
                    return
                if nb < 0: raise Undecided(f'{inst["path"]} should not return')
                if simple is not None: st.mem[('L', fr.uid, simple)] = v
                else:
                    b, p, _ = dst(st, fr)
                    if b != ('Z',): I.write(st, b, p, v)
                fr.bb = nb; fr.si = 0
                return
            if inst['body'] is None: raise Undecided(f'no body: {inst["full"][:90]}')
            r = (('L', fr.uid, simple), ()) if simple is not None else dst(st, fr)[:2]
            I.push_call(st, inst, vs, r, u)
            fr.bb = nb; fr.si = 0
        return f
    def model_of(self, inst):
        m = self.models.get(inst['id'], 0)
        if m == 0:
            import models
            m = self.models[inst['id']] = models.lookup(self, inst)
        return m
    def push_call(self, st, inst, vs, ret, u):
        b = inst['body']
        if len(st.frames) > 60: raise Undecided('call depth')
        uid = st.fresh_uid()
        if '{closure#' in inst['name'] or inst['path'].rsplit('::', 1)[-1].startswith('{closure#'):
            # rust-call: the argument tuple is spread over the locals
            if len(vs) == 2 and type(vs[1]) is Agg: vs = [vs[0]] + list(vs[1].f)
            elif len(vs) == 1: pass
        if b['spread'] is not None and b['spread'] >= 0:
            sp = b['spread']
            if len(vs) >= sp and not (len(vs) == sp and type(vs[-1]) is Agg and vs[-1].v is None):
                vs = list(vs[:sp - 1]) + [Agg(None, vs[sp - 1:])]
        if len(vs) != b['argc']: raise Undecided(f'arity of {inst["full"][:60]}: {len(vs)} vs {b["argc"]}')
        for i, v in enumerate(vs): st.mem[('L', uid, i + 1)] = v
        if inst['crate'] == 'sweep_bptree': st.trace = (st.trace, inst['name'])
        st.frames.append(Frame(inst, b, uid, ret, None, u, 'fn', st.splits))
    def call_closure(self, st, f, fty, args):
        """push a call of closure value f (type fty)"""
        ty = fty
        T = self.T[ty]
        by_ref = f
        if T['k'] in ('ref', 'ptr'):
            by_ref = self.read(st, f.base, f.path); T = self.T[T['e']]
        if T['k'] == 'fndef':
            inst = self.prog.insts[T['inst']]
            m = self.model_of(inst)
            if m is not None:
                # run the model through a tiny trampoline frame
                v = m(self, st, inst, list(args))
                if v is PUSHED: return
                st.frames.append(Frame(None, None, st.fresh_uid(), None, None, 'continue', 'value', v))
                return
            self.push_call(st, inst, list(args), None, 'continue')
            return
        if T['k'] != 'closure' or 'inst' not in T: raise Undecided('call of ' + T['s'][:60])
        inst = self.prog.insts[T['inst']]
        if inst['body'] is None: raise Undecided('closure body')
        b = inst['body']
        selfty = self.T[b['locals'][1]]
        if selfty['k'] in ('ref', 'ptr'):
            if type(by_ref) is Ptr and self.T[fty]['k'] in ('ref', 'ptr'): me = by_ref
            elif self.T[fty]['k'] in ('ref', 'ptr'): me = f
            else:
                base = ('X', st.fresh('clo')); st.mem[base] = f; me = Ptr(base)
        else: me = by_ref
        uid = st.fresh_uid()
        vs = [me] + list(args)
        if len(vs) != b['argc']: raise Undecided('closure arity')
        for i, v in enumerate(vs): st.mem[('L', uid, i + 1)] = v
        st.frames.append(Frame(inst, b, uid, None, None, 'continue'))
    def sub(self, st, f, fty, args):
        """evaluate a closure call to completion on st (deterministic part only)"""
        d = len(st.frames)
        keep = st.frames[:]
        st.frames.append(Frame(None, None, st.fresh_uid(), None, None, 'continue', 'stop'))
        self.call_closure(st, f, fty, args)
        top = st.frames[-1]
        rb = ('X', st.fresh('sub'))
        top.ret = (rb, ())
        if top.kind == 'value': st.mem[rb] = top.data; st.frames.pop()
        n = 0
        try:
            while len(st.frames) > d + 1:
                self.step(st); n += 1
                if n > 2000: raise Undecided('closure does not finish')
        except PanicAt as p: raise Panic(p.why, p.user)
        finally:
            st.frames[:] = keep
        return st.mem.pop(rb, UNIT)
    def do_return(self, st, fr):
        v = st.mem.get(('L', fr.uid, 0), UNIT)
        ret = fr.ret
        if fr.data is not None and st.splits > fr.data and fr.inst['crate'] == 'sweep_bptree': st.back = True
        st.frames.pop()
        if ret is not None and ret[0] != ('Z',): self.write(st, ret[0], ret[1], v)
        self.drop_locals(st, fr)
        if st.frames: st.frames[-1] = st.frames[-1].copy()
        else: st.g['exit'] = 'return'; st.g['result'] = v
    def drop_locals(self, st, fr):
        if fr.inst is None: return
        n = len(fr.body['locals']); m = st.mem; u = fr.uid
        for i in range(n): m.pop(('L', u, i), None)
    # ---- unwinding
    def unwind_to(self, st, u):
        """control leaves a call site with unwind action u in the top frame"""
        st.unwinding = True
        fr = st.frames[-1]
        if isinstance(u, int): fr.bb = u; fr.si = 0; return
        if u == 'terminate': st.frames.clear(); st.g['exit'] = 'abort'; return
        self.unwind_pop(st)
    def unwind_pop(self, st):
        fr = st.frames.pop()
        self.drop_locals(st, fr)
        if not st.frames: st.g['exit'] = 'unwind'; return
        st.frames[-1] = st.frames[-1].copy()
        if st.frames[-1].kind == 'drop': return     # remaining drops still run
        self.unwind_to(st, fr.unw)

    # ---- drops
    def push_drop(self, st, items, u):
        fr = Frame(None, None, st.fresh_uid(), None, None, u, 'drop', tuple(items))
        st.frames.append(fr)
    def step_drop(self, st, fr):
        items = fr.data
        if not items:
            st.frames.pop()
            if st.frames: st.frames[-1] = st.frames[-1].copy()
            else: st.g['exit'] = 'return'; st.g['result'] = UNIT
            return
        it = items[0]
        k = it[0]
        if k == 'free':
            b = it[1]
            fr.data = items[1:]
            st.freed = st.freed + (b,)
            st.mem.pop(b, None)
            return
        if k == 'call':
            _, inst, vs = it
            fr.data = items[1:]
            self.push_call(st, inst, list(vs), None, 'continue')
            return
        if k == 'tok':
            fr.data = items[1:]
            self.log_drop(st, it[1])
            return
        if k == 'node':            # an untouched original node and everything below it
            fr.data = items[1:]
            st.g['dropped_nodes'] = st.g.get('dropped_nodes', ()) + (it[1],)
            return
        _, base, path, slc, t = it
        new = self.drop_items(st, base, path, slc, t)
        fr.data = tuple(new) + items[1:]
    def log_drop(self, st, seg):
        st.drops = st.drops + (seg,)
    def drop_items(self, st, base, path, slc, t):
        T = self.T[t]
        if not T['needs_drop']: return []
        if slc is not None:
            v = self.read(st, base, path)
            segs = st.sub(v.segs if type(v) is Arr else v.arr.segs, slc[0], slc[1])
            return self.drop_segs(st, segs, self.T[t]['e'] if T['k'] == 'slice' else t, base, path, slc[0])
        out = []
        k = T['k']
        if k == 'adt' and T.get('drop_impl') is not None and not (T['path'] in OPAQUE_ADT):
            out.append(('call', self.prog.insts[T['drop_impl']], (Ptr(base, path),)))
            return out + [('place*', base, path, None, t)] if False else out + self.drop_fields(st, base, path, t, lazy=True)
        return self.drop_fields(st, base, path, t)
    def drop_fields(self, st, base, path, t, lazy=False):
        T = self.T[t]; k = T['k']
        if k == 'adt':
            if T['path'] in OPAQUE_ADT:
                v = self.read(st, base, path)
                return self.drop_user(st, v)
            if T.get('box'):
                if lazy: raise Undecided('box with drop impl')
                v = self.read(st, base, path)
                if type(v) is Lazy: v = self.lazy(st, v)
                if v is UNINIT: raise Bad('drop', 'an uninitialised Box is dropped')
                if type(v) is not Ptr: raise Undecided(f'drop of box {v}')
                pt = T['args'][0]
                return [('place', v.base, v.path, (v.off, v.ln) if v.ln is not None else None, pt), ('free', v.base)]
            if T['path'] in VEC:
                v = self.read(st, base, path)
                et = T['args'][0]
                if type(v) is VecV: return self.drop_segs(st, st.sub(v.arr.segs, ZERO, v.ln), et, base, path, ZERO)
                if type(v) is StoreV: return self.drop_store(st, v, et, base, path)
                raise Undecided(f'drop of Vec {v}')
            if T['path'] in ('std::array::IntoIter', 'std::vec::IntoIter', 'core::array::IntoIter', 'alloc::vec::IntoIter'):
                v = self.read(st, base, path)
                if type(v) is Agg and 'rest' in st.g: return [('tok', s) for s in st.g['rest'](st)]
                if type(v) is not It: raise Undecided(f'drop of {T["s"][:50]}')
                et = T['args'][0]
                if not self.T[et]['needs_drop']: return []
                a = self.read(st, v.base, v.path)
                segs = st.sub((a if type(a) is Arr else a.arr).segs, v.i, st.norm(v.end - v.i))
                return self.drop_segs(st, segs, et, v.base, v.path, v.i)
            if T['kind'] == 'union': return []
            if T['path'].endswith('ManuallyDrop'): return []
            if T['kind'] == 'struct':
                m = self.ty.main(t); out = []
                for i, f in enumerate(T['variants'][0]['fields']):
                    if not self.T[f[1]]['needs_drop']: continue
                    if m is not None: out.append(('place', base, path, None, f[1]))
                    else: out.append(('place', base, path + (('f', i),), None, f[1]))
                if T['crate'] not in ('sweep_bptree', 'probe') and T.get('has_drop'):
                    raise Undecided(f'drop of {T["s"][:60]}')
                return out
            v = self.read(st, base, path)
            if type(v) is Lazy: v = self.lazy(st, v)
            if v is UNINIT: raise Bad('drop', f'an uninitialised {T["s"][:40]} is dropped')
            if type(v) is not Agg or v.v is None: raise Undecided(f'drop of enum {v}')
            return [('place', base, path + (('f', i),), None, f[1]) for i, f in enumerate(T['variants'][v.v]['fields']) if self.T[f[1]]['needs_drop']]
        if k in ('tuple', 'closure'):
            return [('place', base, path + (('f', i),), None, f) for i, f in enumerate(T['fields']) if self.T[f]['needs_drop']]
        if k == 'array':
            v = self.read(st, base, path)
            return self.drop_segs(st, v.segs, T['e'], base, path, ZERO)
        raise Undecided(f'drop of {T["s"][:50]}')
    def drop_user(self, st, v):
        if type(v) is Tok: return [] if v.src[0] == 'ug' else [('tok', ('S', ONE, v.src, v.idx))]
        if v is UNINIT: raise Bad('drop', 'an uninitialised slot is dropped')
        raise Undecided(f'drop of {v}')
    def drop_segs(self, st, segs, et, base, path, off):
        out = []; E = self.T[et]
        if not E['needs_drop']: return out
        user = E['k'] == 'adt' and E['path'] in OPAQUE_ADT
        pos = off
        for s in segs:
            if s[0] == 'S': out.append(('tok', s))
            elif s[0] == '1': out.append(('place', base, path + (('i', pos),), None, et))
            elif s[0] == 'U':
                if st.decide('ge', s[1], 1): raise Bad('drop', 'uninitialised slots are dropped')
            else: raise Undecided(f'drop of segment {s[0]}')
            pos = st.norm(pos + s[1])
        return out
    def drop_store(self, st, v, et, base, path):
        kd = v.kind
        t = st.g['leaf_ty' if kd == 'L' else 'inner_ty']
        if not v.sid and kd in [x[0] for x in st.g.get('store_drop', ())]: raise Bad('drop', 'a node store is dropped twice')
        items = []
        for k, x in v.slots:
            if type(x) is Agg and x.v == 1 and type(x.f[0]) is Ptr: items += [('place', x.f[0].base, (), None, t), ('free', x.f[0].base)]
            elif not (type(x) is Agg and x.v == 0): raise Undecided('drop of a node slot')
        if v.sid: return items
        held = {k for k, x in v.slots}
        for b, x in list(st.mem.items()):
            if b[0] == 'H' and isinstance(b[1], int) and st.nodes[b[1]].kind == kd and not st.nodes[b[1]].new and b[1] not in held:
                o = st.mem.get(('O', b[1]))
                if not (o is x or o == x): items.append(('place', b, (), None, t))
        rep = None
        if self.T[t]['needs_drop']:
            # every other node of the store: one arbitrary one stands for all of them
            if kd == 'L': raise Undecided('drop of the leaves')
            lv = st.fsym('lvr', 1, 15); a = st.fsym('ar', 0); b = st.fsym('br', 0)
            st.facts = st.facts.add_ge(b - a - 1).add_ge(st.g['N'] - b)
            rep = st.new_node(lv, a, b, None)
            st.kind(rep)
            items.append(('place', ('H', rep), (), None, t))
        st.g['store_drop'] = st.g.get('store_drop', ()) + ((kd, None if rep is None else Nd(rep)),)
        return items

    # ------------------------------------------------------------------ driver
    def step(self, st):
        fr = st.frames[-1]
        if fr.kind != 'fn':
            if fr.kind == 'drop': self.step_drop(st, fr)
            elif fr.kind == 'value':
                st.frames.pop(); st.frames[-1] = st.frames[-1].copy()
                if fr.ret is not None: self.write(st, fr.ret[0], fr.ret[1], fr.data)
            elif fr.kind == 'py': fr.data(self, st, fr)
            else: raise Undecided('frame ' + fr.kind)
            return
        c = self.code.get(fr.inst['id']) or self.compiled(fr.inst)
        ss, term, tsp = c.blocks[fr.bb]
        if fr.si == 0: self.visited.add((fr.inst['id'], fr.bb))
        n = len(ss)
        i = fr.si
        try:
            while i < n:
                f, sp = ss[i]
                f(self, st, fr)
                i += 1
            fr.si = i
            i = -1
            term(self, st, fr)
        finally:
            if i >= 0: fr.si = i
        self.nsteps += 1
    def where(self, st):
        for fr in reversed(st.frames):
            if fr.kind == 'fn':
                if fr.inst['crate'] not in ('sweep_bptree', 'probe'): continue
                c = self.compiled(fr.inst)
                ss, term, tsp = c.blocks[fr.bb]
                sp = ss[fr.si][1] if fr.si < len(ss) else tsp
                return fr.inst['path'], sp
        return '?', None
    def stack(self, st):
        return [fr.inst['name'] if fr.kind == 'fn' else fr.kind for fr in st.frames]
    def run(self, init):
        work = [init]
        exits = []
        t0 = time.time()
        while work:
            st = work.pop()
            if self.deadline and time.time() > self.deadline:
                self.unknown.append(('time', '', 'time limit')); break
            while st.frames:
                if self.nsteps > self.max_steps:
                    self.unknown.append(('steps', '', 'step limit')); work = []; break
                try:
                    fr = st.frames[-1]
                    if self.merger and not st.hooked:
                        head = False
                        if fr.kind == 'fn' and fr.si == 0:
                            c = self.code.get(fr.inst['id']) or self.compiled(fr.inst)
                            head = fr.bb in c.heads and (self.allheads or fr.inst['crate'] == 'sweep_bptree')
                        if head or st.back and not self.allheads:
                            s2 = self.merger.at(self, st, 'head' if head else 'return', head)
                            if s2 is None: break
                            st = s2; st.back = False
                        st.hooked = True
                    self.step(st)
                    st.hooked = False
                    if UNW in st.choice: del st.choice[UNW]
                except Split as e:
                    self.fork(st, e, work)
                    break
                except PanicAt as p:
                    try:
                        if not self.on_panic(st, p): break
                    except Split as e: self.fork(st, e, work); break
                except Infeasible:
                    break
                except Bad as b:
                    self.report(st, b.rule, b.msg); break
                except Undecided as u:
                    w = self.where(st)
                    self.unknown.append((w[0], w[1], str(u))); break
            else:
                exits.append(st)
                if self.exit_hook: self.do_exit(st, work)
        return exits
    def do_exit(self, st, work):
        """exit checks may need to partition the state further"""
        todo = [st]
        n = 0
        while todo:
            s = todo.pop()
            n += 1
            if n > 3000: self.unknown.append(('exit', '', 'too many cases in an exit check')); return
            try:
                self.exit_hook(self, s)
            except Split as e: self.fork(s, e, todo)
            except Infeasible: pass
            except Bad as b: self.report(s, b.rule, b.msg, at_exit=True)
            except Undecided as u: self.unknown.append(('exit check', None, str(u)))
    def fork(self, st, e, work):
        k = len(e.alts)
        st.splits += 1
        for j, a in enumerate(reversed(e.alts)):
            s2 = st.copy() if j < k - 1 else st
            try:
                a(s2)
                s2.saturate()
                work.append(s2)
            except Infeasible: pass
    def on_panic(self, st, p):
        st.choice.pop(UNW, None)
        if self.mode == 'functional':
            if p.user and st.g.get('unwind'):
                st.hooked = False
                self.unwind_to(st, p.u); return True
            if p.user: return False
            if self.panic_ok and self.panic_ok(self, st, p): return False
            self.report(st, 'panic', p.why)
            return False
        self.unwind_to(st, p.u)
        return True
    def report(self, st, rule, msg, at_exit=False):
        fn, sp = self.where(st) if st.frames else ('', None)
        self.findings.append((rule, fn, msg, sp, st))

TRIVIAL = {'as_usize', 'len', 'keys', 'is_empty', 'deref', 'borrow', 'from', 'into', 'key_area', 'key_area_mut', 'augmentations', 'inner_id_unchecked', 'leaf_id_unchecked', 'values', '{closure#0}'}
def path_of(st):
    """the functions entered on the way to this state, in the order of their first call"""
    out = []; t = st.trace
    while t:
        t, n = t
        out.append(n)
    seen = set(); r = []
    for n in reversed(out):
        if n not in seen and n not in TRIVIAL: seen.add(n); r.append(n)
    return ' > '.join(r[:30])

class PanicAt(Exception):
    def __init__(self, why, u, user=False): self.why, self.u, self.user = why, u, user

class ConstRef:
    """reference to a constant"""
    __slots__ = ('v',)
    def __init__(self, v): self.v = v
    def ptr(self, st):
        base = ('X', ('const', self.v))
        st.mem[base] = self.v
        return Ptr(base)
