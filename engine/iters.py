"""Protocols: values that are used by a sequence of calls in any order. The set of states between two calls
is computed as a fixpoint: every call is analysed from every such state until no new state appears."""
import time
from lin import Lin, L, ZERO, ONE, sym, Infeasible
from dom import *
from interp import UNIT, NONE, path_of
import spec, join
from ops import op, OPS, opt, ref_at, entry_at, tree_setup, unchanged, owned
from final import Stop, Final

class Driver:
    def __init__(self, R, I, inloop=True, k=3):
        self.R, self.I = R, I
        self.exact = R.exact
        self.heads = join.Merger(1 << 30 if self.exact else k)
        if inloop and not self.exact: I.merger = join.Merger(k)
        self.queue = []
        self.rounds = 0; self.accel = 0; self.enough = None
        self.out = self.queue
    def push(self, st, post=None):
        """a state between two calls"""
        for k in ('result', 'exit'): st.g.pop(k, None)
        st.frames = []
        for b in [b for b in st.mem if b[0] == 'L']: del st.mem[b]
        st.trace = None; st.splits = 0; st.back = False; st.hooked = False
        self.out.append(st)
    def call(self, st, root, args, post):
        R = self.R
        R.post = post
        R.root = root
        spec.enter(self.I, st, root, args)
        self.I.run(st)
    def run(self, steps):
        """steps: functions of a state between two calls that make one call each"""
        while self.queue:
            if self.I.deadline and time.time() > self.I.deadline: self.I.unknown.append(('time', '', 'time limit')); return
            if self.R.stop and (self.I.findings or self.R.out_) and self.enough is not None and self.rounds > self.enough: return
            n = len(self.I.findings) + len(self.R.out_)
            if n and self.enough is None: self.enough = self.rounds + 60
            st = self.queue.pop(0)
            s = self.heads.at(self.I, st, 'between', True)
            if s is None: continue
            self.rounds += 1
            for step in steps:
                self.out = []
                step(s.copy())
                out = self.out
                if self.exact and out: out = self.accelerate(s, step, out)
                self.queue += out
            self.out = self.queue
    def accelerate(self, s, step, out):
        R, I = self.R, self.I
        try: A = join.Accel(I, s)
        except join.NoMerge: return out
        res = []
        for t in out:
            d = A.delta(t)
            if d is None: res.append(t); continue
            keep = len(I.findings), len(R.out_), len(I.unknown), R.exits
            self.out = []
            try:
                step(A.start(d))
                got = [x for x in (A.reached(d, y) for y in self.out) if x is not None]
            except (Infeasible, join.NoMerge): got = []
            del I.findings[keep[0]:]; del R.out_[keep[1]:]; del I.unknown[keep[2]:]; R.exits = keep[3]
            if got: self.accel += 1; res += got
            res.append(t)
        return res

IT = ('X', 'it')
def overridden(R, prefix):
    """the provided iterator methods the crate implements itself -> {method: root}"""
    out = {}
    for m in ('nth', 'nth_back', 'last', 'count', 'min', 'max'):
        r = f'{prefix}_{m}:{m}'
        if r in R.prog.roots and R.prog.insts[R.prog.roots[r]]['crate'] == 'sweep_bptree': out[m] = r
    return out
def provided(R, I, D, prefix, say, item, kept, ended):
    """one step per overridden method; kept(st, f, b) / ended(st, pos) finish a call that borrows / consumes the iterator"""
    def seek(root, back):
        def post(I, st):
            f, b, n = st.g['f'], st.g['b'], st.g['nn']
            r = opt(st.g['result'])
            nf, nb = f, b
            if st.decide('lt', n, st.norm(b - f)):
                pos = st.norm(b - 1 - n) if back else st.norm(f + n)
                if r is None: say('nth yields nothing although enough entries are left'); return
                if not item(R, I, st, r, pos): say('nth does not yield the entry it should'); return
                if back: nb = pos
                else: nf = st.norm(pos + 1)
            else:
                if r is not None: say('nth yields something beyond the last entry'); return
                if back: nb = f
                else: nf = b
            kept(st, nf, nb)
        def go(s):
            s.g['nn'] = s.fsym('nn', 0, 1 << 60)
            D.call(s, root, [Ptr(IT), s.g['nn']], post)
        return go
    def consume(root, m):
        def post(I, st):
            f, b = st.g['f'], st.g['b']
            r = st.g['result']
            if m == 'count':
                if not st.decide('eq', r, st.norm(b - f)): say('count is not the number of remaining entries'); return
                ended(st, None); return
            r = opt(r)
            if not st.decide('lt', f, b):
                if r is not None: say(f'{m} yields something although no entry is left'); return
                ended(st, None); return
            pos = f if m == 'min' else st.norm(b - 1)
            if r is None: say(f'{m} yields nothing although entries are left'); return
            if not item(R, I, st, r, pos): say(f'{m} does not yield the {"smallest" if m == "min" else "largest"} remaining entry'); return
            ended(st, pos)
        def go(s):
            v = I.read(s, IT, ()); s.mem.pop(IT)
            D.call(s, root, [v], post)
        return go
    return [seek(r, m == 'nth_back') if m.startswith('nth') else consume(r, m) for m, r in overridden(R, prefix).items()]

def two_ended(name, main, props, roots, item, **kw):
    """iterator over a borrowed tree, used from both ends; roots: new, next, next_back, size_hint, len, clone"""
    @op(name, main, props, root=roots[0], **kw)
    def f(R, I, inst):
        st = tree_setup(R, I, inst)
        st.g['tree0'] = st.mem[('X', 'tree')]; st.g['readonly'] = True
        D = Driver(R, I); R.driver = D
        say = lambda m: R.emit(main, m)
        def post_new(I, st):
            st.mem[IT] = st.g['result']
            unchanged(R, I, st)
            st.g['f'] = ZERO; st.g['b'] = st.g['N']
            D.push(st)
        D.call(st, roots[0], [Ptr(('X', 'tree'))], post_new)
        def stepper(root, back):
            def post(I, st):
                f, b = st.g['f'], st.g['b']
                r = opt(st.g['result'])
                if st.decide('lt', f, b):
                    pos = st.norm(b - 1) if back else f
                    if r is None: say('an end of the iterator stops before all entries were yielded'); return
                    if not item(R, I, st, r, pos): say(f'{"next_back" if back else "next"} does not yield the {"largest" if back else "smallest"} remaining entry'); return
                    if back: st.g['b'] = pos
                    else: st.g['f'] = st.norm(f + 1)
                elif r is not None: say('the iterator yields something after its two ends have met'); return
                unchanged(R, I, st)
                D.push(st)
            return lambda s: D.call(s, root, [Ptr(IT)], post)
        def hint(root, pair):
            def post(I, st):
                n = st.norm(st.g['b'] - st.g['f']); r = st.g['result']
                if pair:
                    hi = opt(r.f[1])
                    if not st.decide('eq', r.f[0], n): say('the lower size bound is not the number of remaining entries')
                    elif hi is None or not st.decide('eq', hi, n): say('the upper size bound is not the number of remaining entries')
                elif not st.decide('eq', r, n): say('the reported length is not the number of remaining entries')
            return lambda s: D.call(s, root, [Ptr(IT)], post)
        def cloned(root):
            def post(I, st):
                st.mem[IT] = st.g['result']
                D.push(st)
            return lambda s: D.call(s, root, [Ptr(IT)], post)
        def kept(st, f, b):
            unchanged(R, I, st)
            st.g['f'], st.g['b'] = f, b; st.g.pop('nn')
            D.push(st)
        D.run([stepper(roots[1], False), stepper(roots[2], True), hint(roots[3], True)] + ([hint(roots[4], False)] if roots[4] else []) + ([cloned(roots[5])] if roots[5] else [])
            + provided(R, I, D, name if name.startswith('root_') else 'root_' + name, say, item, kept, lambda st, pos: unchanged(R, I, st)))
        return None
def pair_item(R, I, st, r, pos): return ref_at(I, st, r.f[0], 'K', pos) and ref_at(I, st, r.f[1], 'V', pos)
def key_item(R, I, st, r, pos): return ref_at(I, st, r, 'K', pos)
two_ended('iter', 'C10', ('C10', 'C05', 'C04', 'C13', 'C09'), ('root_iter_new', 'root_iter_next', 'root_iter_next_back', 'root_iter_size_hint', 'root_iter_len', 'root_iter_clone'), pair_item, joined=True)

# ------------------------------------------------------------------ owning iteration
def inside(st, nid):
    """the slots of leaf nid whose entries are still to be handed out"""
    n = st.nodes[nid]; lo, hi = st.g['gone']
    D = st.facts.decide
    if D('le', lo, n.start): a = ZERO
    elif D('ge', lo, n.end): return ZERO, ZERO
    elif D('ge', lo, n.start) : a = st.norm(lo - n.start)
    else: return None
    if D('ge', hi, n.end): b = n.size
    elif D('le', hi, n.start): return ZERO, ZERO
    elif D('le', hi, n.end): b = st.norm(hi - n.start)
    else: return None
    return a, b
def retire(I, st, tt):
    """forget the leaves that differ from their initial state only in entries that were handed out"""
    for b in [b for b in st.mem if b[0] == 'H' and isinstance(b[1], int)]:
        nid = b[1]; n = st.nodes[nid]
        if n.kind != 'L' or n.new: continue
        v = st.mem[b]; o = st.mem.get(('O', nid))
        if v is o or type(v) is not Agg or type(o) is not Agg: continue
        if any(x != y for i, (x, y) in enumerate(zip(v.f, o.f)) if i not in (tt.lf['K'], tt.lf['V'])): continue
        r = inside(st, nid)
        if r is None: continue
        a, e = r
        ln = st.norm(e - a)
        ok = True
        for c in ('K', 'V') if tt.values else ('K',):
            if st.same(ln, 0): continue
            if not st.facts.ge(ln, 0): ok = False; break
            segs = st.norm_segs(st.sub(v.f[tt.lf[c]].segs, a, ln))
            if not (len(segs) == 1 and segs[0][0] == 'S' and segs[0][2] == (c, nid) and st.same(segs[0][3], a)): ok = False; break
        if ok: del st.mem[b]; st.mem.pop(('O', nid), None)
def sweep(I, st, tt):
    """entries that were dropped in order count as handed out"""
    if 'gone' not in st.g or not st.drops: return
    lo, hi = st.g['gone']
    while True:
        c = 'K' if tt.keydrop else 'V'
        ks = [s for s in st.drops if s[0] == 'S' and s[2][0] == c and len(s[2]) == 2]
        got = None
        for s in ks:
            p = st.norm(st.nodes[s[2][1]].start + s[3])
            front = st.same(p, lo)
            if not front and not st.same(p + s[1], hi): continue
            if tt.values and tt.keydrop:
                w = next((x for x in st.drops if x[0] == 'S' and x[2] == ('V', s[2][1]) and st.same(x[3], s[3]) and st.same(x[1], s[1])), None)
                if w is None: continue
            else: w = None
            got = s, w, front; break
        if got is None: break
        s, w, front = got
        if front: lo = st.norm(lo + s[1])
        else: hi = st.norm(hi - s[1])
        st.drops = tuple(x for x in st.drops if x is not s and x is not w)
    st.g['gone'] = (lo, hi)
    retire(I, st, tt)

def dropped_all(R, I, st, ra, extra=(), left=None):
    """the whole tree was dropped: every remaining entry, separator and augmentation once, every node freed"""
    sweep(I, st, R.tt)
    sd = st.g.get('store_drop', ())
    def say(p, m):
        for q in {p, R.op.main}: R.emit(q, m)
    if sorted(k for k, _ in sd) != ['I', 'L']: say('C04', 'the nodes are leaked'); return
    lo, hi = left or st.g['gone']
    if st.decide('lt', lo, hi): say('C04', 'remaining entries are leaked'); return
    u = {}
    for k, rep in sd:
        if rep is not None:
            rep = st.res(rep.nid); n = st.nodes[rep]
            if R.tt.keydrop: u[('S', rep)] = (ZERO, n.size)
            if not R.tt.noaug: u[('A', rep)] = (ZERO, st.norm(n.size + 1))
    if not R.tt.noaug and ra: u[('RA',)] = (ZERO, ONE)
    for s in st.made: u[s[2]] = (s[3], st.norm(s[3] + s[1]))
    if not any(r is not None for _, r in sd): say('C04', 'the separators are leaked'); return
    F = Ledger(st, say)
    F.own(([] if left else owned(st.g.get('result', UNIT))) + list(st.drops) + list(extra), u)

class Ledger(Final):
    def __init__(self, st, out): self.st, self.out, self.live = st, out, []

def owning(name, main, props, roots, item, drop, **kw):
    @op(name, main, props, root=roots[0], joined=True, **kw)
    def f(R, I, inst):
        st = tree_setup(R, I, inst)
        t = st.mem.pop(('X', 'tree'))
        st.g['gone'] = (ZERO, st.g['N'])
        D = Driver(R, I); R.driver = D
        if I.merger: I.merger.pre = lambda st: sweep(I, st, R.tt)
        say = lambda m: R.emit(main, m)
        def post_new(I, st):
            st.mem[IT] = st.g['result']
            sweep(I, st, R.tt)
            st.g['f'], st.g['b'] = ZERO, st.g['N']
            if st.g['gone'] != (ZERO, st.g['N']): say('entries are dropped when the iterator is created'); return
            Ledger(st, R.emit).own(owned(st.mem[IT]) + list(st.drops), {} if R.tt.noaug else {('RA',): (ZERO, ONE)})
            st.g['ra'] = not any(x[2] == ('RA',) for x in st.drops)
            st.drops = ()
            D.push(st)
        D.call(st, roots[0], [t], post_new)
        def stepper(root, back):
            def post(I, st):
                f, b = st.g['f'], st.g['b']
                r = opt(st.g['result'])
                if st.drops: R.emit('C04', 'an entry is dropped while iterating'); return
                if st.decide('lt', f, b):
                    pos = st.norm(b - 1) if back else f
                    if r is None: say('an end of the iterator stops before all entries were yielded'); return
                    if not item(R, I, st, r, pos): say(f'{"next_back" if back else "next"} does not yield the {"largest" if back else "smallest"} remaining entry'); return
                    if back: st.g['b'] = pos
                    else: st.g['f'] = st.norm(f + 1)
                elif r is not None: say('the iterator yields something after its two ends have met'); return
                st.g['gone'] = (st.g['f'], st.g['b'])
                st.g.pop('result', None)
                retire(I, st, R.tt)
                D.push(st)
            return lambda s: D.call(s, root, [Ptr(IT)], post)
        def hint(root, pair):
            def post(I, st):
                n = st.norm(st.g['b'] - st.g['f']); r = st.g['result']
                if pair:
                    hi = opt(r.f[1])
                    if not st.decide('eq', r.f[0], n): say('the lower size bound is not the number of remaining entries')
                    elif hi is None or not st.decide('eq', hi, n): say('the upper size bound is not the number of remaining entries')
                elif not st.decide('eq', r, n): say('the reported length is not the number of remaining entries')
            return lambda s: D.call(s, root, [Ptr(IT)], post)
        def dropper(root):
            def post(I, st): dropped_all(R, I, st, st.g['ra'])
            def go(s):
                if R.exact:          # loops are not accelerated: few entries must do
                    try: s.facts = s.facts.add_ge(s.g['f'] - s.g['b'] + 3)
                    except Infeasible: return
                v = s.mem.pop(IT)
                D.call(s, root, [v], post)
            return go
        def kept(st, f, b):
            # what was skipped was dropped
            sweep(I, st, R.tt)
            r = owned(st.g['result'])
            lo, hi = st.g['gone']
            if r: lo, hi = (st.norm(lo + 1), hi) if st.decide('lt', lo, f) else (lo, st.norm(hi - 1))
            if st.drops: R.emit('C04', 'something else than the skipped entries is dropped'); return
            if not (st.decide('eq', lo, f) and st.decide('eq', hi, b)) and st.decide('lt', f, b): say('the skipped entries are not dropped'); return
            st.g['f'], st.g['b'] = st.g['gone'] = f, b; st.g.pop('nn')
            st.g.pop('result', None)
            retire(I, st, R.tt)
            D.push(st)
        def ended(st, pos):
            if pos is not None:
                lo, hi = st.g['gone']
                left = (st.norm(lo + 1), hi) if st.decide('eq', pos, lo) else (lo, st.norm(hi - 1))
            else: left = None
            dropped_all(R, I, st, st.g['ra'], left=left)
        D.run([stepper(roots[1], False), stepper(roots[2], True), hint(roots[3], True)] + ([dropper(drop)] if drop else [])
            + provided(R, I, D, 'root_' + name, say, item, kept, ended))
        return None
def pair_own(R, I, st, r, pos): return entry_at(I, st, r.f[0], 'K', pos) and entry_at(I, st, r.f[1], 'V', pos)
def key_own(R, I, st, r, pos): return entry_at(I, st, r, 'K', pos)
owning('into_iter', 'C11', ('C11', 'C05', 'C04', 'C09'), ('root_into_iter_new', 'root_into_iter_next', 'root_into_iter_next_back', 'root_into_iter_size_hint'), pair_own, 'root_into_iter_drop')
owning('plain_into_iter', 'C11', ('C11', 'C04'), ('root_plain_into_iter', 'root_plain_into_iter_next', 'root_plain_into_iter_next_back', 'root_plain_into_iter_size_hint'), pair_own, 'root_plain_into_iter_drop')

# ------------------------------------------------------------------ destruction, clear, empty trees
def drop_setup(R, I, st):
    if R.exact: st.facts = st.facts.add_ge(L(4) - st.g['N'])
    st.g['gone'] = (ZERO, st.g['N'])
    if I.merger: I.merger.pre = lambda st: sweep(I, st, R.tt)
@op('root_set_drop', 'C11', ('C11', 'C04'), joined=True)
@op('root_map_drop', 'C11', ('C11', 'C04'), joined=True)
@op('root_plain_tree_drop', 'C11', ('C11', 'C04'), joined=True)
@op('root_tree_drop', 'C11', ('C11', 'C04', 'C05'), joined=True)
def tree_drop(R, I, inst):
    st = tree_setup(R, I, inst)
    drop_setup(R, I, st)
    spec.enter(I, st, R.root, [st.mem.pop(('X', 'tree'))])
    R.post = lambda I, st: dropped_all(R, I, st, True)
    return st

def empty_tree(R, I, st, base, main):
    """the tree at base is a valid empty tree of its own store -> what it owns"""
    F = Final(I, st, R.tt, base, R.emit); tt = R.tt
    if any(F.store[k].sid == 0 for k in 'LI'): R.emit(main, 'an empty tree still uses the old nodes'); raise Stop()
    r = F.nid_of(F.root)
    got, lv = F.walk(r, top=True)
    if any(not st.same(x[1][1], 0) for x in got if x[1]) or st.nodes[r].kind != 'L' or not st.decide('eq', F.node(r)[1].f[tt.lf['size']], 0):
        R.emit(main, 'the tree is not empty'); raise Stop()
    v = F.node(r)[1]
    for w in ('prev', 'next'):
        l = v.f[tt.lf[w]]
        if type(l) is not Agg: raise Undecided('link')
        if l.v != 0: R.emit('C09', 'the leaf of an empty tree has a neighbour')
    if not st.decide('eq', F.len, 0): R.emit('C03', 'the length of an empty tree is not zero')
    F.nodes()
    if not tt.noaug:
        if type(F.ra) is not Tok: raise Undecided('root augmentation')
        F.live.append(('S', ONE, F.ra.src, F.ra.idx))
        F.check_aug(F.ra, r, 'the root augmentation of an empty tree is not the empty one')
    return F.live
@op('root_tree_clear', 'C01', ('C01', 'C03', 'C04', 'C05', 'C08', 'C09', 'C21'), joined=True)
def tree_clear(R, I, inst):
    st = tree_setup(R, I, inst)
    drop_setup(R, I, st)
    spec.enter(I, st, R.root, [Ptr(('X', 'tree'))])
    def post(I, st):
        live = empty_tree(R, I, st, ('X', 'tree'), 'C01')
        dropped_all(R, I, st, True, live)
    R.post = post
    return st
