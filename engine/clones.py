"""C17: cloning a tree. Every node of the store is cloned by the same code, so an arbitrary leaf and an arbitrary
inner node stand for all of them; the result must be the same tree over clones of its content."""
from lin import Lin, L, ZERO, ONE, sym, Infeasible
from dom import *
from interp import UNIT, NONE, some
import spec
import models as M
from low import types
from ops import op, OPS, opt, tree_setup, unchanged, owned
from final import Stop

def same_link(I, st, a, b):
    if a == b: return True
    if type(a) is Lazy: a = I.lazy(st, a)
    if type(b) is Lazy: b = I.lazy(st, b)
    if type(a) is not Agg or type(b) is not Agg: raise Undecided('link')
    if a.v != b.v: return False
    return a.v == 0 or st.decide('eq', a.f[0], b.f[0])
def copy_of(st, segs, src, n):
    """segs are clones of the n elements of src, in order"""
    k = ZERO
    for s in st.norm_segs(segs):
        if s[0] == '1' and type(s[2]) is Tok: s = ('S', ONE, s[2].src, s[2].idx)
        if s[0] != 'S' or s[2][0] != 'cl' or s[2][2] != src: return False
        if not st.decide('eq', s[3], k): return False
        k = st.norm(k + s[1])
    return st.decide('eq', k, n)
def node_cloned(R, I, st, kd):
    """the clone of the arbitrary node; -> what the clone owns"""
    rep = st.g.get('rep' + kd)
    if rep is None: return []
    nid = st.res(rep.nid); tt = R.tt
    o = opt(st.mem[('X', 'cloned' + kd)])
    if type(o) is Agg: o = opt(o)
    what = 'leaf' if kd == 'L' else 'inner node'
    bad = lambda m: R.emit('C17', f'the clone of {"a " if kd == "L" else "an "}{what} {m}')
    if o is None: bad('is missing'); raise Stop()
    if type(o) is not Ptr: raise Undecided('cloned node')
    if o.base == ('H', nid): bad('is the original node'); raise Stop()
    v = st.mem[o.base]; w = st.mem.get(('O', nid)) or I.node_value(st, nid)
    f = tt.lf if kd == 'L' else tt.nf
    n = w.f[f['size']]
    if not st.decide('eq', v.f[f['size']], n): bad('has another size'); raise Stop()
    own = []
    for c in ('K', 'V') if kd == 'L' else ('S', 'A'):
        if c == 'V' and not tt.values or c == 'A' and tt.noaug: continue
        m = st.norm(n + 1) if c == 'A' else n
        x = v.f[f[c]]
        segs = st.norm_segs(st.sub(x.segs, ZERO, m)) if type(x) is Arr else None
        if segs is None or any(s[0] == 'U' and st.decide('ge', s[1], 1) for s in segs): bad(f'has uninitialised {dict(K="keys", V="values", S="keys", A="augmentations")[c]}'); raise Stop()
        if not copy_of(st, segs, (c, nid), m): bad(f'does not hold the same {dict(K="keys", V="values", S="keys", A="augmentations")[c]}'); raise Stop()
        own += segs
    if kd == 'L':
        for w_ in ('prev', 'next'):
            if not same_link(I, st, v.f[f[w_]], w.f[f[w_]]): bad(f'has another {w_} link')
    else:
        a, b = (st.norm_segs(st.sub(x.f[f['C']].segs, ZERO, st.norm(n + 1))) for x in (v, w))
        if a != b and not (len(a) == len(b) and all(p[0] == q[0] == 'S' and p[2] == q[2] and st.same(p[3], q[3]) and st.same(p[1], q[1]) for p, q in zip(a, b))):
            if any(s[0] == 'U' for s in a): bad('has uninitialised children'); raise Stop()
            i = ZERO
            for s in a:
                if s[0] == 'S' and s[2] == ('C', nid):
                    if not st.decide('eq', s[3], i): bad('has other children'); raise Stop()
                elif s[0] == '1' and type(s[2]) is Nd:
                    if st.res(s[2].nid) != st.child(nid, i): bad('has other children'); raise Stop()
                else: raise Undecided(f'children {s}')
                i = st.norm(i + s[1])
    return own

@op('root_tree_clone', 'C17', ('C17', 'C04', 'C05', 'C13'), cases=('L', 'I', 'E'))
def tree_clone(R, I, inst):
    st = tree_setup(R, I, inst, level=15)
    st.g['clonekind'] = R.case
    st.g['tree0'] = st.mem[('X', 'tree')]; st.g['readonly'] = True
    spec.enter(I, st, R.root, [Ptr(('X', 'tree'))])
    def post(I, st):
        r = st.g['result']; tt = R.tt; f = tt.f
        old = st.g['tree0']
        bad = lambda m: R.emit('C17', m)
        a, b = r.f[f['root']], old.f[f['root']]
        if a != b and not (type(a) is Agg and type(b) is Nd and a.v == (0 if st.kind(b.nid) == 'I' else 1) and st.decide('eq', a.f[0], st.nodes[st.res(b.nid)].ids)): bad('the clone has another root'); return
        if not st.decide('eq', r.f[f['len']], st.g['N']): bad('the clone has another length')
        ra = r.f[f['root_augmentation']]
        if not tt.noaug and not (type(ra) is Tok and ra.src[0] == 'cl' and ra.src[2] == ('RA',)):
            if type(ra) is not Tok: raise Undecided('root augmentation')
            bad('the root augmentation of the clone is not a clone of the original one')
        s = r.f[f['node_store']]
        if type(s) is not Agg: raise Undecided('store')
        own = []
        for k in 'LI':
            v = s.f[tt.sf[k]]
            if type(v) is not StoreV: raise Undecided('store vector')
            if v.sid != st.g.get('clone' + k):
                if not v.sid: bad('the clone shares its nodes with the original'); return
                bad('the clone does not hold the nodes of the original'); return
            if v.slots or not st.decide('eq', v.ln, st.g['nleaf0' if k == 'L' else 'ninner0']): bad('the clone does not hold all nodes of the original'); return
            if st.g.get('part' + k): bad('the clone does not hold all nodes of the original in their places'); return
            if R.case == 'E':
                o = st.mem[('X', 'cloned' + k)]
                if st.g['seq' + k]:
                    o = opt(o)
                    if o is None: bad('the clone leaves out slots that hold no node: the nodes after them get other ids'); return
                if opt(o) is not None: bad('the clone has a node where the original has none'); return
            own += node_cloned(R, I, st, k)
        unchanged(R, I, st, own)
    R.post = post
    return st

def node_clone(kd):
    def f(R, I, inst):
        st = spec.base_state(I, types(R, I)); st.g['readonly'] = True
        st.facts = st.facts.add_ge(st.g['N'] - 1)
        rep = M.any_node(I, st, kd)
        st.g['rep' + kd] = Nd(rep)
        spec.enter(I, st, R.root, [Ptr(('H', rep))])
        def post(I, st):
            b = ('X', 'clone'); st.mem[b] = st.g['result']; st.mem[('X', 'cloned' + kd)] = some(Ptr(b))
            node_cloned(R, I, st, kd)
        R.post = post
        return st
    return f
op('node_clone_leaf', 'C17', ('C17', 'C04', 'C05'), root='root_low_leaf_clone')(node_clone('L'))
op('node_clone_inner', 'C17', ('C17', 'C04', 'C05'), root='root_low_inner_clone')(node_clone('I'))
