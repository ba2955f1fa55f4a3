"""C23: the exported functions of the node and store types, called with any argument on any node a caller can build.

A node is in any state its own exported functions can leave it in: at most its capacity of live slots, the first
`size` of them initialised, links to any id. Nothing is assumed about the order of the keys (mode 'safety')."""
from lin import Lin, L, ZERO, ONE, sym, Infeasible
from dom import *
from interp import UNIT, NONE, some
import spec
from ops import op, OPS, opt, has_values, owned
from final import Stop

LOW = []
def types(R, I):
    i = I.prog.insts[I.prog.roots['root_tree_len']]
    R.tt = tt = spec.TreeTypes(I, i['body']['locals'][1])
    tt.values = has_values(I, tt)
    return tt
def setup(R, I):
    tt = types(R, I)
    st = spec.base_state(I, tt)
    t = st.mem.pop(('X', 'tree'))
    st.g['anyinner'] = True
    st.g['kp'] = ZERO; st.g['kf'] = ZERO
    st.mem[('X', 'q')] = Tok(('q',))
    R.panic_ok = lambda I, st, p: True
    return st, t
def any_id(st): return st.fsym('id', 0, (1 << 64) - 1)
def any_link(st, k): return st.choose(('link', k), 2)
def leaf_node(R, I, st, links, owned_=True):
    """any leaf, reachable through the pointer it returns"""
    tt = R.tt
    nid = st.ctr.get('node', 0); st.ctr['node'] = nid + 1
    p = st.fsym('lp', 0)
    n = Node(nid, ZERO, p, None, None, sym(f'#L{nid}')); n.kind = 'L'; n.new = False
    n.size = st.fsym(f'sl{nid}_', 0, 64); n.end = st.norm(p + n.size)
    st.nodes[nid] = n
    f = [None] * len(R.I.T[tt.leaf]['variants'][0]['fields'])
    f[tt.lf['size']] = n.size
    for c in 'KV': f[tt.lf[c]] = Arr(st.norm_segs((('S', n.size, (c, nid), ZERO), ('U', L(64) - n.size))))
    for c, on in zip(('prev', 'next'), links): f[tt.lf[c]] = some(any_id(st)) if on else NONE
    st.mem[('H', nid)] = Agg(None, f); st.mem[('O', nid)] = st.mem[('H', nid)]
    return Ptr(('H', nid))
def inner_node(R, I, st):
    nid = add_inner(st)
    st.nodes[nid].size = st.fsym(f'si{nid}_', 0, 64)
    n = st.nodes[nid]
    st.facts = st.facts.add_ge(n.end - n.start - n.size - 1)
    st.bps[nid] = ((ZERO, n.start), (st.norm(n.size + 1), n.end))
    R.I.heap(st, ('H', nid))
    return Ptr(('H', nid))
def add_inner(st):
    nid = st.ctr.get('node', 0); st.ctr['node'] = nid + 1
    p = st.fsym('ip', 0); e = st.fsym('ie', 0)
    n = Node(nid, st.fsym('lvl', 1), p, e, None, sym(f'#I{nid}')); n.kind = 'I'
    st.nodes[nid] = n
    return nid

def live(R, I, st, p, what):
    """a reference handed out must be to a live object: an initialised slot, a range of them, or a node"""
    if type(p) is not Ptr: raise Undecided(f'reference {p}')
    v = I.read(st, p.base, p.path)
    if p.ln is not None:
        segs = st.norm_segs(st.sub(v.segs if type(v) is Arr else v.arr.segs, p.off, p.ln))
        if any(s[0] == 'U' and st.decide('ge', s[1], 1) for s in segs): R.emit('C23', f'{what} exposes uninitialised slots'); raise Stop()
    elif v is UNINIT: R.emit('C23', f'{what} exposes an uninitialised slot'); raise Stop()
def live_all(R, I, st, v, what):
    t = type(v)
    if t is Ptr: live(R, I, st, v, what)
    elif t is Agg:
        for x in v.f: live_all(R, I, st, x, what)
    elif v is UNINIT: R.emit('C23', f'{what} returns an uninitialised value'); raise Stop()
def well(R, I, st, p, what, inner=False):
    """the node at p keeps its live slots initialised and within its capacity"""
    v = I.read(st, p.base, p.path); tt = R.tt
    fs = tt.nf if inner else tt.lf
    n = v.f[fs['size']]
    if type(n) is not Lin: R.emit('C23', f'{what} leaves the size uninitialised'); raise Stop()
    for c in ('S', 'C', 'A') if inner else ('K', 'V'):
        m = n if c in 'SKV' else n + 1
        a = v.f[fs[c]]
        if a is UNINIT: a = Arr((('U', L(64)),))
        if not st.decide('le', m, st.alen(a.segs)): R.emit('C23', f'{what} leaves a node beyond its capacity'); raise Stop()
        for s in st.norm_segs(st.sub(a.segs, ZERO, m)):
            if s[0] == 'U' and st.decide('ge', s[1], 1): R.emit('C23', f'{what} leaves an uninitialised slot among the live ones'); raise Stop()

def low(name, build, post, cases=(None,), pre=None, tag=''):
    """pre: what is assumed about the arguments"""
    @op(name + tag, 'C23', ('C23',), mode='safety', cases=cases, root=name, whole=bool(tag))
    def f(R, I, inst):
        st, t = setup(R, I)
        args = build(R, I, st, t)
        if pre: pre(R, st, args)
        spec.enter(I, st, name, args)
        def p(I, st): post(R, I, st, st.g['result'])
        R.post = p
        return st
    LOW.append(name + tag)
def both(name, build, post, good, bad, cases=(None,)):
    """arguments in range, and all others, decided apart"""
    low(name, build, post, cases, good)
    low(name, build, post, cases, bad, ':out-of-range')
LINKS = ((0, 0), (0, 1), (1, 0), (1, 1))
def refs(R, I, st, r): live_all(R, I, st, r, 'it')

# the store
def on_store(*rest):
    def b(R, I, st, t):
        st.mem[('X', 'store')] = t.f[R.tt.f['node_store']]
        return [Ptr(('X', 'store'))] + [x(R, I, st) if callable(x) else x for x in rest]
    return b
an_id = lambda R, I, st: any_id(st)
def boxed_leaf(R, I, st):
    p = leaf_node(R, I, st, (0, 0)); n = st.nodes[p.base[1]]; n.new = True
    return p
def boxed_inner(R, I, st):
    p = inner_node(R, I, st); st.nodes[p.base[1]].new = True
    return p
def node_at(kind, nid=0):
    """the id is that of a node of the store"""
    def f(R, st, args):
        b = ('X', 'store'); tt = R.tt
        n = 0
        if kind == 'L': nid = leaf_node(R, None, st, (0, 0)).base[1]
        else: nid = inner_node(R, None, st).base[1]
        st.g['there'] = nid
        st.facts = st.facts.add_ge(st.nodes[nid].ids).add_ge(st.g['nleaf0' if kind == 'L' else 'ninner0'] - st.nodes[nid].ids - 1)
        args[1] = st.nodes[nid].ids
    return f
def there(R, I, st, r):
    refs(R, I, st, r)
    if type(r) is Agg and r.v == 0: R.emit('C23', 'it does not find a node that exists'); return
    if type(r) is Agg: r = r.f[0]
    if r.base != ('H', st.g['there']): R.emit('C23', 'it returns another node')
for n_ in ('get_leaf', 'try_get_leaf', 'get_inner', 'try_get_inner', 'get_mut_leaf', 'get_mut_inner', 'take_leaf', 'take_inner'):
    low('root_low_store_' + n_, on_store(an_id), there, pre=node_at('L' if 'leaf' in n_ else 'I'))
    low('root_low_store_' + n_, on_store(an_id), refs, tag=':any')
low('root_low_store_assign_leaf', on_store(an_id, boxed_leaf), refs)
low('root_low_store_put_back_inner', on_store(an_id, boxed_inner), refs)
low('root_low_store_cache_leaf', on_store(an_id), refs)
low('root_low_store_try_cache', on_store(Ptr(('X', 'q'))), refs)
# leaves
def on_leaf(*rest):
    def b(R, I, st, t):
        p = leaf_node(R, I, st, R.case); R.node = p
        return [p] + [x(R, I, st) if callable(x) else x for x in rest]
    return b
def after(R, I, st, r):
    refs(R, I, st, r); well(R, I, st, R.node, 'it')
def cloned(R, I, st, r):
    st.mem[('X', 'clone')] = r
    well(R, I, st, Ptr(('X', 'clone')), 'it')
def slot_in(R, st, a): st.facts = st.facts.add_ge(st.nodes[a[0].base[1]].size - a[1] - 1)
def slot_out(R, st, a): st.facts = st.facts.add_ge(a[1] - st.nodes[a[0].base[1]].size)
def some_data(R, st, a): st.facts = st.facts.add_ge(st.nodes[a[0].base[1]].size - 1)
def no_data(R, st, a): st.facts = st.facts.add_ge(-st.nodes[a[0].base[1]].size); st.mem[a[0].base] = retyped(R, st, a[0].base)
def retyped(R, st, b):
    """an empty node: every slot uninitialised"""
    v = st.mem[b]; f = list(v.f); f[R.tt.lf['size']] = ZERO
    for c in 'KV': f[R.tt.lf[c]] = Arr((('U', L(64)),))
    return Agg(v.v, f)
PLAIN = ((0, 0),)
both('root_low_leaf_data_at', on_leaf(an_id), after, slot_in, slot_out, PLAIN)
both('root_low_leaf_value_at_mut', on_leaf(an_id), after, slot_in, slot_out, PLAIN)
low('root_low_leaf_try_data_at', on_leaf(an_id), after, PLAIN)
for n_, x in (('in_range', (Ptr(('X', 'q')),)), ('key_range', ())):
    low('root_low_leaf_' + n_, on_leaf(*x), after, LINKS, some_data)
    low('root_low_leaf_' + n_, on_leaf(*x), after, LINKS, no_data, ':empty')
for n_ in ('locate_slot', 'locate_slot_with_value'): low('root_low_leaf_' + n_, on_leaf(Ptr(('X', 'q'))), after, PLAIN)
for n_ in ('keys', 'values'): low('root_low_leaf_' + n_, on_leaf(), after, PLAIN)
low('root_low_leaf_clone', on_leaf(), cloned, cases=PLAIN)
low('root_low_leaf_set_data', on_leaf(Tok(('usrc',))), after, PLAIN, no_data)
low('root_low_leaf_set_data', on_leaf(Tok(('usrc',))), after, PLAIN, some_data, ':twice')
# inner nodes
def on_inner(*rest):
    def b(R, I, st, t):
        p = inner_node(R, I, st); R.node = p
        return [p] + [x(R, I, st) if callable(x) else x for x in rest]
    return b
def after_i(R, I, st, r):
    refs(R, I, st, r); well(R, I, st, R.node, 'it', True)
def cloned_i(R, I, st, r):
    st.mem[('X', 'clone')] = r
    well(R, I, st, Ptr(('X', 'clone')), 'it', True)
def not_full(R, st, a): st.facts = st.facts.add_ge(L(63) - st.nodes[a[0].base[1]].size)
def full(R, st, a): st.facts = st.facts.add_ge(st.nodes[a[0].base[1]].size - 64)
both('root_low_inner_key', on_inner(an_id), after_i, slot_in, slot_out)
low('root_low_inner_push', on_inner(Tok(('ik',)), lambda R, I, st: Agg(0, (any_id(st),)), Tok(('iv',))), after_i, pre=not_full)
low('root_low_inner_push', on_inner(Tok(('ik',)), lambda R, I, st: Agg(0, (any_id(st),)), Tok(('iv',))), after_i, pre=full, tag=':full')
low('root_low_inner_locate_child', on_inner(Ptr(('X', 'q'))), after_i)
low('root_low_inner_clone', on_inner(), cloned_i)

# an inner node from three sequences of any relative length
def src(R, what, counts):
    """the sequence's length is settled when it is first asked"""
    def f(I, st, inst, a):
        cs = counts(st)
        n = st.g.get('src' + what, 0)
        if n >= cs[st.choose(('srclen', what), len(cs))]: return NONE
        st.g['src' + what] = n + 1
        if what == 'c': return some(Agg(0, (L(n),)))
        return some(Tok(('src' + what,), L(n)))
    return f
def lens(st): return {w: st.choice.get(('srclen', w)) for w in 'kca'}
@op('root_low_inner_new_from_iter', 'C23', ('C23',), mode='safety', cases=(0, 1, 64, 65))
def new_from_iter(R, I, inst):
    st, t = setup(R, I)
    nk = R.case
    cc = sorted({0, nk, nk + 1, nk + 2})
    ca = lambda c: sorted({0, max(c - 1, 0), c, c + 1})
    counts = {'k': lambda st: [nk], 'c': lambda st: cc, 'a': lambda st: ca(cc[st.choice.get(('srclen', 'c'), 0)])}
    for i in I.prog.insts:
        for w, n in (('k', 'USrcK'), ('c', 'USrcC'), ('a', 'USrcA')):
            if i['full'] == f'<{n} as std::iter::Iterator>::next': I.models[i['id']] = src(R, w, counts[w])
    spec.enter(I, st, 'root_low_inner_new_from_iter', [Tok(('it' + w,)) for w in 'kca'])
    def post(I, st):
        r = st.g['result']
        live_all(R, I, st, r, 'it')
        well(R, I, st, r, 'it', True)
    R.post = post
    return st
LOW.append('root_low_inner_new_from_iter')
