"""Contracts of the augmentations the crate ships, for one node: what they compute from a node's content, and how they
direct a search, a rank or a visit there.

The children of the node cover [P(0), P(1)), [P(1), P(2)), ...; the augmentation of a child is that of its entries.
Together with C08 (stored augmentations are those of the content) and C26 (a search, rank or visit follows the path and
threads its state), the contract of one node gives that of the tree by induction on the height."""
from lin import Lin, L, ZERO, ONE, sym, Infeasible
from dom import *
from interp import UNIT, NONE, some
import spec, models as M
from ops import op, OPS, opt, has_values

MAX = 1 << 48
def node_state(R, I, kind):
    """an arbitrary node (root of an arbitrary tree) with its key and augmentation slices"""
    ti = I.prog.insts[I.prog.roots['root_tree_insert']]['body']['locals'][1]
    R.tt = tt = spec.TreeTypes(I, ti)
    tt.values = has_values(I, tt)
    st = spec.base_state(I, tt)
    st.mem.pop(('X', 'tree'))
    I.allheads = True
    r = st.g['root']
    st.facts = st.facts.add_ge(sym('lv') - 1) if kind == 'inner' else st.facts.add_eq(sym('lv'))
    st.kind(r)
    n = st.nodes[r]
    if R.exact: st.facts = st.facts.add_ge(L(R.level) - n.size)
    return st, r, n
def node_slices(st, r, n, kind, what):
    """(keys, second slice) of the node"""
    a, b = (('S', n.size), (what, st.norm(n.size + 1))) if kind == 'inner' else (('K', n.size), ('V', n.size))
    out = []
    for nm, (s, ln) in (('keys', a), ('second', b)):
        st.mem[('X', nm)] = Arr((('S', ln, (s, r), ZERO),))
        out.append(Ptr(('X', nm), (), ZERO, ln))
    return out
def lin(v):
    if type(v) is not Lin: raise Undecided(f'number {v}')
    return v

# ------------------------------------------------------------------ Count
def count_op(name, kind, args, judge, **kw):
    @op(name, 'C18', ('C18',), joined=True, level={'quick': 3, 'thorough': 4}, **kw)
    def f(R, I, inst):
        if kind is None:
            st, r, n = node_state(R, I, 'leaf')
            vs = args(st, None, None)
        else:
            st, r, n = node_state(R, I, kind)
            if kind == 'inner': st.g['prefix'] = r
            vs = args(st, n, node_slices(st, r, n, kind, 'cnt'))
        spec.enter(I, st, R.root, vs)
        def post(I, st):
            m = judge(I, st, st.nodes[st.res(st.g['root'])], st.g['result'])
            if m: R.emit('C18', m)
        R.post = post
        return st
def num(st, nm, hi=MAX):
    x = st.fsym(nm + '_', 0, hi)
    st.g[nm] = x
    return x
def eqn(what, val):
    def j(I, st, n, r):
        if not st.decide('eq', lin(r), val(st, n)): return what
    return j
count_op('root_count_from_leaf', 'leaf', lambda st, n, s: s, eqn("a leaf's count is not its number of entries", lambda st, n: n.size))
count_op('root_count_from_inner', 'inner', lambda st, n, s: s, eqn("a node's count is not the sum of its children's counts", lambda st, n: n.end - n.start))
count_op('root_count_initial', None, lambda st, n, s: [], eqn('a rank does not start from 0', lambda st, n: ZERO))
count_op('root_count_default', None, lambda st, n, s: [], eqn('the default count is not 0', lambda st, n: ZERO))
def holder(st, n, s):
    st.mem[('X', 'c')] = num(st, 'c'); return [Ptr(('X', 'c'))]
count_op('root_count_count', None, holder, eqn('count() does not report the count', lambda st, n: st.g['c']))
count_op('root_count_clone', None, holder, eqn('the clone of a count differs from it', lambda st, n: st.g['c']))
def in_leaf(I, st, n, r):
    o = opt(r); i = st.g['idx']
    if st.decide('lt', i, n.size):
        if o is None: return 'a position inside the leaf is not located'
        if not st.decide('eq', lin(o), i): return 'a position is located at another slot'
    elif o is not None: return 'a position beyond the leaf is located'
count_op('root_count_locate_in_leaf', 'leaf', lambda st, n, s: [num(st, 'idx', (1 << 64) - 1)] + s, in_leaf)
def in_inner(I, st, n, r):
    o = opt(r); i = st.g['idx']
    if not st.decide('lt', i, n.end - n.start): return 'a position beyond the node is located' if o is not None else None
    if o is None: return 'a position inside the node is not located'
    c, rest = lin(o.f[0]), lin(o.f[1])
    if not (st.decide('ge', c, 0) and st.decide('le', c, n.size)): return 'a position is located in a child that does not exist'
    p, q = st.bp(n.nid, c), st.bp(n.nid, st.norm(c + 1))
    if not (st.decide('ge', n.start + i, p) and st.decide('lt', n.start + i, q)): return 'a position is located in a child that does not cover it'
    if not st.decide('eq', p + rest, n.start + i): return 'the position within the located child is wrong'
count_op('root_count_locate_in_inner', 'inner', lambda st, n, s: [num(st, 'idx', (1 << 64) - 1)] + s, in_inner)
def fold_args(st, n, s):
    m = num(st, 'm'); st.facts = st.facts.add_ge(n.size + 1 - m)
    st.mem[('X', 'q')] = Tok(('q',))
    return [Ptr(('X', 'q')), num(st, 'rank'), Ptr(s[1].base, (), ZERO, m)]
count_op('root_count_fold_inner', 'inner', fold_args, eqn('a rank step does not add the number of entries to the left', lambda st, n: st.g['rank'] + st.bp(n.nid, st.g['m']) - n.start))
def leaf_args(v):
    def f(st, n, s):
        st.mem[('X', 'q')] = Tok(('q',))
        rank = num(st, 'rank'); i = num(st, 'slot')
        st.facts = st.facts.add_ge(n.size - i - (1 - v))
        return [Ptr(('X', 'q')), rank, Agg(v, (i,)), s[0]]
    return f
def in_fold(v):
    def j(I, st, n, r):
        if type(r) is not Agg or type(r.v) is not int: raise Undecided(f'result {r}')
        if r.v != v: return 'the rank of a key is reported with the wrong presence'
        if not st.decide('eq', lin(r.f[0]), st.g['rank'] + st.g['slot']): return 'the rank of a key is not the number of smaller keys'
    return j
for v_, n_ in ((0, 'found'), (1, 'absent')):
    count_op('count_fold_leaf_' + n_, 'leaf', leaf_args(v_), in_fold(v_), root='root_count_fold_leaf')

# ------------------------------------------------------------------ GroupCount
def variants(I, t):
    return {v['name']: (i, [f[0] for f in v['fields']]) for i, v in enumerate(I.T[I.ty.strip(t)]['variants'])}
def gc_type(I):
    return I.T[I.prog.insts[I.prog.roots['root_group_group_count']]['body']['locals'][1]]['e']
def gc_one(vs, g, c):
    if len(vs['One'][1]) != 2: raise Undecided('shape of GroupCount::One')
    return Agg(vs['One'][0], (g, c))
def gc_many(vs, lo, hi, n):
    m = {'min_group': Agg(None, lo), 'max_group': Agg(None, hi), 'group_count': n}
    i, fs = vs['Multiple']
    if set(fs) != set(m): raise Undecided('shape of GroupCount::Multiple')
    return Agg(i, [m[f] for f in fs])
def gc_parts(vs, v):
    """value -> None | (group, count) | (lo, hi, number of groups)"""
    if type(v) is not Agg or type(v.v) is not int: raise Undecided(f'group count {v}')
    for nm, (i, fs) in vs.items():
        if i == v.v: break
    if nm == 'Zero': return None
    if nm == 'One': return v.f[0], v.f[1]
    d = dict(zip(fs, v.f))
    return d['min_group'].f, d['max_group'].f, d['group_count']
def gc_make(st, vs, key, a, b):
    """the GroupCount of the entries [a, b), a < b"""
    k = ('gcnt', key)
    if k not in st.choice:
        def one(s):
            from callbacks import group_at
            g = group_at(s, a); s.assume('ge', g.src[2], b)
            s.choice[k] = gc_one(vs, g, s.norm(b - a)); s.g['gvar'] = 'one'
        def many(s):
            from callbacks import group_at
            g = group_at(s, a); h = group_at(s, s.norm(b - 1))
            s.assume('le', g.src[2], h.src[1]); s.assume('ge', h.src[3], g.src[3] + 1)
            s.assume('le', h.src[3] - g.src[3] - 1, h.src[1] - g.src[2])
            s.g['gvar'] = 'many'
            s.choice[k] = gc_many(vs, (g, s.norm(g.src[2] - a)), (h, s.norm(b - h.src[1])), s.norm(h.src[3] - g.src[3] + 1))
        raise Split([one, many])
    return st.choice[k]
def grp_elem(vs):
    def f(st, nid, idx):
        idx = st.norm(idx)
        for i, v in st.g['gmemo']:
            if st.same(i, idx): return v
        a, b = st.bp(nid, idx), st.bp(nid, st.norm(idx + 1))
        v = gc_make(st, vs, (nid, idx), a, b)
        st.g['gmemo'] += ((idx, v),)
        return v
    return f
def ug(t):
    if type(t) is not Tok or t.src[0] != 'ug': raise Undecided(f'group {t}')
    return t.src
def group_of(st, t, p):
    """is t the group of the entry at p?"""
    g = ug(t)
    return st.decide('le', g[1], p) and st.decide('gt', g[2], p)
def same_group(st, t, u):
    a, b = ug(t), ug(u)
    return a == b or (st.decide('eq', a[1], b[1]) and st.decide('eq', a[2], b[2]))
def gc_wrong(st, vs, v, a, b):
    """what is wrong with v as the GroupCount of the entries [a, b)"""
    p = gc_parts(vs, v)
    if st.decide('ge', a, b): return None if p is None else 'the group count of no entries is not zero'
    if p is None: return 'the group count of a non-empty node is zero'
    if len(p) == 2:
        g, c = p
        if not group_of(st, g, a): return "the only group is not that of the node's entries"
        if not st.decide('ge', ug(g)[2], b): return 'several groups are counted as one'
        if not st.decide('eq', lin(c), b - a): return "the only group's count is not the number of entries"
        return None
    (g, c), (h, d), n = p
    if not group_of(st, g, a): return "the first group is not that of the node's first entry"
    if not group_of(st, h, b - 1): return "the last group is not that of the node's last entry"
    if not st.decide('le', ug(g)[2], ug(h)[1]): return 'one group is counted as several'
    if not st.decide('eq', lin(c), ug(g)[2] - a): return "the first group's count is wrong"
    if not st.decide('eq', lin(d), b - ug(h)[1]): return "the last group's count is wrong"
    if not st.decide('eq', lin(n), ug(h)[3] - ug(g)[3] + 1): return 'the number of groups is wrong'

def gmerge_pre(R, I):
    """before states are compared: forget the augmentations nothing refers to"""
    def pre(st):
        idx = []
        def walk(v):
            if type(v) is Ptr and v.base == ('X', 'second') and v.path and v.path[0][0] == 'i': idx.append(st.norm(v.path[0][1]))
            elif type(v) is Agg:
                for x in v.f: walk(x)
        for fr in st.frames:
            if fr.kind == 'fn':
                for i in range(len(fr.body['locals'])):
                    v = st.mem.get(('L', fr.uid, i))
                    if v is not None: walk(v)
        out = []
        for i in idx:
            for j, v in st.g['gmemo']:
                if st.same(i, j): out.append((j, v)); break
        st.g['gmemo'] = tuple(out)
    return pre

def group_templates(st):
    """the order of the positions and of the ordinals in play is worth keeping"""
    ps = []; os = []
    r = st.g['root']; n = st.nodes[r]
    def val(v):
        t = type(v)
        if t is Tok and v.src[0] == 'ug':
            ps.append(v.src[1]); ps.append(v.src[2])
            if v.src[3] is not None: os.append(v.src[3])
        elif t is Agg:
            for x in v.f: val(x)
        elif t is It:
            if n.kind == 'L': ps.append(n.start + v.i); ps.append(n.start + v.end)
    for v in st.mem.values(): val(v)
    for k, v in st.g.items():
        if isinstance(v, V): val(v)
        elif k == 'gmemo':
            for i, x in v: val(x)
    ps += [p for i, p in st.bps.get(r, ())] + [n.start, n.end]
    if 'kp' in st.g: ps.append(st.g['kp'])
    out = []
    for xs in (ps, os):
        xs = list(dict.fromkeys(xs))
        for a in xs:
            for b in xs:
                if a is not b: out += [a - b, a - b - 1]
    return out

def group_op(name, kind, args, judge, **kw):
    """kind: 'inner' | 'leaf' (any leaf, or the empty root) | None"""
    if kind == 'leaf' and 'cases' not in kw: kw['cases'] = ('node', 'root')
    @op(name, 'C19', ('C19',), joined=True, level={'quick': 3, 'thorough': 4}, **kw)
    def f(R, I, inst):
        st, r, n = node_state(R, I, kind or 'leaf')
        if not (kind == 'leaf' and R.case == 'root') and kind:
            # a node anywhere in the tree
            st.nodes.pop(r); st.bps.pop(r, None)
            a = st.fsym('p', 0); b = st.fsym('p', 0)
            st.facts = st.facts.add_ge(st.g['N'] - b).add_ge(b - a - 1)
            r = st.new_node(sym('lv'), a, b, None); st.g['root'] = r
            st.kind(r); n = st.nodes[r]
            if R.exact: st.facts = st.facts.add_ge(L(R.level) - n.size)
        vs = variants(I, gc_type(I))
        R.vs = vs
        st.g['gmemo'] = (); st.g['grp_elem'] = grp_elem(vs)
        if I.merger: I.merger.pre = gmerge_pre(R, I); I.merger.more = group_templates
        if kind == 'inner': st.g['prefix'] = r
        sl = node_slices(st, r, n, kind, 'grp') if kind else None
        spec.enter(I, st, R.root, args(R, I, st, n, sl))
        def post(I, st):
            m = judge(R, I, st, st.nodes[st.res(st.g['root'])], st.g['result'])
            if m: R.emit('C19', m)
        R.post = post
        return st
group_op('root_group_from_leaf', 'leaf', lambda R, I, st, n, s: s, lambda R, I, st, n, r: gc_wrong(st, R.vs, r, n.start, n.end))
group_op('root_group_from_inner', 'inner', lambda R, I, st, n, s: s, lambda R, I, st, n, r: gc_wrong(st, R.vs, r, n.start, n.end))
def any_group(st):
    """a group as a user may name it: with or without entries"""
    a = st.fsym('qs', 0); b = st.fsym('qe')
    st.facts = st.facts.add_ge(b - a).add_ge(st.g['N'] - b)
    st.g['gq'] = Tok(('ug', a, b, None))
    return st.g['gq']
def query(st): return Agg(None, (any_group(st), num(st, 'off', MAX)))
def target(st, a, off):
    qs = ug(st.g['gq'])[1]
    return off + (a if st.decide('lt', qs, a) else qs)
def g_in_leaf(R, I, st, n, r):
    q = ug(st.g['gq']); o = opt(r)
    t = target(st, n.start, st.g['off'])
    if st.decide('lt', t, q[2]) and st.decide('lt', t, n.end):
        if o is None: return 'an entry of the group in this leaf is not located'
        if not st.decide('eq', n.start + lin(o), t): return 'the located entry is not the requested one of its group'
    elif o is not None: return 'an entry is located although the group has no such entry in this leaf'
def q_args(R, I, st, n, s):
    q = query(st); qs = ug(st.g['gq'])[1]
    st.facts = st.facts.add_ge(n.start - qs - 1) if R.case == 'earlier' else st.facts.add_ge(qs - n.start)
    return [q] + s
group_op('root_group_locate_in_leaf', 'leaf', q_args, g_in_leaf, cases=('earlier', 'here', 'root'))
def g_in_inner(R, I, st, n, r):
    q = ug(st.g['gq']); o = opt(r)
    t = target(st, n.start, st.g['off'])
    here = st.decide('lt', t, q[2]) and st.decide('lt', t, n.end)
    if o is None: return 'an entry of the group in this node is not located' if here else None
    c, (g, off) = lin(o.f[0]), o.f[1].f
    if not same_group(st, g, st.g['gq']): return 'the search goes on for another group'
    if not (st.decide('ge', c, 0) and st.decide('le', c, n.size)): return 'the entry is located in a child that does not exist'
    a, b = st.bp(n.nid, c), st.bp(n.nid, st.norm(c + 1))
    u = target(st, a, lin(off))
    if here:
        if not (st.decide('le', a, t) and st.decide('lt', t, b)): return 'the entry is located in a child that does not hold it'
        if not st.decide('eq', u, t): return 'the offset within the located child is wrong'
    elif st.decide('lt', u, q[2]) and st.decide('lt', u, b): return 'the search goes on to an entry although the group has no such entry in this node'
group_op('root_group_locate_in_inner', 'inner', q_args, g_in_inner, cases=('earlier', 'here'))
group_op('root_group_initial', None, lambda R, I, st, n, s: [], lambda R, I, st, n, r: None if opt(r) is None else 'a rank does not start from nothing')
def rank_of(st, p):
    """the rank accumulated over the entries [0, p)"""
    from callbacks import group_at
    if st.same(p, 0): return NONE
    g = group_at(st, st.norm(p - 1))
    return some(Agg(None, (g, st.norm(p - g.src[1]))))
def rank_wrong(st, r, p):
    o = opt(r)
    if st.decide('eq', p, 0): return None if o is None else 'a rank exists although nothing is to the left'
    if o is None: return 'the rank is lost'
    g, c = o.f
    if not group_of(st, g, p - 1): return 'the rank does not speak of the last group to the left'
    if not st.decide('eq', lin(c), p - ug(g)[1]): return "the rank's count is not that of the last group to the left"
def at_start(R, st, n):
    if R.case == 'first' or R.case == 'root': st.facts = st.facts.add_eq(n.start)
    else: st.facts = st.facts.add_ge(n.start - 1)
def g_fold_args(R, I, st, n, s):
    at_start(R, st, n)
    n = st.nodes[n.nid]
    m = num(st, 'm'); st.facts = st.facts.add_ge(n.size + 1 - m)
    st.mem[('X', 'q')] = Tok(('q',)); st.g['qgroup'] = any_group(st)
    return [Ptr(('X', 'q')), rank_of(st, n.start), Ptr(s[1].base, (), ZERO, m)]
group_op('root_group_fold_inner', 'inner', g_fold_args, lambda R, I, st, n, r: rank_wrong(st, r, st.bp(n.nid, st.g['m'])), cases=('first', 'later'))
def g_leaf_args(v):
    def f(R, I, st, n, s):
        at_start(R, st, n)
        kp = num(st, 'kp'); kf = L(1 - v); st.g['kf'] = kf
        q = any_group(st); st.g['qgroup'] = q
        f = st.facts.add_ge(kp - n.start).add_ge(n.end - kp - kf).add_ge(kp - q.src[1]).add_ge(q.src[2] - kp - kf)
        st.facts = f
        st.mem[('X', 'q')] = Tok(('q',))
        return [Ptr(('X', 'q')), rank_of(st, n.start), Agg(v, (st.norm(kp - n.start),)), s[0]]
    return f
def g_rank(v):
    def j(R, I, st, n, r):
        if type(r) is not Agg or type(r.v) is not int: raise Undecided(f'result {r}')
        if r.v != v: return 'the rank of a key is reported with the wrong presence'
        o = opt(r.f[0])
        if o is None: return 'no rank is reported for a key'
        g, c = o.f
        if not same_group(st, g, st.g['gq']): return "the rank of a key does not speak of the key's group"
        if not st.decide('eq', lin(c), st.g['kp'] - ug(st.g['gq'])[1]): return 'the rank of a key is not its position in its group'
    return j
group_op('group_fold_leaf_found', 'leaf', g_leaf_args(0), g_rank(0), root='root_group_fold_leaf', cases=('first', 'later'))
group_op('group_fold_leaf_absent', 'leaf', g_leaf_args(1), g_rank(1), root='root_group_fold_leaf', cases=('first', 'later', 'root'))

def visitor(I, R, inst, count):
    t = inst['body']['locals'][1]
    while I.T[t]['k'] in ('ref', 'ptr'): t = I.T[t]['e']
    return visitor_value(I, t, count)
def visitor_value(I, t, parts):
    fs = []
    for nm, ft, _ in I.T[t]['variants'][0]['fields']:
        s = I.T[I.ty.strip(ft)]
        fs.append(parts[0] if s['s'].endswith('UG') else parts[1] if s['k'] == 'prim' else UNIT)
    return Agg(None, fs)
def vis_parts(I, v):
    g = [x for x in v.f if type(x) is Tok]; c = [x for x in v.f if type(x) is Lin]
    if len(g) != 1 or len(c) != 1: raise Undecided(f'visitor {v}')
    return g[0], c[0]
def seen_before(st, p):
    """the number of entries of the group before p"""
    q = ug(st.g['gq'])
    if st.decide('ge', q[1], p): return ZERO
    return p - q[1] if st.decide('le', p, q[2]) else q[2] - q[1]
def vis_args(R, I, st, n, s):
    q = any_group(st).src
    if n.start is not None: st.facts = st.facts.add_ge(n.end - q[2])
    c = {'none': ZERO, 'part': n.start - q[1]}[R.case]
    st.facts = st.facts.add_ge(q[1] - n.start) if R.case == 'none' else st.facts.add_ge(n.start - q[1] - 1).add_ge(q[2] - n.start)
    st.mem[('X', 'vis')] = visitor(I, R, R.inst, (st.g['gq'], st.norm(c)))
    return [Ptr(('X', 'vis'))] + s
def vis_inner(R, I, st, n, r):
    names = [v['name'] for v in I.T[I.ty.strip(R.inst['out'])]['variants']]
    if type(r) is not Agg or type(r.v) is not int: raise Undecided(f'result {r}')
    if names[r.v] != 'GoDown': return 'the group size visit ends before it reaches a leaf'
    c = lin(r.f[0])
    if not (st.decide('ge', c, 0) and st.decide('le', c, n.size)): return 'the group size visit goes to a child that does not exist'
    a, b = st.bp(n.nid, c), st.bp(n.nid, st.norm(c + 1))
    g, e = vis_parts(I, I.read(st, ('X', 'vis'), ()))
    q = ug(st.g['gq'])
    if not same_group(st, g, st.g['gq']): return 'the group size visit changes its group'
    if st.decide('eq', q[1], q[2]):
        if not st.decide('eq', e, 0): return 'entries are counted for a group that has none'
        return
    if not st.decide('le', q[2], b): return 'the group size visit goes to a child before the end of the group'
    if not st.decide('eq', e, seen_before(st, a)): return 'the group size visit miscounts the entries to the left of the child it goes to'
def vis_leaf(R, I, st, n, r):
    o = opt(r); q = ug(st.g['gq'])
    if o is None: return 'the group size visit reports nothing'
    if not st.decide('eq', lin(o), q[2] - q[1]): return "the group size visit does not report the group's number of entries"
group_op('root_groupvis_inner', 'inner', vis_args, vis_inner, cases=('none', 'part'))
group_op('root_groupvis_leaf', 'leaf', vis_args, vis_leaf, cases=('none', 'part'))
def new_vis(R, I, st, n, r):
    g, c = vis_parts(I, r)
    if not same_group(st, g, st.g['gq']): return 'the new visitor counts another group'
    if not st.decide('eq', c, 0): return 'the new visitor does not start from 0'
group_op('root_groupvis_new', None, lambda R, I, st, n, s: [any_group(st)], new_vis)

def held(R, I, st, n, s):
    a = st.fsym('p', 0); b = st.fsym('p', 0)
    st.facts = st.facts.add_ge(st.g['N'] - b).add_ge(b - a - 1)
    from callbacks import group_at
    g = group_at(st, a)
    if R.case == 'zero': v = Agg(R.vs['Zero'][0], ()); b = a
    elif R.case == 'one': st.assume('ge', g.src[2], b); v = gc_one(R.vs, g, st.norm(b - a)); h = g
    else:
        h = group_at(st, st.norm(b - 1))
        st.assume('le', g.src[2], h.src[1]); st.assume('ge', h.src[3], g.src[3] + 1)
        v = gc_many(R.vs, (g, st.norm(g.src[2] - a)), (h, st.norm(b - h.src[1])), st.norm(h.src[3] - g.src[3] + 1))
    st.mem[('X', 'c')] = v; st.g['held'] = v; st.g['ha'] = a; st.g['hb'] = b
    return [Ptr(('X', 'c'))]
HELD = ('zero', 'one', 'many')
def hold(f):
    def j(R, I, st, n, r): return f(R, I, st, gc_parts(R.vs, st.g['held']), r)
    return j
def h_count(R, I, st, p, r):
    want = ZERO if p is None else ONE if len(p) == 2 else p[2]
    if not st.decide('eq', lin(r), want): return 'group_count() is not the number of groups'
def h_max(R, I, st, p, r):
    o = opt(r)
    if p is None: return None if o is None else 'an empty group count has a last group'
    if o is None: return 'the last group is not reported'
    g, c = p if len(p) == 2 else p[1]
    x = o.f[0]
    if type(x) is not Ptr: raise Undecided(f'group {x}')
    if not same_group(st, I.read(st, x.base, x.path), g): return 'max_group() reports another group'
    if not st.decide('eq', lin(o.f[1]), c): return "max_group() does not report the group's count"
def h_zero(R, I, st, p, r):
    if type(r) is not bool: raise Undecided(f'result {r}')
    if r != (p is None): return 'is_zero() is wrong'
for n_, j_ in (('root_group_group_count', h_count), ('root_group_max_group', h_max), ('root_group_is_zero', h_zero)):
    group_op(n_, None, held, hold(j_), cases=HELD)
group_op('root_group_clone', None, held, lambda R, I, st, n, r: gc_wrong(st, R.vs, r, st.g['ha'], st.g['hb']), cases=HELD)
group_op('root_group_default', None, lambda R, I, st, n, s: [], lambda R, I, st, n, r: None if gc_parts(R.vs, r) is None else 'the default group count is not zero')
