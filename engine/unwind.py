"""C07: one comparison or clone of a key panics. Every call of either in every operation may unwind; the cleanup code the
compiler generated runs, and what is left must be a tree that is safe to use and to drop.

What safe means is the invariant the memory safety analysis (C05) starts from: live slots are initialised and within
capacity, every id that can be followed leads to a node, no node is linked twice, no leaf but the root is empty, nothing
has two owners, and the length does not exceed the number of entries (iterators trust it). What is lost (a leak), the
order of the keys, augmentations and fill are not safety matters."""
from lin import Lin, L, ZERO, ONE, sym, Infeasible
from dom import *
from interp import UNIT, NONE, some
import spec, models as M
from ops import op, OPS, universe, owned
import ops, bulk, clones
from final import Final, Stop

def nodup(st, segs):
    """what has two owners (leaks are allowed)"""
    by = {}
    for s in segs:
        if s[0] == '1' and type(s[2]) is Tok: s = ('S', ONE, s[2].src, s[2].idx)
        if s[0] == 'S' and s[2][0] != 'C' and not st.same(s[1], 0): by.setdefault(s[2], []).append((s[3], s[1]))
    for src, ivs in by.items():
        for i, x in enumerate(ivs):
            for y in ivs[:i]:
                if st.facts.ge(x[0], y[0] + y[1]) or st.facts.ge(y[0], x[0] + x[1]): continue
                if st.decide('eq', x[1], 0) or st.decide('eq', y[1], 0): continue
                if not (st.decide('ge', x[0], y[0] + y[1]) or st.decide('ge', y[0], x[0] + x[1])): return src
    return None

UNSAFE = ('linked twice', 'taken out', 'does not exist', 'more entries than', 'more keys than', 'an empty leaf', 'a released node', 'released twice', 'has no slot')
def after(R, I, st, base=('X', 'tree'), ordered=True):
    """the state an unwinding operation leaves"""
    tt = R.tt
    bad = []; odd = []
    def say(p, m): (bad if p == 'C05' or any(x in m for x in UNSAFE) else odd).append(m)
    F = Final(I, st, tt, base, say); F.ordered = ordered
    try:
        r = F.nid_of(F.root)
        got, lv = F.walk(r, top=True)
        F.chain()
        n = ZERO
        for x in F.seq(got, 0): n = st.norm(n + x[2])
        if not st.decide('eq', F.len, n):
            (bad if st.decide('gt', F.len, n) else odd).append('the recorded length exceeds the number of entries')
        F.nodes()
        links(F, bad)
        if not tt.noaug:
            if type(F.ra) is not Tok: raise Undecided('root augmentation')
            F.live.append(('S', ONE, F.ra.src, F.ra.idx))
        d = nodup(st, list(F.live) + list(st.drops))
        if d is not None: bad.append(f'{F.what(d)} is owned or dropped twice')
    except Stop: pass
    if odd and not bad: raise Undecided('the operation leaves the tree changed when it unwinds: ' + odd[0])
    return bad
def links(F, bad):
    """a link of a changed leaf leads to a node of the store"""
    st = F.st
    for x in F.leaves:
        if x[0] != 't': continue
        for w in ('prev', 'next'):
            l = x[2].f[F.tt.lf[w]]
            if type(l) is not Agg or l.v != 1: continue
            i = l.f[0]
            while type(i) is Agg and len(i.f) == 1: i = i.f[0]
            if type(i) is Nd: nid = st.res(i.nid)
            else: nid = next((n.nid for n in list(st.nodes.values()) if n.kind == 'L' and n.ids is not None and n.store == F.store['L'].sid and st.same(n.ids, st.norm(i))), None)
            if nid is not None and F.node(nid)[1] is None: bad.append(f'a {w} link leads to a node that is not in the store'); raise Stop()

def unwinding(name, base, root=None, fresh=False, **kw):
    def f(R, I, inst):
        st = base(R, I, inst)
        st.g['unwind'] = ('cmp', 'clone')
        st.g.pop('readonly', None)
        R.post = lambda I, st: None
        what = lambda st: {'cmp': 'comparison', 'clone': 'clone'}[st.g['unwound']]
        def unwound(I, st):
            if fresh:
                d = nodup(st, st.drops)
                if d is not None: R.emit('C07', f'{d[0]} is dropped twice when a {what(st)} panics')
                return
            for m in after(R, I, st): R.emit('C07', f'a panicking {what(st)} leaves the tree unsafe: {m}')
        R.unwound = unwound
        return st
    op('unwind_' + name, 'C07', ('C07',), root='root_' + (root or name), also='C07', **kw)(f)
for n_ in ('tree_insert', 'tree_remove', 'tree_get', 'tree_get_mut', 'tree_remove_by_augmentation', 'cursor_get', 'cursor_tree_first', 'cursor_first', 'cursor_last'):
    unwinding(n_, OPS['root_' + n_].fn)
for n_ in ('prev', 'next', 'prev_with_value', 'next_with_value', 'exists', 'value'):
    unwinding('cursor_' + n_, OPS['root_cursor_' + n_].fn, level={'quick': 1, 'thorough': 1})
unwinding('bulk_load', bulk.bulk, root='tree_bulk_load', fresh=True, cases=('dup66', '0-150'))
unwinding('tree_clone', clones.tree_clone, cases=('L', 'I'), fresh=True)
unwinding('leaf_clone', clones.node_clone('L'), root='low_leaf_clone', fresh=True)
unwinding('inner_clone', clones.node_clone('I'), root='low_inner_clone', fresh=True)
