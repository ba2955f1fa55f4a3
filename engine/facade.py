"""Contracts of the map and set types: those of the underlying tree, on the same argument and result."""
from lin import Lin, L, ZERO, ONE, sym, Infeasible
from dom import *
from interp import UNIT, NONE, some
import spec, iters
from ops import op, OPS, opt, entry_at, ref_at, tree_setup, unchanged, has_values, tree_insert, tree_remove, lookup, ends, search, descend_visit, rank_by_aug
from iters import two_ended, owning, pair_item, key_item, key_own, tree_clear, tree_drop, empty_tree, drop_setup, dropped_all

WRITES = ('C01', 'C02', 'C03', 'C04', 'C05', 'C08', 'C09', 'C20', 'C21')
LV = {'level': {'quick': 1, 'thorough': 2}}
def facade(name, base, props, adapt=None, **kw):
    """like the tree operation `base`; adapt translates the facade's result to that of the tree"""
    @op(name, 'C15', ('C15',) + props, also='C15', **{**LV, **kw})
    def f(R, I, inst):
        st = base(R, I, inst)
        if adapt:
            post = R.post
            def p(I, st):
                if 'adapted' not in st.g: st.g['result'] = adapt(st.g['result']); st.g['adapted'] = True
                post(I, st)
            R.post = p
        return st
    return f
def truth(v):
    if type(v) is not bool: raise Undecided(f'result {v}')
    return v
new_key = lambda r: NONE if truth(r) else some(UNIT)
had_key = lambda r: some(UNIT) if truth(r) else NONE

facade('root_map_insert', tree_insert, WRITES)
facade('root_map_remove', tree_remove, WRITES)
facade('root_map_get', lookup, ('C02', 'C05', 'C13'))
facade('root_map_get_mut', lookup, ('C02', 'C05', 'C13'))
facade('root_map_get_by_augmentation', lambda R, I, i: search(R, I, i, 'get'), ('C26', 'C06', 'C05', 'C13'))
facade('root_map_get_mut_by_augmentation', lambda R, I, i: search(R, I, i, 'mut'), ('C26', 'C06', 'C05'))
facade('root_map_remove_by_augmentation', lambda R, I, i: search(R, I, i, 'remove'), ('C26', 'C06', 'C01', 'C03', 'C04', 'C05', 'C08', 'C09', 'C20', 'C21'))
facade('root_map_descend_visit', descend_visit, ('C26', 'C06', 'C05', 'C13'))
facade('root_map_rank_by_augmentation', rank_by_aug, ('C26', 'C05', 'C13', 'C18', 'C19'))
facade('root_set_insert', tree_insert, WRITES, new_key)
facade('root_set_remove', tree_remove, WRITES, had_key)
facade('root_stree_insert', tree_insert, ('C01', 'C03', 'C04', 'C05'))
facade('root_stree_remove', tree_remove, ('C01', 'C03', 'C04', 'C05'))
facade('root_set_clear', tree_clear, ('C01', 'C03', 'C04', 'C05', 'C08', 'C09', 'C21'), joined=True)

@op('root_set_contains', 'C15', ('C15', 'C02', 'C05', 'C13'), also='C15', **LV)
def contains(R, I, inst):
    st = tree_setup(R, I, inst, 'q')
    st.g['tree0'] = st.mem[('X', 'tree')]; st.g['readonly'] = True
    spec.enter(I, st, R.root, [Ptr(('X', 'tree')), Ptr(('X', 'q'))])
    def post(I, st):
        if truth(st.g['result']) != st.decide('eq', st.g['kf'], 1): R.emit('C02', 'contains does not tell whether the key is present')
        unchanged(R, I, st)
    R.post = post
    return st

def set_end(name, last):
    @op(name, 'C15', ('C15', 'C25', 'C05', 'C13'), also='C15')
    def f(R, I, inst):
        st = tree_setup(R, I, inst)
        st.g['tree0'] = st.mem[('X', 'tree')]; st.g['readonly'] = True
        spec.enter(I, st, R.root, [Ptr(('X', 'tree'))])
        def post(I, st):
            N = st.g['N']; o = opt(st.g['result'])
            if st.decide('eq', N, 0):
                if o is not None: R.emit('C25', 'an empty set reports an end entry')
            elif o is None: R.emit('C25', 'no end entry is reported for a non-empty set')
            elif not ref_at(I, st, o, 'K', N - 1 if last else ZERO): R.emit('C25', 'the reported key is not the extreme one')
            unchanged(R, I, st)
        R.post = post
        return st
set_end('root_set_first', False); set_end('root_set_last', True)

def simple(name, props, judge, **kw):
    """a shared call that looks at the tree value only"""
    @op(name, kw.pop('main', 'C15'), props, **kw)
    def f(R, I, inst):
        st = tree_setup(R, I, inst)
        st.g['tree0'] = st.mem[('X', 'tree')]; st.g['readonly'] = True
        spec.enter(I, st, R.root, [Ptr(('X', 'tree'))])
        def post(I, st):
            m = judge(I, st, st.g['result'])
            if m: R.emit(R.op.main if m[0] is None else m[0], m[1])
            unchanged(R, I, st)
        R.post = post
        return st
def len_is(I, st, r): return None if st.decide('eq', r, st.g['N']) else ('C03', 'len is not the number of entries')
def empty_is(I, st, r): return None if truth(r) == st.decide('eq', st.g['N'], 0) else ('C03', 'is_empty does not tell whether there are no entries')
def ra_is(I, st, r):
    if type(r) is not Ptr: raise Undecided(f'result {r}')
    return None if I.read(st, r.base, r.path) == Tok(('RA',)) else ('C08', 'the reported augmentation is not that of the root')
for n_ in ('root_tree_len', 'root_map_len', 'root_set_len'): simple(n_, ('C03', 'C15', 'C13'), len_is, also='C15' if 'tree' not in n_ else None, main='C03')
for n_ in ('root_tree_is_empty', 'root_map_is_empty', 'root_set_is_empty'): simple(n_, ('C03', 'C15', 'C13'), empty_is, also='C15' if 'tree' not in n_ else None, main='C03')
for n_ in ('root_tree_root_augmentation', 'root_map_root_augmentation'): simple(n_, ('C08', 'C15', 'C13'), ra_is, also='C15' if 'tree' not in n_ else None, main='C08')

two_ended('map_iter', 'C15', ('C15', 'C10', 'C05', 'C13'), ('root_map_iter:iter', 'root_map_iter_next:next', 'root_map_iter_next_back:next_back', 'root_map_iter_size_hint:size_hint', 'root_map_iter_len:len', None), pair_item, joined=True, also='C15')
two_ended('set_iter', 'C15', ('C15', 'C10', 'C05', 'C13'), ('root_set_iter', 'root_set_iter_next', 'root_set_iter_next_back', 'root_set_iter_size_hint', 'root_set_iter_len', 'root_set_iter_clone'), key_item, joined=True, also='C15')
owning('set_into_iter', 'C15', ('C15', 'C11', 'C04', 'C05'), ('root_set_into_iter', 'root_set_into_iter_next', 'root_set_into_iter_next_back', 'root_set_into_iter_size_hint'), key_own, 'root_set_into_iter_drop', also='C15')

# ------------------------------------------------------------------ new trees
def fresh(name, props, kind):
    @op(name, 'C01' if kind == 'tree' else 'C15', props, also=None if kind == 'tree' else 'C15')
    def f(R, I, inst):
        out = inst['body']['locals'][0]
        R.tt = tt = spec.TreeTypes(I, out)
        tt.values = has_values(I, tt)
        st = spec.base_state(I, tt)
        st.mem.pop(('X', 'tree'))
        args = []
        if inst['body']['argc']: args = [st.fsym('cap', 0)]
        spec.enter(I, st, R.root, args)
        def post(I, st):
            st.mem[('X', 'new')] = st.g['result']
            live = empty_tree(R, I, st, ('X', 'new'), R.op.main)
            iters.Ledger(st, R.emit).own(list(live) + list(st.drops), {s[2]: (s[3], st.norm(s[3] + s[1])) for s in st.made})
        R.post = post
        return st
for n_ in ('root_tree_of_new', 'root_tree_of_default', 'root_tree_of_capacity'): fresh(n_, ('C01', 'C03', 'C04', 'C05', 'C08', 'C09', 'C13'), 'tree')
for n_ in ('root_map_new', 'root_map_default', 'root_set_new', 'root_set_default'): fresh(n_, ('C15', 'C01', 'C03', 'C08', 'C09', 'C04'), 'facade')
