"""C05 under an inconsistent order: every comparison of keys may answer anything, and every search may find or miss at any
index. Nothing is asked of the results but memory safety: what an operation returns refers to live slots, and what it
leaves (also when it panics) is a tree that is safe to use and to drop (unwind.after). The entry states say nothing about
the order of the keys either, so the statement is inductive over any sequence of calls."""
from dom import *
from lin import L, sym
import ops, unwind, bulk
from ops import op, OPS, opt

QUICK = bulk.QUICK

def refs(I, st, v):
    """a reference inside v to a slot that holds nothing"""
    t = type(v)
    if t is Ptr:
        if v.ln is not None: return False
        return I.read(st, v.base, v.path) is UNINIT
    if t is Agg: return any(refs(I, st, x) for x in v.f)
    return v is UNINIT

def safe(name, base, root=None, readonly=False, **kw):
    def f(R, I, inst):
        st = base(R, I, inst)
        st.g.pop('readonly', None) if not readonly else None
        def exit(I, st, how):
            for m in unwind.after(R, I, st, ordered=False): R.emit('C05', f'under an inconsistent order it {how} a tree that is unsafe: {m}')
        def post(I, st):
            if refs(I, st, st.g['result']): R.emit('C05', 'under an inconsistent order it returns what is not initialised')
            if not readonly: exit(I, st, 'leaves')
        R.post = post
        R.unwound = lambda I, st: exit(I, st, 'panics and leaves')
        return st
    op('safe_' + name, 'C05', ('C05',), root='root_' + (root or name), mode='safety', **kw)(f)
for n_ in ('tree_get', 'tree_get_mut', 'cursor_get', 'tree_rank_by_augmentation'): safe(n_, OPS['root_' + n_].fn, readonly=True)
for n_ in ('tree_insert', 'tree_remove'): safe(n_, OPS['root_' + n_].fn)
for n_ in ('prev', 'next', 'prev_with_value', 'next_with_value', 'exists', 'value'):
    safe('cursor_' + n_, OPS['root_cursor_' + n_].fn, readonly=True, level={'quick': 1, 'thorough': 1}, slow=True, cases=() if QUICK and n_ in ('prev', 'next', 'exists') else (None,))
