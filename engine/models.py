"""Semantics of the standard-library operations and of the opaque user callbacks.

Only operations whose bodies are not interpreted are listed. Orders of keys are decided by positions:
entry number p of the tree is the p-th key; the looked-up key has kp smaller entries and is present
iff kf = 1."""
from lin import Lin, L, ZERO, ONE, sym, Infeasible
from dom import *
import interp as _i
from interp import UNIT, NONE, some, Panic, PUSHED, Agg, ConstRef

EXACT = {}
SUFFIX = []
def model(*paths):
    def d(f):
        for p in paths: EXACT[p] = f
        return f
    return d

def install(I): pass

ORD = {'lt': Agg(0, ()), 'eq': Agg(1, ()), 'gt': Agg(2, ())}

def ctor(v):
    """a tuple variant used as a function"""
    return lambda I, st, inst, a: Agg(v, tuple(a))
def lookup(I, inst):
    p = inst['path']
    f = EXACT.get(p)
    if f: return f
    if inst["crate"] == "probe": return EXACT.get(p) or user(I, inst)
    last = p.rsplit('::', 1)[-1]
    if inst['body'] is None and '::' in p:
        for T in I.T:
            if T['k'] == 'adt' and T.get('path') == p.rsplit('::', 1)[0] and T['kind'] in ('enum', 'struct'):
                for i, v in enumerate(T['variants']):
                    if v['name'] == last: return ctor(i if T['kind'] == 'enum' else None)
                break
    if last == 'precondition_check': return lambda I, st, inst, a: UNIT
    if p.startswith('core::panicking::') or p in PANICS:
        return panic_nounwind if 'nounwind' in p else panic
    if inst['trait'] in ('std::clone::Clone', 'core::clone::Clone') and last == 'clone' and inst['args']:
        a0 = I.T[inst['args'][0]]
        if a0['k'] == 'ref' or a0['k'] == 'prim': return clone_copy
    if p.startswith('std::sync::atomic::Atomic'):
        if last == 'load':
            def load(I, st, inst, a):
                v = rd(I, st, a[0])
                if I.nohint and type(v) is Lin and 'nleaf0' in st.g:
                    h = st.fsym('hint', 0); st.facts = st.facts.add_ge(h - st.g['nleaf0'] - 2)
                    return h
                # other readers of a shared tree may have written in between
                return st.fsym('hint', 0) if I.shared and type(v) is Lin else v
            return load
        if last == 'store':
            def store(I, st, inst, a):
                I.write(st, a[0].base, a[0].path, a[1]); return UNIT
            return store
        if last == 'new': return ident
        if last in ('get_mut', 'as_ptr'): return ident
        if last == 'into_inner': return ident
    if 'Atomic' in p and last == 'default': return lambda I, st, inst, a: ZERO
    if inst['name'] == 'default' and inst['out'] >= 0 and I.T[inst['out']]['s'] in ('usize', 'u64', 'u32', 'u16'):
        return lambda I, st, inst, a: ZERO
    for pre, suf, f in SUFFIX:
        if p.startswith(pre) and p.endswith(suf): return f
    return None

PANICS = {'std::rt::panic_fmt', 'std::rt::begin_panic', 'core::panicking::panic', 'std::option::unwrap_failed', 'std::option::expect_failed', 'core::option::unwrap_failed',
          'core::option::expect_failed', 'core::result::unwrap_failed', 'std::result::unwrap_failed', 'core::slice::index::slice_index_fail', 'std::alloc::handle_alloc_error', 'alloc::alloc::handle_alloc_error'}
def panic(I, st, inst, a): raise Panic(inst['path'].rsplit('::', 1)[-1])
def panic_nounwind(I, st, inst, a): raise Bad('access', 'unsafe precondition violated')
def ident(I, st, inst, a): return a[0]
def rd(I, st, p):
    if type(p) is Lazy: p = I.lazy(st, p)
    if type(p) is not Ptr: raise Undecided(f'read through {p}')
    if p.ln is not None: raise Undecided('read of slice')
    return I.read(st, p.base, p.path)
def clone_copy(I, st, inst, a): return rd(I, st, a[0])

# ------------------------------------------------------------ slices, arrays
def elem_ptr(p, i): return Ptr(p.base, p.path + (('i', i),))
def slen(st, p):
    if type(p) is not Ptr or p.ln is None: raise Undecided(f'not a slice: {p}')
    return p.ln
@model('core::slice::<impl [T]>::len')
def sl_len(I, st, inst, a): return slen(st, a[0])
@model('core::slice::<impl [T]>::is_empty')
def sl_empty(I, st, inst, a): return st.decide('eq', slen(st, a[0]), 0)

def index_kind(I, inst):
    for t in inst['args']:
        s = I.T[t]['s']
        if s == 'usize': return 'elem'
        if 'ops::Range' in s or 'range::Range' in s:
            for k in ('RangeFull', 'RangeFrom', 'RangeToInclusive', 'RangeTo', 'RangeInclusive', 'Range'):
                if k + '<' in s or s.endswith(k): return k
    return None
def rng(I, st, kind, v, n):
    if kind == 'Range': return v.f[0], v.f[1]
    if kind == 'RangeTo': return ZERO, v
    if kind == 'RangeFrom': return v, n
    if kind == 'RangeFull': return ZERO, n
    if kind == 'RangeInclusive': return v.f[0], v.f[1] + 1
    if kind == 'RangeToInclusive': return ZERO, v + 1
    raise Undecided('range kind')
def as_slice(I, st, p):
    """a pointer to a slice, array or Vec as a slice pointer"""
    if type(p) is ConstRef: p = p.ptr(st)
    if type(p) is not Ptr: raise Undecided(f'slice {p}')
    if p.ln is not None: return p
    v = I.read(st, p.base, p.path)
    if type(v) is Arr: return Ptr(p.base, p.path, ZERO, st.alen(v.segs))
    if type(v) in (VecV, StoreV): return Ptr(p.base, p.path, ZERO, v.ln)
    raise Undecided(f'slice of {v}')
def index(I, st, inst, a, mode, kind=None):
    p = as_slice(I, st, a[0]); i = a[1]
    kind = kind or index_kind(I, inst); n = p.ln
    if kind == 'elem':
        if st.decide('lt', i, n): return Ptr(p.base, p.path + (('i', st.norm(p.off + i)),))
        if mode == 'get': return None
        if mode == 'unchecked': raise Bad('access', f'unchecked element access out of bounds')
        raise Panic('index out of bounds')
    if kind is None: raise Undecided('index kind')
    lo, hi = rng(I, st, kind, i, n)
    if st.decide('le', lo, hi) and st.decide('le', hi, n): return Ptr(p.base, p.path, st.norm(p.off + lo), st.norm(hi - lo))
    if mode == 'get': return None
    if mode == 'unchecked': raise Bad('access', 'unchecked range access out of bounds')
    raise Panic('range out of bounds')
@model('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
def sl_gu(I, st, inst, a): return index(I, st, inst, a, 'unchecked')
@model('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut')
def sl_get(I, st, inst, a):
    r = index(I, st, inst, a, 'get')
    return NONE if r is None else some(r)
@model('core::slice::index::<impl std::ops::Index<I> for [T]>::index', 'core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut',
       'std::array::<impl std::ops::Index<I> for [T; N]>::index', 'std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut',
       '<std::vec::Vec<T, A> as std::ops::Index<I>>::index', '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut')
def sl_index(I, st, inst, a): return index(I, st, inst, a, 'panic')
@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::first_mut')
def sl_first(I, st, inst, a):
    p = slen(st, a[0])
    return some(elem_ptr(a[0], a[0].off)) if st.decide('ge', p, 1) else NONE
@model('core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::last_mut')
def sl_last(I, st, inst, a):
    p = slen(st, a[0])
    return some(elem_ptr(a[0], st.norm(a[0].off + p - 1))) if st.decide('ge', p, 1) else NONE
@model('core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr', 'std::vec::Vec::<T, A>::as_ptr', 'std::vec::Vec::<T, A>::as_mut_ptr')
def sl_ptr(I, st, inst, a):
    p = as_slice(I, st, a[0])
    return elem_ptr(p, p.off)
@model('std::array::<impl [T; N]>::as_slice', 'std::array::<impl [T; N]>::as_mut_slice', 'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice',
       '<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
       'std::array::<impl std::convert::AsRef<[T]> for [T; N]>::as_ref')
def to_slice(I, st, inst, a): return as_slice(I, st, a[0])
@model('std::slice::from_raw_parts', 'std::slice::from_raw_parts_mut', 'core::slice::from_raw_parts', 'core::slice::from_raw_parts_mut',
       'std::ptr::slice_from_raw_parts', 'std::ptr::slice_from_raw_parts_mut', 'core::slice::raw::from_raw_parts', 'core::slice::raw::from_raw_parts_mut')
def frp(I, st, inst, a): return I.mk_slice(st, a[0], a[1])
@model('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut', 'core::slice::<impl [T]>::split_at_unchecked')
def sl_split(I, st, inst, a):
    p = a[0]; n = slen(st, p); m = a[1]
    if not st.decide('le', m, n): raise Panic('split_at out of bounds')
    return Agg(None, (Ptr(p.base, p.path, p.off, m), Ptr(p.base, p.path, st.norm(p.off + m), st.norm(n - m))))
@model('core::slice::<impl [T]>::swap')
def sl_swap(I, st, inst, a):
    p = a[0]; n = slen(st, p)
    for i in a[1:]:
        if not st.decide('lt', i, n): raise Panic('index out of bounds')
    x = I.read(st, p.base, p.path + (('i', st.norm(p.off + a[1])),)); y = I.read(st, p.base, p.path + (('i', st.norm(p.off + a[2])),))
    if st.decide('eq', a[1], a[2]): return UNIT
    I.write(st, p.base, p.path + (('i', st.norm(p.off + a[1])),), y)
    I.write(st, p.base, p.path + (('i', st.norm(p.off + a[2])),), x)
    return UNIT
def rotate(I, st, p, k):
    v = I.read(st, p.base, p.path)
    segs = st.sub(v.segs, p.off, p.ln)
    x, y = st.cut(segs, k)
    new = Arr(st.replace(v.segs, p.off, p.ln, y + x))
    I.write(st, p.base, p.path, new)
    return UNIT
@model('core::slice::<impl [T]>::rotate_left')
def sl_rl(I, st, inst, a):
    if not st.decide('le', a[1], slen(st, a[0])): raise Panic('rotate out of bounds')
    return rotate(I, st, a[0], a[1])
@model('core::slice::<impl [T]>::rotate_right')
def sl_rr(I, st, inst, a):
    if not st.decide('le', a[1], slen(st, a[0])): raise Panic('rotate out of bounds')
    return rotate(I, st, a[0], st.norm(a[0].ln - a[1]))
@model('core::slice::<impl [T]>::copy_within')
def sl_cw(I, st, inst, a):
    p = a[0]; n = slen(st, p)
    k = None
    for t in inst['args']:
        s = I.T[t]['s']
        for kk in ('RangeFull', 'RangeFrom', 'RangeToInclusive', 'RangeTo', 'RangeInclusive', 'Range'):
            if k is None and kk in s: k = kk
    lo, hi = rng(I, st, k, a[1], n)
    if not (st.decide('le', lo, hi) and st.decide('le', hi, n) and st.decide('le', a[2] + (hi - lo), n)): raise Panic('copy_within out of bounds')
    I.memcpy(st, elem_ptr(p, st.norm(p.off + lo)), elem_ptr(p, st.norm(p.off + a[2])), st.norm(hi - lo), True)
    return UNIT

# iterators over slices
@model('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
       "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter", "std::slice::Iter::<'a, T>::new", "std::slice::IterMut::<'a, T>::new",
       "std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter", "std::array::<impl std::iter::IntoIterator for &'a mut [T; N]>::into_iter",
       "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter")
def sl_iter(I, st, inst, a):
    p = as_slice(I, st, a[0])
    return It(p.base, p.path, p.off, st.norm(p.off + p.ln))
def it_next(I, st, inst, a):
    p = a[0]; it = rd(I, st, p)
    if type(it) is not It: raise Undecided(f'iterator {it}')
    if st.decide('lt', it.i, it.end):
        I.write(st, p.base, p.path, It(it.base, it.path, st.norm(it.i + 1), it.end))
        return some(Ptr(it.base, it.path + (('i', it.i),)))
    return NONE
def it_next_back(I, st, inst, a):
    p = a[0]; it = rd(I, st, p)
    if type(it) is not It: raise Undecided(f'iterator {it}')
    if st.decide('lt', it.i, it.end):
        e = st.norm(it.end - 1)
        I.write(st, p.base, p.path, It(it.base, it.path, it.i, e))
        return some(Ptr(it.base, it.path + (('i', e),)))
    return NONE
def it_nth(I, st, inst, a):
    p = a[0]; it = rd(I, st, p); n = a[1]
    if st.decide('lt', it.i + n, it.end):
        I.write(st, p.base, p.path, It(it.base, it.path, st.norm(it.i + n + 1), it.end))
        return some(Ptr(it.base, it.path + (('i', st.norm(it.i + n)),)))
    I.write(st, p.base, p.path, It(it.base, it.path, it.end, it.end))
    return NONE
def it_get(I, st, inst, a):
    it = rd(I, st, a[0])
    if type(it) is not It: raise Undecided(f'iterator {it}')
    if not st.decide('lt', it.i + a[1], it.end): raise Bad('access', 'an element past the end of an iterator is used')
    return Ptr(it.base, it.path + (('i', st.norm(it.i + a[1])),))
for c in ("std::slice::Iter<'a, T>", "std::slice::IterMut<'a, T>"):
    EXACT[f'<{c} as std::iter::Iterator>::next'] = it_next
    EXACT[f'<{c} as std::iter::DoubleEndedIterator>::next_back'] = it_next_back
    EXACT[f'<{c} as std::iter::Iterator>::nth'] = it_nth
    EXACT[f'<{c} as std::iter::Iterator>::size_hint'] = lambda I, st, inst, a: (lambda n: Agg(None, (n, some(n))))(it_len(I, st, inst, a))
    EXACT[f'<{c} as std::iter::Iterator>::__iterator_get_unchecked'] = it_get
    EXACT[f'<{c} as std::iter::ExactSizeIterator>::len'] = lambda I, st, inst, a: it_len(I, st, inst, a)
def it_len(I, st, inst, a):
    it = rd(I, st, a[0])
    return st.norm(it.end - it.i)
def it_last(I, st, inst, a):
    it = a[0]
    if st.decide('lt', it.i, it.end): return some(Ptr(it.base, it.path + (('i', st.norm(it.end - 1)),)))
    return NONE
EXACT["<std::slice::Iter<'a, T> as std::iter::Iterator>::last"] = it_last
# by-value arrays and vectors
@model('std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter')
def arr_into(I, st, inst, a):
    b = ('X', st.fresh('ai')); st.mem[b] = a[0]
    return It(b, (), ZERO, st.alen(a[0].segs))
@model('<std::array::IntoIter<T, N> as std::iter::Iterator>::next', '<std::vec::IntoIter<T, A> as std::iter::Iterator>::next')
def arr_next(I, st, inst, a):
    r = it_next(I, st, inst, a)
    if r is NONE: return r
    return some(rd(I, st, r.f[0]))
@model('<std::array::IntoIter<T, N> as std::iter::DoubleEndedIterator>::next_back', '<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back')
def arr_next_back(I, st, inst, a):
    r = it_next_back(I, st, inst, a)
    if r is NONE: return r
    return some(rd(I, st, r.f[0]))
@model('<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter')
def vec_into(I, st, inst, a):
    v = a[0]
    if type(v) is not VecV: raise Undecided('into_iter of a store')
    b = ('X', st.fresh('vi')); st.mem[b] = v
    return It(b, (), ZERO, v.ln)
@model('std::array::<impl [T; N]>::map')
def arr_map(I, st, inst, a):
    n = st.alen(a[0].segs)
    if not n.is_const() or n.c > 8: raise Undecided('array map')
    fty = next(t for t in inst['args'] if I.T[t]['k'] in ('closure', 'fndef'))
    out = [('1', ONE, I.sub(st, a[1], fty, [st.elem(a[0].segs, L(i))])) for i in range(n.c)]
    return Arr(st.norm_segs(tuple(out)))

# ------------------------------------------------------------ Vec
def vec_of(I, st, p):
    v = rd(I, st, p)
    if type(v) not in (VecV, StoreV): raise Undecided(f'Vec {v}')
    return v
@model('std::vec::Vec::<T, A>::len')
def v_len(I, st, inst, a): return vec_of(I, st, a[0]).ln
@model('std::vec::Vec::<T, A>::is_empty')
def v_empty(I, st, inst, a): return st.decide('eq', vec_of(I, st, a[0]).ln, 0)
def store_kind(I, t):
    """'L'/'I' if t is the element type of a node store vector"""
    s = I.T[t]['s']
    if s.startswith('std::option::Option<') and 'Box<' in s:
        if 'LeafNode' in s: return 'L'
        if 'InnerNode' in s: return 'I'
    return None
@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', '<std::vec::Vec<T> as std::default::Default>::default')
def v_new(I, st, inst, a):
    T = I.T[inst['out']]
    k = store_kind(I, T['args'][0])
    if k and st.g.get('store_init') != 'vec':
        sid = st.ctr.get('store', 0) + 1; st.ctr['store'] = sid
        return StoreV(k, ZERO, (), sid)
    return VecV(ZERO, Arr(()))
@model('std::vec::Vec::<T, A>::push')
def v_push(I, st, inst, a):
    p = a[0]; v = vec_of(I, st, p)
    if type(v) is VecV:
        I.write(st, p.base, p.path, VecV(st.norm(v.ln + 1), Arr(st.norm_segs(v.arr.segs + (('1', ONE, a[1]),)))))
        return UNIT
    nid = st.ctr.get('node', 0); st.ctr['node'] = nid + 1
    n = Node(nid, None, None, None, None, v.ln)
    n.kind = v.kind; n.new = True; n.size = None; n.store = v.sid
    st.nodes[nid] = n
    I.write(st, p.base, p.path, StoreV(v.kind, st.norm(v.ln + 1), v.slots + ((nid, a[1]),), v.sid))
    return UNIT
def find_inst(I, full):
    for i in I.prog.insts:
        if i['full'] == full: return i
    raise Undecided('no instance of ' + full[:80])
@model('std::slice::<impl [T]>::to_vec', 'std::slice::<impl [T]>::to_owned')
def s_to_vec(I, st, inst, a):
    p = a[0]; v = I.read(st, p.base, p.path)
    if type(v) is not StoreV or p.off is None or not st.decide('eq', p.off, 0) or not st.decide('eq', slen(st, p), v.ln): raise Undecided('to_vec')
    return v_clone(I, st, inst, a)
def any_node(I, st, kind):
    """an arbitrary node of that kind, of a tree of any size"""
    if st.decide('eq', st.g['N'], 0):
        if st.kind(st.g['root']) != 'L': raise Infeasible()
        return st.g['root'] if kind == 'L' else None
    x = st.fsym('ar', 0); y = st.fsym('br', 0)
    st.facts = st.facts.add_ge(y - x - 1).add_ge(st.g['N'] - y)
    rep = st.new_node(ZERO if kind == 'L' else st.fsym('lvr', 1, 15), x, y, None)
    if st.kind(rep) != kind: raise Infeasible()
    return rep
def each_node(I, st, v, el, arg, seq=False):
    """el(arg(slot)) for every node slot of store vector v, collected: one arbitrary slot stands for all (one case per kind of node)"""
    if v.sid or v.slots: raise Undecided('copy of a changed store')
    def go(I, st, fr):
        b = ('X', 'cloned' + v.kind)
        if fr.bb == 0:
            if st.g.get('clonekind', v.kind) != v.kind: rep = None
            else: rep = any_node(I, st, v.kind)
            st.g['rep' + v.kind] = None if rep is None else Nd(rep)
            fr.bb = 1
            empty = st.g.get('clonekind') == 'E'      # a slot that holds no node (any more)
            st.g['seq' + v.kind] = seq
            if rep is not None or empty:
                s = ('X', 'slot' + v.kind)
                st.mem[s] = Arr((('1', ONE, NONE if empty else some(Ptr(('H', rep)))),))
                I.push_call(st, el, arg(st, s), (b, ()), 'continue')
            return
        st.frames.pop()
        sid = st.ctr.get('store', 0) + 1; st.ctr['store'] = sid
        st.g['clone' + v.kind] = sid
        if fr.ret is not None: I.write(st, fr.ret[0], fr.ret[1], StoreV(v.kind, v.ln, (), sid))
        st.frames[-1] = st.frames[-1].copy()
    st.frames.append(_i.Frame(None, None, st.fresh_uid(), None, None, 'continue', 'py', go))
    return PUSHED
@model('<std::vec::Vec<T, A> as std::clone::Clone>::clone')
def v_clone(I, st, inst, a):
    v = I.read(st, a[0].base, a[0].path)
    if type(v) is not StoreV: raise Undecided('clone of a Vec')
    el = find_inst(I, f"<{I.T[inst['args'][0]]['s']} as std::clone::Clone>::clone")
    return each_node(I, st, v, el, lambda st, s: [Ptr(s, (('i', ZERO),))])
@model('redirect_vec_from_iter')
def v_collect(I, st, inst, a):
    """collect into a Vec: over a whole node store, one arbitrary slot stands for all"""
    found = []
    def swap(v, to):
        if type(v) is It:
            w = I.read(st, v.base, v.path) if v.base[0] != 'X' or v.base in st.mem else None
            if type(w) is StoreV and st.decide('eq', v.i, 0) and st.decide('eq', v.end, w.ln):
                found.append(w)
                return It(to, (), ZERO, ONE)
            return v
        if type(v) is Agg: return Agg(v.v, tuple(swap(x, to) for x in v.f))
        return v
    swap(a[0], None)
    if not found:
        I.push_call(st, inst, a, None, 'continue')
        return PUSHED
    t = I.T[inst['args'][1]]
    while t['k'] == 'adt' and t['path'] in ('std::iter::Map', 'std::iter::Cloned', 'std::iter::Copied', 'std::iter::Inspect', 'std::iter::Filter', 'std::iter::FilterMap', 'std::iter::Fuse'): t = I.T[t['args'][0]]
    part = rev = False
    def cutoff(v):
        return type(v) is Agg and (len(v.f) == 2 and type(v.f[0]) is It and type(v.f[1]) is Lin and v.f[1] or next((y for x in v.f for y in [cutoff(x)] if y is not False), False))
    while t['k'] == 'adt' and t['path'] in ('std::iter::Take', 'std::iter::Skip', 'std::iter::Rev'):
        n = cutoff(a[0])
        if t['path'] == 'std::iter::Rev': rev = not rev
        elif n is False: raise Undecided('collect')
        elif t['path'] == 'std::iter::Take': part = part or not st.decide('ge', n, found[0].ln)
        else: part = part or not st.decide('eq', n, 0)
        t = I.T[t['args'][0]]
    st.g['part' + found[0].kind] = part or rev
    if len(found) != 1 or t['k'] != 'adt' or t['path'] != 'std::slice::Iter': raise Undecided('collect from ' + t['s'][:60])
    el = None
    for bb in inst['body']['bbs']:
        t = bb['t']
        if t['t'] == 'call':
            j = callee(I, t)
            if j is not None and j['name'] == 'next': el = j
    if el is None: raise Undecided('collect')
    def arg(st2, s):
        b = ('X', 'colit'); st2.mem[b] = swap(a[0], s)
        return [Ptr(b)]
    return each_node(I, st, found[0], el, arg, True)
def callee(I, t):
    v = I.cval(t['f']['v']) if t['f']['o'] == 'const' else None
    return I.prog.insts[v.inst] if type(v) is FnV and v.inst >= 0 else None
@model('std::vec::Vec::<T, A>::pop')
def v_pop(I, st, inst, a):
    p = a[0]; v = vec_of(I, st, p)
    if type(v) is not VecV: raise Undecided('pop of store')
    if not st.decide('ge', v.ln, 1): return NONE
    n = st.norm(v.ln - 1)
    e = st.elem(v.arr.segs, n)
    l, _ = st.cut(v.arr.segs, n)
    I.write(st, p.base, p.path, VecV(n, Arr(l)))
    return some(e)
@model('std::vec::Vec::<T, A>::reserve', 'std::vec::Vec::<T, A>::shrink_to_fit')
def v_nop(I, st, inst, a): return UNIT

# ------------------------------------------------------------ Box, raw memory
@model('std::boxed::Box::<T>::from_raw', 'std::boxed::Box::<T>::into_raw', 'std::boxed::Box::<T, A>::into_raw', 'std::boxed::Box::<T, A>::leak',
       '<std::boxed::Box<T, A> as std::convert::AsMut<T>>::as_mut', '<std::boxed::Box<T, A> as std::convert::AsRef<T>>::as_ref',
       'std::ptr::NonNull::<T>::new_unchecked', 'std::ptr::NonNull::<T>::as_ptr')
def bx(I, st, inst, a):
    if inst['name'] in ('as_mut', 'as_ref'): return rd(I, st, a[0])
    return a[0]
@model('<std::boxed::Box<T, A> as std::ops::Deref>::deref', '<std::boxed::Box<T, A> as std::ops::DerefMut>::deref_mut')
def bx_deref(I, st, inst, a): return rd(I, st, a[0])
@model('std::boxed::Box::<T>::new')
def bx_new(I, st, inst, a):
    b = ('H', st.fresh('new')); st.mem[b] = a[0]
    return Ptr(b)
@model('std::alloc::alloc', 'std::alloc::alloc_zeroed', 'alloc::alloc::alloc')
def m_alloc(I, st, inst, a):
    b = ('H', st.fresh('new')); st.mem[b] = Opq('raw')
    return Ptr(b)
@model('std::boxed::Box::<T>::new_uninit', 'std::boxed::Box::<T, A>::new_uninit_in', 'std::boxed::Box::<T>::new_uninit_in')
def bx_nu(I, st, inst, a):
    b = ('H', st.fresh('new'))
    t = I.T[inst['out']]['args'][0]
    st.mem[b] = typed_uninit(I, t)
    return Ptr(b)
@model('std::boxed::Box::<std::mem::MaybeUninit<T>, A>::assume_init')
def bx_ai(I, st, inst, a): return a[0]
@model('std::alloc::Layout::new', 'core::alloc::Layout::new')
def m_layout(I, st, inst, a): return Opq('layout')
def typed_uninit(I, t):
    t = I.ty.strip(t); T = I.T[t]
    if T['k'] == 'adt' and T['kind'] == 'struct' and T['path'] not in _i.OPAQUE_ADT and not T.get('box'):
        return Agg(None, [typed_uninit(I, f[1]) for f in T['variants'][0]['fields']])
    if T['k'] == 'tuple' and T['fields']: return Agg(None, [typed_uninit(I, f) for f in T['fields']])
    return I.ty.uninit(t)
def retype(I, st, p, t):
    if type(p) is Ptr and not p.path and st.mem.get(p.base) == Opq('raw') and I.T[I.ty.strip(t)]['k'] in ('adt', 'array', 'tuple'):
        st.mem[p.base] = typed_uninit(I, t)
@model('std::ptr::mut_ptr::<impl *mut T>::cast', 'std::ptr::const_ptr::<impl *const T>::cast')
def p_cast(I, st, inst, a):
    p = a[0]
    if type(p) is not Ptr: return p
    A, D = I.T[I.ty.strip(inst['args'][0])], I.T[I.ty.strip(inst['args'][1])]
    retype(I, st, p, inst['args'][1])
    if A['k'] == 'array' and D['k'] != 'array': return Ptr(p.base, p.path + (('i', ZERO),))
    return p
@model('std::ptr::mut_ptr::<impl *mut T>::is_null', 'std::ptr::const_ptr::<impl *const T>::is_null')
def p_null(I, st, inst, a):
    if type(a[0]) is Ptr: return False
    raise Undecided('is_null')
@model('std::ptr::mut_ptr::<impl *mut T>::add', 'std::ptr::const_ptr::<impl *const T>::add', 'std::ptr::mut_ptr::<impl *mut T>::offset', 'std::ptr::const_ptr::<impl *const T>::offset')
def p_add(I, st, inst, a): return I.ptr_add(st, a[0], a[1])
@model('std::ptr::mut_ptr::<impl *mut T>::sub', 'std::ptr::const_ptr::<impl *const T>::sub')
def p_sub(I, st, inst, a): return I.ptr_add(st, a[0], -a[1])
@model('std::ptr::copy', 'std::intrinsics::copy')
def p_copy(I, st, inst, a):
    I.memcpy(st, a[0], a[1], a[2], True); return UNIT
@model('std::ptr::mut_ptr::<impl *mut T>::copy_from', 'std::ptr::const_ptr::<impl *const T>::copy_to')
def p_copyf(I, st, inst, a):
    s, d = (a[1], a[0]) if inst['name'] == 'copy_from' else (a[0], a[1])
    I.memcpy(st, s, d, a[2], True); return UNIT
@model('std::ptr::copy_nonoverlapping', 'std::intrinsics::copy_nonoverlapping')
def p_copyn(I, st, inst, a):
    I.memcpy(st, a[0], a[1], a[2], False); return UNIT
@model('std::ptr::read', 'std::ptr::mut_ptr::<impl *mut T>::read', 'std::ptr::const_ptr::<impl *const T>::read')
def p_read(I, st, inst, a): return rd(I, st, a[0])
@model('std::ptr::write', 'std::ptr::mut_ptr::<impl *mut T>::write')
def p_write(I, st, inst, a):
    I.write(st, a[0].base, a[0].path, a[1]); return UNIT
@model('std::ptr::drop_in_place', 'std::ptr::mut_ptr::<impl *mut T>::drop_in_place', 'std::ptr::drop_glue')
def p_drop(I, st, inst, a):
    p = a[0]; t = inst['args'][0]
    if not I.T[t]['needs_drop'] and I.T[t]['k'] != 'slice': return UNIT
    I.push_drop(st, [('place', p.base, p.path, (p.off, p.ln) if p.ln is not None else None, t)], 'continue')
    return PUSHED
@model('std::mem::replace', 'std::ptr::replace', 'std::ptr::mut_ptr::<impl *mut T>::replace')
def m_replace(I, st, inst, a):
    v = rd(I, st, a[0]); I.write(st, a[0].base, a[0].path, a[1]); return v
@model('std::mem::swap', 'std::ptr::swap')
def m_swap(I, st, inst, a):
    x, y = rd(I, st, a[0]), rd(I, st, a[1])
    I.write(st, a[0].base, a[0].path, y); I.write(st, a[1].base, a[1].path, x)
    return UNIT
@model('std::mem::forget')
def m_forget(I, st, inst, a): return UNIT
@model('std::mem::drop')
def m_drop(I, st, inst, a):
    t = inst['args'][0]
    if not I.T[t]['needs_drop']: return UNIT
    b = ('X', st.fresh('dr')); st.mem[b] = a[0]
    I.push_drop(st, [('place', b, (), None, t)], 'continue')
    return PUSHED
# MaybeUninit / ManuallyDrop are transparent
for p_ in ('std::mem::ManuallyDrop::<T>::new', 'std::mem::ManuallyDrop::<T>::into_inner', '<std::mem::ManuallyDrop<T> as std::ops::Deref>::deref',
          '<std::mem::ManuallyDrop<T> as std::ops::DerefMut>::deref_mut', 'std::mem::MaybeUninit::<T>::new', 'std::mem::MaybeUninit::<T>::as_ptr', 'std::mem::MaybeUninit::<T>::as_mut_ptr',
          '<I as std::iter::IntoIterator>::into_iter', '<T as std::convert::From<T>>::from', '<T as std::borrow::Borrow<T>>::borrow', '<T as std::borrow::BorrowMut<T>>::borrow_mut',
          'std::convert::num::<impl std::convert::From<u16> for usize>::from', 'std::convert::num::<impl std::convert::From<u32> for u64>::from', 'std::hint::black_box', 'std::iter::Iterator::by_ref',
          'std::convert::identity', 'std::convert::num::<impl std::convert::From<u8> for usize>::from', 'std::intrinsics::likely', 'std::intrinsics::unlikely'):
    EXACT[p_] = ident
@model('std::mem::ManuallyDrop::<T>::take')
def md_take(I, st, inst, a): return rd(I, st, a[0])
@model('std::mem::MaybeUninit::<T>::uninit')
def mu_uninit(I, st, inst, a): return I.ty.uninit(inst['out'])
@model('std::mem::MaybeUninit::<T>::write')
def mu_write(I, st, inst, a):
    I.write(st, a[0].base, a[0].path, a[1]); return a[0]
def chk(v):
    if v is UNINIT: raise Bad('access', 'an uninitialised slot is read')
    return v
@model('std::mem::MaybeUninit::<T>::assume_init')
def mu_ai(I, st, inst, a): return chk(a[0])
@model('std::mem::MaybeUninit::<T>::assume_init_ref', 'std::mem::MaybeUninit::<T>::assume_init_mut')
def mu_air(I, st, inst, a):
    chk(rd(I, st, a[0])); return a[0]
@model('std::mem::MaybeUninit::<T>::assume_init_read')
def mu_read(I, st, inst, a): return chk(rd(I, st, a[0]))
@model('std::mem::MaybeUninit::<T>::assume_init_drop')
def mu_drop(I, st, inst, a):
    p = a[0]; t = inst['args'][0]
    if not I.T[t]['needs_drop']: return UNIT
    chk(rd(I, st, p))
    I.push_drop(st, [('place', p.base, p.path, None, t)], 'continue')
    return PUSHED
@model('std::intrinsics::assert_inhabited', 'std::intrinsics::cold_path', 'std::intrinsics::assert_zero_valid', 'std::hint::assert_unchecked', 'std::hint::spin_loop')
def nop(I, st, inst, a): return UNIT
@model("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::new", "std::fmt::Arguments::<'a>::new_const")
def opq(I, st, inst, a): return Opq('fmt')
@model('std::hint::unreachable_unchecked')
def unr(I, st, inst, a): raise Bad('access', 'unreachable_unchecked is reached')

# ------------------------------------------------------------ integers
@model('core::num::<impl usize>::checked_sub', 'core::num::<impl u16>::checked_sub', 'core::num::<impl u32>::checked_sub', 'core::num::<impl u64>::checked_sub')
def checked_sub(I, st, inst, a):
    if st.decide('ge', a[0], a[1]): return some(st.norm(a[0] - a[1]))
    return NONE
@model('core::num::<impl usize>::saturating_sub', 'core::num::<impl u16>::saturating_sub', 'core::num::<impl u64>::saturating_sub')
def sat_sub(I, st, inst, a):
    if st.decide('ge', a[0], a[1]): return st.norm(a[0] - a[1])
    return ZERO
@model('core::num::<impl usize>::wrapping_sub')
def wrap_sub(I, st, inst, a):
    if st.decide('ge', a[0], a[1]): return st.norm(a[0] - a[1])
    return st.norm(a[0] - a[1] + (1 << 64))
@model('core::num::<impl usize>::wrapping_add', 'core::num::<impl usize>::saturating_add', 'std::intrinsics::saturating_add', 'core::num::<impl usize>::unchecked_add')
def wrap_add(I, st, inst, a): return st.norm(a[0] + a[1])
@model('core::num::<impl usize>::checked_add')
def checked_add(I, st, inst, a): return some(st.norm(a[0] + a[1]))
@model('core::num::<impl usize>::div_ceil')
def div_ceil(I, st, inst, a):
    c = st.norm(a[1])
    if not c.is_const() or c.c <= 0: raise Undecided('div_ceil')
    q = st.fsym('q', 0)
    st.facts = st.facts.add_ge(q.scale(c.c) - a[0]).add_ge(a[0] + (c.c - 1) - q.scale(c.c))
    return q
def imin(I, st, inst, a):
    if st.decide('le', a[0], a[1]): return a[0]
    return a[1]
def imax(I, st, inst, a):
    if st.decide('ge', a[0], a[1]): return a[0]
    return a[1]
for c in ('usize', 'u16', 'u64', 'u32'):
    EXACT[f'std::cmp::impls::<impl std::cmp::Ord for {c}>::min'] = imin
    EXACT[f'std::cmp::impls::<impl std::cmp::Ord for {c}>::max'] = imax
    for o in ('lt', 'le', 'gt', 'ge'):
        EXACT[f'std::cmp::impls::<impl std::cmp::PartialOrd for {c}>::{o}'] = (lambda o: lambda I, st, inst, a: st.decide(o, rd(I, st, a[0]), rd(I, st, a[1])))(o)
    for o in ('eq', 'ne'):
        EXACT[f'std::cmp::impls::<impl std::cmp::PartialEq for {c}>::{o}'] = (lambda o: lambda I, st, inst, a: st.decide(o, rd(I, st, a[0]), rd(I, st, a[1])))(o)
    def icmp(I, st, inst, a):
        x, y = rd(I, st, a[0]), rd(I, st, a[1])
        if st.decide('lt', x, y): return ORD['lt']
        if st.decide('eq', x, y): return ORD['eq']
        return ORD['gt']
    EXACT[f'std::cmp::impls::<impl std::cmp::Ord for {c}>::cmp'] = icmp
def min2(I, st, inst, a):
    if type(a[0]) is Lin: return (imin if inst['name'] == 'min' else imax)(I, st, inst, a)
    raise Undecided(inst['path'])
EXACT['std::cmp::min'] = min2
EXACT['std::cmp::max'] = min2
EXACT['std::intrinsics::integer_min'] = imin
EXACT['std::intrinsics::integer_max'] = imax

# ------------------------------------------------------------ keys and their order
def unclone(src):
    while src[0] == 'cl': src = src[2]
    return src
QUERY = ('q', 'ik')
def keypos(I, st, t):
    """('Q',) for the looked-up key, ('E', p) for entry p, ('T', p) for a separator with threshold p"""
    if type(t) is not Tok: raise Undecided(f'comparison of {t}')
    s = unclone(t.src)
    if s[0] in QUERY: return ('Q',)
    if s[0] == 'K':
        n = st.nodes[s[1]]
        return ('E', st.norm(n.start + t.idx))
    if s[0] == 'S': return ('T', st.bp(s[1], st.norm(t.idx + 1)))
    f = st.g.get('keypos')
    if f:
        r = f(I, st, s, t.idx)
        if r: return r
    raise Undecided(f'order of {t}')
def note_sep(s, p, o):
    """remember how the looked-up key compares with the separator whose threshold is p"""
    if s.g.get('readonly'): return
    t = (s.norm(p), o)
    q = s.g.get('qsep', ())
    if t not in q: s.g['qsep'] = q + (t,)
def order_alts(I, st, x, y):
    """the possible results of comparing key x with key y, each with the assumption it makes"""
    if x == y: return [('eq', lambda s: None)]
    if x[0] == 'Z' or y[0] == 'Z':
        if x[0] != y[0]: raise Undecided('order')
        return st.g['order'](I, st, x, y)
    kp, kf = st.g.get('kp'), st.g.get('kf')
    def A(*cs):
        def f(s):
            for op, a, b in cs: s.assume(op, a, b)
        return f
    def T(o, p, *cs):
        def f(s):
            for op, a, b in cs: s.assume(op, a, b)
            note_sep(s, p, o)
        return f
    if x[0] == 'Q':
        if y[0] == 'E':
            p = y[1]
            return [('lt', A(('le', kp + kf, p))), ('eq', A(('eq', kf, 1), ('eq', kp, p))), ('gt', A(('ge', kp, p + 1)))]
        if y[0] == 'T':
            p = y[1]
            return [('lt', T('lt', p, ('le', kp + kf, p))), ('eq', T('ge', p, ('eq', kp, p))), ('gt', T('ge', p, ('ge', kp, p)))]
    if y[0] == 'Q':
        return [({'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}[o], f) for o, f in order_alts(I, st, y, x)]
    if x[0] == 'E' and y[0] == 'E':
        return [('lt', A(('lt', x[1], y[1]))), ('eq', A(('eq', x[1], y[1]))), ('gt', A(('gt', x[1], y[1])))]
    if x[0] == 'E' and y[0] == 'T':
        return [('lt', A(('lt', x[1], y[1]))), ('eq', A(('eq', x[1], y[1]))), ('gt', A(('ge', x[1], y[1])))]
    if x[0] == 'T' and y[0] == 'E':
        return [({'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}[o], f) for o, f in order_alts(I, st, y, x)]
    if x[0] == 'T' and y[0] == 'T':
        return [('lt', A(('lt', x[1], y[1]))), ('eq', A(('eq', x[1], y[1]))), ('gt', A(('gt', x[1], y[1])))]
    raise Undecided('order')
def compare(I, st, a, b):
    """'lt' | 'eq' | 'gt'; splits when undetermined"""
    if I.mode == 'safety': return safety_cmp(I, st)
    x, y = keypos(I, st, a), keypos(I, st, b)
    return settle(st, order_alts(I, st, x, y), 'cmp', x, y)
def safety_cmp(I, st, of=('lt', 'eq', 'gt')):
    k = ('cmp',)
    if k in st.choice: return st.choice.pop(k)
    def mk(v):
        def f(s): s.choice[k] = v
        return f
    raise Split([mk(v) for v in of])
def settle(st, alts, *key):
    key = ('ord',) + key
    if key in st.choice: return st.choice[key]
    live = []
    for o, f in alts:
        s = st.copy()
        try:
            f(s); live.append((o, f))
        except Infeasible: pass
    if len(live) == 1:
        live[0][1](st); return live[0][0]
    if not live: raise Infeasible()
    def mk(o, f):
        def g(s):
            f(s); s.choice[key] = o
        return g
    raise Split([mk(o, f) for o, f in live])
def keytok(I, st, p):
    """the key a reference (or reference to a reference) denotes"""
    for _ in range(4):
        if type(p) is Ptr: p = I.read(st, p.base, p.path)
        else: break
    if p is UNINIT: raise Bad('access', 'an uninitialised key slot is compared')
    return p

def cmp_event(I, st): user_may_unwind(I, st, 'cmp')
def user_may_unwind(I, st, what):
    """a user callback may return or unwind"""
    if st.unwinding or what not in st.g.get('unwind', ()): return
    k = ('unw',)         # forgotten when the current call is done
    if k not in st.choice:
        def mk(v):
            def f(s): s.choice[k] = v
            return f
        raise Split([mk(False), mk(True)])
    if st.choice[k]:
        st.g['unwound'] = what
        raise Panic('user ' + what, True)

def bsearch(I, st, p, classify):
    """binary search in slice p; classify(token) -> alternatives of comparing the ELEMENT with the probe"""
    v = I.read(st, p.base, p.path)
    segs = st.sub(v.segs if type(v) is Arr else v.arr.segs, p.off, p.ln)
    return segs

def search_result(I, st, segs, probe):
    """Result of a binary search for key `probe` among the strictly ascending keys segs"""
    for s in segs:
        if s[0] == 'U': raise Bad('access', 'a search reads uninitialised slots')
    n = st.alen(segs)
    if I.mode == 'safety':
        k = ('bs',)
        if k not in st.choice:
            def ok(s):
                i = s.fsym('bi', 0); s.facts = s.facts.add_ge(n - i - 1); s.choice[k] = Agg(0, (i,))
            def er(s):
                i = s.fsym('bi', 0); s.facts = s.facts.add_ge(n - i); s.choice[k] = Agg(1, (i,))
            raise Split([ok, er])
        return st.choice.pop(k)
    pk = keypos(I, st, probe)
    if pk[0] != 'Q': return search_general(I, st, segs, pk)
    kp, kf = st.g['kp'], st.g['kf']
    key = ('bs', pk, segs)
    if key in st.choice: return st.choice[key]
    ents = []      # (offset, seg, kind, position of element j as function)
    off = ZERO
    alts = []
    def posf(s):
        t0 = s[2]; u = unclone(t0)
        if u[0] == 'K':
            n0 = st.nodes[u[1]]
            base = st.norm(n0.start + s[3])
            return 'E', (lambda s_, j: base + j), (lambda s_, j: None)
        if u[0] == 'S':
            nid = u[1]
            return 'T', (lambda s_, j: s_.bp(nid, s_.norm(s[3] + j + 1))), None
        f = st.g.get('keypos')
        if f:
            r = f(I, st, u, s[3])
            if r: return r[0], (lambda s_, j: r[1] + j), None
        raise Undecided(f'search among {s}')
    for s in segs:
        if s[0] != 'S': raise Undecided(f'search among {s}')
    # outcomes: in each segment: found at j (0<=j<len), or insertion point j strictly inside (1<=j<=len-1); between segments
    off = ZERO
    prev = None
    for s in segs + (None,):
        # insertion point exactly at off: previous element < probe < next element
        o = off; pv, nx = prev, s
        def between(st2, o=o, pv=pv, nx=nx):
            if pv is not None:
                kd, pf, _ = posf(pv)
                q = pf(st2, st2.norm(pv[1] - 1))
                st2.assume('ge', kp, q + 1 if kd == 'E' else q)
                if kd == 'T': note_sep(st2, q, 'ge')
            if nx is not None:
                kd, pf, _ = posf(nx)
                q = pf(st2, ZERO)
                st2.assume('le', kp + kf, q)
                if kd == 'T': note_sep(st2, q, 'lt')
            st2.choice[key] = Agg(1, (o,))
        alts.append(between)
        if s is None: break
        kd, pf, _ = posf(s)
        def found(st2, s=s, o=o, kd=kd, pf=pf):
            if s[1].is_const() and s[1].c == 1: j = ZERO
            else:
                j = st2.fsym('fj', 0); st2.facts = st2.facts.add_ge(s[1] - j - 1)
            q = pf(st2, j)
            st2.assume('eq', kp, q)
            if kd == 'E': st2.assume('eq', kf, 1)
            else: note_sep(st2, q, 'ge')
            st2.saturate()
            st2.choice[key] = Agg(0, (st2.norm(o + j),))
        alts.append(found)
        if not (s[1].is_const() and s[1].c == 1):
            def inside(st2, s=s, o=o, kd=kd, pf=pf):
                j = st2.fsym('fj', 1); st2.facts = st2.facts.add_ge(s[1] - j - 1)
                a = pf(st2, st2.norm(j - 1)); b = pf(st2, j)
                st2.assume('ge', kp, a + 1 if kd == 'E' else a)
                st2.assume('le', kp + kf, b)
                if kd == 'T': note_sep(st2, a, 'ge'); note_sep(st2, b, 'lt')
                st2.saturate()
                st2.choice[key] = Agg(1, (st2.norm(o + j),))
            alts.append(inside)
        off = st.norm(off + s[1]); prev = s
    raise Split(alts)
def search_general(I, st, segs, pk): raise Undecided('search for a stored key')

def closure_ty(I, inst):
    for t in inst['args']:
        T = I.T[t]
        if T['k'] in ('closure', 'fndef'): return t
    raise Undecided('closure type')
def generic_elem(I, st, p):
    """a pointer to an arbitrary element of the (non-empty) slice, for evaluating key extractors"""
    return elem_ptr(p, p.off)
@model('core::slice::<impl [T]>::binary_search_by_key', 'core::slice::<impl [T]>::binary_search_by', 'core::slice::<impl [T]>::binary_search', 'core::slice::<impl [T]>::partition_point')
def bsearch_m(I, st, inst, a):
    p = a[0]; slen(st, p)
    v = I.read(st, p.base, p.path)
    arr = v if type(v) is Arr else v.arr
    segs = st.sub(arr.segs, p.off, p.ln)
    name = inst['name']
    if not st.decide('ge', p.ln, 1): return ZERO if name == 'partition_point' else Agg(1, (ZERO,))
    cmp_event(I, st)
    for s in segs:
        if s[0] == 'U': raise Bad('access', 'a search reads uninitialised slots')
        if s[0] != 'S': raise Undecided('search among ' + repr(s)[:60])
    if name == 'binary_search': probe = keytok(I, st, a[1])
    elif name == 'binary_search_by_key':
        probe = keytok(I, st, a[1])
        b = ('X', st.fresh('elem')); st.mem[b] = Tok(('gen', segs[0][2]), ZERO)
        r = keytok(I, st, I.sub(st, a[2], closure_ty(I, inst), [Ptr(b)]))
        st.mem.pop(b, None)
        if r != Tok(('gen', segs[0][2]), ZERO): raise Undecided('key extractor')
    else:
        # the closure compares an element with the probe: find out how by running it on a generic element
        b = ('X', st.fresh('elem')); st.mem[b] = Tok(('gen', segs[0][2]), ZERO)
        log = []
        res = {}
        for o in ('lt', 'eq', 'gt'):
            st.g['gencmp'] = (o, log)
            res[o] = I.sub(st, a[1], closure_ty(I, inst), [Ptr(b)])
        st.g.pop('gencmp', None); st.mem.pop(b, None)
        probes = {x for x in log}
        if len(probes) != 1: raise Undecided('search closure')
        probe = probes.pop()
        if name == 'binary_search_by':
            if any(type(res[o]) is not Agg or res[o].v != ORD[o].v for o in res): raise Undecided('search closure')
        else:
            t = tuple(res[o] for o in ('lt', 'eq', 'gt'))
            r = search_result(I, st, segs, probe)
            if t == (True, False, False): return r.f[0]
            if t == (True, True, False): return r.f[0] if r.v == 1 else st.norm(r.f[0] + 1)
            raise Undecided('search closure')
    return search_result(I, st, segs, probe)

# ------------------------------------------------------------ user callbacks
def user(I, inst):
    tr = inst['trait'].rsplit('::', 1)[-1]; name = inst['name']
    if inst['body'] is not None: return None
    if tr in ('PartialOrd', 'Ord', 'PartialEq'):
        if name == 'partial_cmp': return lambda I, st, inst, a: some(ORD[ucmp(I, st, a)])
        if name == 'cmp': return lambda I, st, inst, a: ORD[ucmp(I, st, a)]
        t = {'lt': ('lt',), 'le': ('lt', 'eq'), 'gt': ('gt',), 'ge': ('gt', 'eq'), 'eq': ('eq',), 'ne': ('lt', 'gt')}.get(name)
        if t: return lambda I, st, inst, a: ucmp(I, st, a, t) in t
        if name in ('min', 'max'):
            def mm(I, st, inst, a):
                x, y = a
                r = ucmp(I, st, a)
                take = (x if r != 'gt' else y) if name == 'min' else (y if r != 'gt' else x)
                other = y if take is x else x
                I.log_drop(st, ('S', ONE, other.src, other.idx))
                return take
            return mm
    if tr == 'Borrow': return borrow
    if tr == 'Clone': return uclone
    if tr == 'Drop': return lambda I, st, inst, a: UNIT
    if tr in ('Augmentation', 'Default', 'SearchAugmentation', 'RankAugmentation', 'DescendVisit', 'FromRef', 'Iterator'):
        import callbacks
        return callbacks.lookup(I, inst, tr, name)
    if name in ('sink', 'sink_n', 'sink_u', 'it_map'):
        return lambda I, st, inst, a: UNIT
    return None
def ucmp(I, st, a, among=None):
    cmp_event(I, st)
    x, y = keytok(I, st, a[0]), keytok(I, st, a[1])
    gc = st.g.get('gencmp')
    if gc:
        o, log = gc
        if type(x) is Tok and x.src[0] == 'gen': log.append(y); return o
        if type(y) is Tok and y.src[0] == 'gen': log.append(x); return {'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}[o]
    if type(x) is Tok and x.src[0] == 'ug' and type(y) is Tok and y.src[0] == 'ug': return group_compare(st, x.src, y.src)
    if I.mode == 'safety' and among: return safety_cmp(I, st, [next(o for o in ORD if o in among), next(o for o in ORD if o not in among)])
    return compare(I, st, x, y)
def group_compare(st, x, y):
    """groups ('ug', first entry, end of the entries, ordinal | None): contiguous, disjoint runs of entries"""
    if x == y: return 'eq'
    both = x[3] is not None and y[3] is not None
    def eq(s):
        s.assume('eq', x[1], y[1]); s.assume('eq', x[2], y[2])
        if both: s.assume('eq', x[3], y[3])
        if not both: s.g['gord'] = 'eq'
    def less(x, y, o):
        def f(s):
            s.assume('le', x[2], y[1])
            if both: s.assume('ge', y[3], x[3] + 1); s.assume('le', y[3] - x[3] - 1, y[1] - x[2])
            elif s.g.get('gord') is None: s.g['gord'] = o
        return f
    return settle(st, [('eq', eq), ('lt', less(x, y, 'lt')), ('gt', less(y, x, 'gt'))], 'ug', x, y)
def borrow(I, st, inst, a): return a[0]
NOKEY = ('V', 'A', 'RA', 'iv', 'app', 'bv', 'dv', 'rawv', 'ug')
def uclone(I, st, inst, a):
    t = keytok(I, st, a[0])
    if type(t) is Tok and unclone(t.src)[0] not in NOKEY: user_may_unwind(I, st, 'clone')
    if type(t) is not Tok: raise Undecided(f'clone of {t}')
    if t.src[0] == 'ug': return t
    n = st.ctr.get('cl', 0); st.ctr['cl'] = n + 1
    src = ('cl', n, t.src)
    st.made = st.made + (('S', ONE, src, t.idx),)
    return Tok(src, t.idx)
