"""C22: the union of two sets. Iterating one set is taken by its contract (decided separately, operation set_iter), so a
set is a strictly ascending sequence; how the two sequences interleave is arbitrary, and so is how often next is called."""
from lin import Lin, L, ZERO, ONE, sym, Infeasible
from dom import *
from interp import UNIT, NONE, some, PUSHED
import spec, models as M
from ops import op, OPS, opt
from iters import Driver
from dom import State

A, B = ('X', 'seta'), ('X', 'setb')
SRC = {A: ('seqa',), B: ('seqb',)}
IT = ('X', 'un')

def seq(v):
    if type(v) is not Agg or len(v.f) != 1 or type(v.f[0]) is not Agg or len(v.f[0].f) != 3: raise Undecided(f'set iterator {v}')
    return v.f[0].f
def mkseq(*f): return Agg(None, (Agg(None, f),))
def m_iter(I, st, inst, a):
    if type(a[0]) is not Ptr or a[0].base not in SRC: raise Undecided('set')
    return mkseq(Ptr(a[0].base), ZERO, st.g['n' + a[0].base[1][-1]])
def elem(b, i): return Ptr(b, (('i', i),))
def m_next(I, st, inst, a):
    p = a[0]; s, f, e = seq(M.rd(I, st, p))
    if not st.decide('lt', f, e): return NONE
    I.write(st, p.base, p.path, mkseq(s, st.norm(f + 1), e))
    return some(elem(s.base, f))
def m_back(I, st, inst, a):
    p = a[0]; s, f, e = seq(M.rd(I, st, p))
    if not st.decide('lt', f, e): return NONE
    l = st.norm(e - 1)
    I.write(st, p.base, p.path, mkseq(s, f, l))
    return some(elem(s.base, l))
def m_len(I, st, inst, a):
    s, f, e = seq(M.rd(I, st, a[0])); return st.norm(e - f)
def m_hint(I, st, inst, a):
    n = m_len(I, st, inst, a); return Agg(None, (n, some(n)))
def m_clone(I, st, inst, a): return M.rd(I, st, a[0])
CONTRACT = {'next': m_next, 'next_back': m_back, 'size_hint': m_hint, 'len': m_len, 'clone': m_clone}
def contracts(I):
    for i in I.prog.insts:
        T = I.T[i['args'][0]] if i['args'] else None
        if i['path'] == 'sweep_bptree::BPlusTreeSet::<K>::iter': I.models[i['id']] = m_iter
        elif i['name'] in CONTRACT and (i['path'].startswith('<sweep_bptree::iter::Iter<') or i['name'] == 'len' and T and T['k'] == 'adt' and T.get('path') == 'sweep_bptree::iter::Iter'):
            I.models[i['id']] = CONTRACT[i['name']]

def keypos(I, st, s, idx): return ('Z', s[0][-1], idx) if s in (('seqa',), ('seqb',)) else None
def order(I, st, x, y):
    """how element x of one set compares with element y of the other (or of the same)"""
    if x[1] == y[1]:
        return [(o, (lambda s, o=o: s.assume(o, x[2], y[2]))) for o in ('lt', 'eq', 'gt')]
    if x[1] == 'b': return [({'lt': 'gt', 'gt': 'lt', 'eq': 'eq'}[o], f) for o, f in order(I, st, y, x)]
    i, j = st.g['ui'], st.g['uj']
    if not st.decide('ge', x[2], i):
        if not st.decide('ge', y[2], j): raise Undecided('the order of two elements that were handed out')
        return [('lt', lambda s: None)]
    if not st.decide('ge', y[2], j): return [('gt', lambda s: None)]
    h = st.g['uhead']
    if st.decide('eq', x[2], i) and st.decide('eq', y[2], j):
        if h != 'any': return [(h, lambda s: None)]
        def mk(o):
            def f(s): s.g['uhead'] = o
            return f
        return [(o, mk(o)) for o in ('lt', 'eq', 'gt')]
    if st.decide('eq', y[2], j) and h in ('gt', 'eq'): return [('gt', lambda s: None)]
    if st.decide('eq', x[2], i) and h in ('lt', 'eq'): return [('lt', lambda s: None)]
    raise Undecided('the order of elements that are not next')

@op('set_union', 'C22', ('C22', 'C05'), root='root_set_union', joined=True)
def union(R, I, inst):
    st = State(I.prog)
    g = st.g
    g['na'], g['nb'] = st.fsym('na', 0, 1 << 48), st.fsym('nb', 0, 1 << 48)
    g['N'] = st.norm(g['na'] + g['nb'])
    g['ui'] = g['uj'] = ZERO; g['uhead'] = 'any'; g['readonly'] = True
    g['keypos'] = keypos; g['order'] = order; g['kp'] = g['kf'] = ZERO
    for b in SRC: st.mem[b] = Arr((('S', g['n' + b[1][-1]], SRC[b], ZERO),))
    contracts(I)
    D = Driver(R, I); R.driver = D
    say = lambda m: R.emit('C22', m)
    def post_new(I, st):
        st.mem[IT] = st.g['result']; D.push(st)
    D.call(st, 'root_set_union', [Ptr(A), Ptr(B)], post_new)
    def left(st): return st.decide('lt', st.g['ui'], st.g['na']), st.decide('lt', st.g['uj'], st.g['nb'])
    def head(I, st):
        if st.g['uhead'] == 'any':
            M.settle(st, order(I, st, ('Z', 'a', st.g['ui']), ('Z', 'b', st.g['uj'])), 'head', st.g['ui'], st.g['uj'])
        return st.g['uhead']
    def is_(st, r, b, i):
        if type(r) is not Ptr or r.base not in SRC or len(r.path) != 1: raise Undecided(f'result {r}')
        return r.base == b and st.decide('eq', r.path[0][1], i)
    def take(I, st, r, what):
        """the result must be the smallest key not handed out yet; -> which sets lose it"""
        a, b = left(st)
        i, j = st.g['ui'], st.g['uj']
        if not a and not b:
            if r is not None: say(f'{what} yields something after the last key'); return None
            return (0, 0)
        if r is None: say(f'{what} yields nothing although keys are left'); return None
        o = head(I, st) if a and b else 'lt' if a else 'gt'
        if not ((o != 'gt' and is_(st, r, A, i)) or (o != 'lt' and is_(st, r, B, j))): say(f'{what} does not yield the smallest key left'); return None
        return (o != 'gt', o != 'lt')
    def post_next(I, st):
        t = take(I, st, opt(st.g['result']), 'next')
        if t is None: return
        st.g['ui'] = st.norm(st.g['ui'] + int(t[0])); st.g['uj'] = st.norm(st.g['uj'] + int(t[1])); 
        if t != (0, 0): st.g['uhead'] = 'any'
        D.push(st)
    def post_min(I, st): take(I, st, opt(st.g['result']), 'min')
    def post_hint(I, st):
        r = st.g['result']; hi = opt(r.f[1])
        ra, rb = st.norm(st.g['na'] - st.g['ui']), st.norm(st.g['nb'] - st.g['uj'])
        h = st.g['uhead'] if all(left(st)) else 'any'
        # the fewest keys that may still come: all of the smaller set are in the larger one, except a head known to be alone
        xa, xb = st.norm(ra + (1 if h == 'gt' else 0)), st.norm(rb + (1 if h == 'lt' else 0))
        lo = xa if st.decide('ge', xa, xb) else xb
        if not st.decide('le', r.f[0], lo): say('the lower size bound exceeds the number of keys that may be left')
        most = st.norm(ra + rb - (1 if h == 'eq' else 0))
        if hi is not None and not st.decide('ge', hi, most): say('the upper size bound is below the number of keys that may be left')
    def post_clone(I, st):
        st.mem[IT] = st.g['result']; D.push(st)
    D.run([lambda s: D.call(s, 'root_union_next', [Ptr(IT)], post_next),
           lambda s: D.call(s, 'root_union_min', [I.read(s, IT, ())], post_min),
           lambda s: D.call(s, 'root_union_size_hint', [Ptr(IT)], post_hint),
           lambda s: D.call(s, 'root_union_clone', [Ptr(IT)], post_clone)])
    return None
