"""User-supplied augmentation / visitor / iterator callbacks as uninterpreted observers.

A callback may return anything its type allows. What it is given and what it answers is logged in
st.events, so that the contracts can speak about it; values it consumes are logged as handed over."""
from lin import Lin, L, ZERO, ONE
from dom import *
from interp import UNIT, NONE, some, Panic, PUSHED, Agg
import models as M

def slice_segs(I, st, p):
    v = I.read(st, p.base, p.path)
    if type(v) is Arr: a = v
    elif type(v) is VecV: a = v.arr
    else: raise Undecided(f'slice given to a callback: {v}')
    segs = st.norm_segs(st.sub(a.segs, p.off, p.ln))
    for s in segs:
        if s[0] == 'U' and st.decide('ge', s[1], 1): raise Bad('access', 'a callback is given uninitialised slots')
    return segs

def new_app(I, st, kind, x, y):
    n = st.ctr.get('app', 0); st.ctr['app'] = n + 1
    st.apps[n] = (kind, x, y)
    src = ('app', n)
    st.made = st.made + (('S', ONE, src, ZERO),)
    return Tok(src, ZERO)

def fresh_tok(st, kind):
    """a value made by user code"""
    src = (kind, st.ctr.get(kind, 0)); st.ctr[kind] = src[1] + 1
    st.made = st.made + (('S', ONE, src, ZERO),)
    return Tok(src, ZERO)
def consume(I, st, v):
    """v is moved into user code"""
    if type(v) is not Tok: raise Undecided(f'{v} handed to a callback')
    I.log_drop(st, ('S', ONE, v.src, v.idx))

def group_at(st, p):
    """the group of the entry at p"""
    a = st.fsym('gs', 0); b = st.fsym('ge'); o = st.fsym('go', 0)
    st.facts = st.facts.add_ge(p - a).add_ge(b - p - 1).add_ge(st.g['N'] - b).add_ge(a - o)
    return Tok(('ug', a, b, o))
def any_index(st, p):
    return st.fsym(p, 0, (1 << 64) - 1)

def lookup(I, inst, tr, name):
    if tr == 'Augmentation':
        def f(I, st, inst, a):
            M.user_may_unwind(I, st, name)
            x, y = slice_segs(I, st, a[0]), slice_segs(I, st, a[1])
            return new_app(I, st, 'leaf' if name == 'from_leaf' else 'inner', x, y)
        return f
    if tr == 'Default':
        def f(I, st, inst, a):
            M.user_may_unwind(I, st, name)
            return new_app(I, st, 'default', (), ())
        return f
    if tr == 'SearchAugmentation':
        inner = name == 'locate_in_inner'
        def f(I, st, inst, a):
            k = ('cb', len(st.events))
            x, y = slice_segs(I, st, a[1]), slice_segs(I, st, a[2])
            M.user_may_unwind(I, st, name)
            r = st.choose(k, 2)
            consume(I, st, a[0])
            if not r:
                st.events += ((name, a[0], x, y, None),); return NONE
            j = any_index(st, 'uj')
            if not inner:
                st.events += ((name, a[0], x, y, j),); return some(j)
            q = fresh_tok(st, 'uq')
            st.events += ((name, a[0], x, y, j, q),)
            return some(Agg(None, (j, q)))
        return f
    if tr == 'RankAugmentation':
        def f(I, st, inst, a):
            M.user_may_unwind(I, st, name)
            if name == 'initial_value':
                r = fresh_tok(st, 'ur'); st.events += ((name, r),); return r
            if name == 'fold_inner':
                k = M.keytok(I, st, a[0]); x = slice_segs(I, st, a[2])
                consume(I, st, a[1]); r = fresh_tok(st, 'ur')
                st.events += ((name, k, a[1], x, r),); return r
            k = M.keytok(I, st, a[0]); x = slice_segs(I, st, a[3])
            v = st.choose(('cb', len(st.events)), 2)
            consume(I, st, a[1]); r = Agg(v, (fresh_tok(st, 'ur'),))
            st.events += ((name, k, a[1], a[2], x, r),)
            return r
        return f
    if tr == 'FromRef':
        def f(I, st, inst, a):
            k = M.keypos(I, st, M.keytok(I, st, a[0]))
            if k[0] == 'Q': return st.g['qgroup']
            if k[0] != 'E': raise Undecided('group of a separator')
            return group_at(st, k[1])
        return f
    if tr == 'Iterator' and name == 'next':
        def f(I, st, inst, a):
            M.user_may_unwind(I, st, name)
            r = st.choose(('cb', len(st.events)), 2)
            st.events += ((name, r),)
            if not r: return NONE
            k = fresh_tok(st, 'srck')
            T = I.T[inst['out']]
            return some(Agg(None, (k, fresh_tok(st, 'srcv'))) if '(' in T['s'] else k)
        return f
    if tr == 'Iterator' and name == 'size_hint':
        def f(I, st, inst, a):
            return Agg(None, (any_index(st, 'sh'), NONE))
        return f
    if tr == 'DescendVisit':
        def f(I, st, inst, a):
            x, y = slice_segs(I, st, a[1]), slice_segs(I, st, a[2])
            me = M.rd(I, st, a[0])
            M.user_may_unwind(I, st, name)
            T = I.T[inst['out']]
            names = [v['name'] for v in T['variants']]
            c = names[st.choose(('cb', len(st.events)), len(names))]
            # the visitor changes its own state
            n = st.ctr.get('vis', 0) + 1; st.ctr['vis'] = n
            me2 = Tok(('vis', n), ZERO)
            I.write(st, a[0].base, a[0].path, me2)
            st.g['vis'] = me2
            i = names.index(c)
            if c == 'GoDown': r = Agg(i, (any_index(st, 'uj'),))
            elif c in ('Complete', 'Some'): r = Agg(i, (fresh_tok(st, 'ures'),))
            else: r = Agg(i, ())
            st.events += ((name, me, x, y, c, r.f[0] if r.f else None, me2),)
            return r
        return f
    return None
