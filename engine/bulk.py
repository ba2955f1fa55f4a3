"""C16: loading a sorted vector. The input is any vector sorted by key: its next element either is the last one with its
key or is followed by another one with the same key. Which it is, is decided when the element is taken out, so that
inputs that differ in the number of equal keys only are analysed together. The number of distinct keys is bounded (by
DUP where equal keys occur; without equal keys, the listed sizes around the layer boundaries)."""
from lin import Lin, L, ZERO, ONE, sym, Infeasible
from dom import *
from interp import UNIT, NONE, some, PUSHED
import os
import spec, iters, join, models as M
from ops import op, OPS, opt, owned, has_values
from final import Final, Stop

QUICK = os.environ.get('VERIF_TIER', 'quick') == 'quick'
DUP = 130 if QUICK else 260
# numbers of distinct keys without equal keys among them: around the boundaries of the layers
SIZES = ['0-600', '4088-4100', '4150-4170', '4220-4230', '8316-8324', '8382-8388', '8446-8450'] if QUICK else \
    ['%d-%d' % (a, a + 199) for a in range(0, 4400, 200)] + ['%d-%d' % (a, a + 49) for a in range(8290, 8490, 50)] + ['270400-270401']
SEQ = Agg(None, (Agg(None, (Opq('sorted'), Opq('vec'))), Opq('items')))       # the rest of the input, as an iterator

def keypos(I, st, s, idx):
    if s == ('bk',) or s[0] == 'dk': return ('E', idx)
    if s == ('ck',): return ('E', idx)
    return None

def item(st, last):
    """the element taken out: the last one of group rp, or one that is not the last"""
    g = st.g; rp = g['rp']
    if last:
        g['rp'] = st.norm(rp + 1); g['more'] = False
        return Agg(None, (Tok(('bk',), rp), Tok(('bv',), rp) if g['vals'] else UNIT))
    n = 0
    while any(s[2] == ('dk', n) for s in st.made): n += 1
    g['more'] = True
    toks = [('S', ONE, ('dk', n), rp)] + ([('S', ONE, ('dv', n), rp)] if g['vals'] else [])
    st.made = st.made + tuple(toks)
    return Agg(None, (Tok(('dk', n), rp), Tok(('dv', n), rp) if g['vals'] else UNIT))
def m_next(I, st, inst, a):
    if M.rd(I, st, a[0]) != SEQ: return M.arr_next(I, st, inst, a)
    g = st.g
    if not g['more'] and not st.decide('lt', g['rp'], g['N']): return NONE
    if g['dups']:
        last = st.choose(('last',), 2)
        st.choice.pop(('last',), None)
    else: last = True
    return some(item(st, last))
def rest(st):
    """the elements that were not taken out"""
    g = st.g; n = st.norm(g['N'] - g['rp'])
    return [('S', n, ('bk',), g['rp'])] + ([('S', n, ('bv',), g['rp'])] if g['vals'] else [])
def m_into(I, st, inst, a):
    if type(a[0]) is VecV and any(s[0] == 'S' and s[2] == ('raw',) for s in a[0].arr.segs): return SEQ
    return M.vec_into(I, st, inst, a)
def m_hint(I, st, inst, a):
    if M.rd(I, st, a[0]) != SEQ: raise Undecided('size of a vector iterator')
    n = st.fsym('hint', 0); return Agg(None, (n, some(n)))
def models(I):
    for i in I.prog.insts:
        if i['path'] == '<std::vec::IntoIter<T, A> as std::iter::Iterator>::next': I.models[i['id']] = m_next
        elif i['path'] == '<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter': I.models[i['id']] = m_into
def sweep(st):
    """forget elements with an equal key that were dropped"""
    out = {s[2:4] for s in st.drops if s[0] == 'S' and s[2][0] in ('dk', 'dv')}
    if not out: return
    st.drops = tuple(s for s in st.drops if s[2:4] not in out)
    st.made = tuple(s for s in st.made if s[2:4] not in out)

class Loaded(Final):
    """of the elements with one key, it does not matter whose key object is kept"""
    def seq(self, items, which):
        out = []
        for it in items:
            s = it[1 + which]
            if s is None: continue
            if s[0] == '1': s = ('S', ONE, s[2].src, s[2].idx)
            src = M.unclone(s[2])
            x = ('E', s[3], s[1]) if src in (('bk',), ('bv',)) or which == 0 and src[0] == 'dk' else ('T', (s[2], s[3]), s[1])
            if self.st.facts.ge(ZERO, x[2]): continue
            if out and x[0] == 'E' and out[-1][0] == 'E' and self.st.same(out[-1][1] + out[-1][2], x[1]): out[-1] = ('E', out[-1][1], self.st.norm(out[-1][2] + x[2]))
            else: out.append(x)
        return out

def blank(R, I, inst):
    out = inst['body']['locals'][0]
    R.tt = tt = spec.TreeTypes(I, out)
    tt.values = has_values(I, tt)
    st = spec.base_state(I, tt)
    st.mem.pop(('X', 'tree'))
    st.g['kp'] = st.g['kf'] = ZERO
    st.g['keypos'] = keypos
    return st

def loaded(R, I, st, n, say):
    F = Loaded(I, st, R.tt, ('X', 'new'), R.emit)
    r = F.nid_of(F.root)
    got, lv = F.walk(r, top=True)
    e = F.stream(got, [('P', ('S', n, ('bk',), ZERO), ('S', n, ('bv',), ZERO))])
    if e: say(e)
    F.chain()
    if not st.decide('eq', F.len, n): R.emit('C03', 'the recorded length is not the number of entries'); say('the recorded length is not the number of entries')
    F.nodes()
    if not R.tt.noaug:
        if type(F.ra) is not Tok: raise Undecided('root augmentation')
        F.live.append(('S', ONE, F.ra.src, F.ra.idx))
        F.check_aug(F.ra, r, 'the root augmentation is outdated')
    u = {s[2]: (s[3], st.norm(s[3] + s[1])) for s in st.made}
    u[('bk',)] = (ZERO, n)
    if R.tt.values: u[('bv',)] = (ZERO, n)
    F.own(list(st.drops), u)

def bulk(R, I, inst):
    st = blank(R, I, inst)
    g = st.g
    models(I); I.max_steps = 60_000_000
    g['vals'] = R.tt.values; g['rest'] = rest
    g['rp'] = ZERO; g['more'] = False; g['dups'] = R.case.startswith('dup')
    if R.case.startswith('dup'):
        st.facts = st.facts.add_ge(L(int(R.case[3:] or DUP)) - g['N'])
        ln = st.fsym('m', 0, 1 << 48)
        st.facts = st.facts.add_ge(ln - g['N']).add_ge(g['N'].scale(1 << 48) - ln)
        I.merger = join.Merger(1 << 30); I.merger.pre = sweep
    else:
        a, _, b = R.case.partition('-')
        st.facts = st.facts.add_ge(g['N'] - int(a)).add_ge(L(int(b or a)) - g['N']); ln = g['N']
    # all findings about the result count for C16
    def say(m): R.emit('C16', m)
    emit = R.emit
    def both(prop, msg, fn=None):
        emit(prop, msg, fn)
        if prop != 'C16': emit('C16', msg, fn)
    R.emit = both
    spec.enter(I, st, R.root, [VecV(ln, Arr((('S', ln, ('raw',), ZERO),)))])
    def post(I, st):
        st.mem[('X', 'new')] = st.g['result']
        st.drops = tuple(st.drops)
        loaded(R, I, st, st.g['N'], say)
    R.post = post
    return st
op('root_tree_bulk_load', 'C16', ('C16',), cases=('dup',) + tuple(SIZES))(bulk)
# the same, over fewer sizes, for what holds of every tree
op('bulk_load_small', 'C16', ('C01', 'C02', 'C03', 'C04', 'C05', 'C08', 'C09', 'C20', 'C21'), root='root_tree_bulk_load', cases=('dup66', '0-150'))(bulk)

# ------------------------------------------------------------------ collecting
SRC = 3          # elements of the collected sequence
LOADED = Opq('loaded')
def rawpos(I, st, s, idx): return ('E', sym(f'r{idx}')) if s == ('rawk',) else keypos(I, st, s, idx)
def m_src(I, st, inst, a):
    n = st.g['pulled']
    if not st.decide('lt', L(n), st.g['M']): return NONE
    st.g['pulled'] = n + 1
    k = Tok(('rawk',), L(n))
    return some(Agg(None, (k, Tok(('rawv',), L(n)))) if st.g['pair'] else k)
def m_srchint(I, st, inst, a): return Agg(None, (ZERO, NONE))
def m_sort(I, st, inst, a):
    """sorting a short vector: insertion of one element after the other, as the given comparison says"""
    p = a[0]; name = inst['name']
    v = I.read(st, p.base, p.path)
    segs = st.sub(v.segs if type(v) is Arr else v.arr.segs, p.off, p.ln)
    if any(s[0] != '1' for s in segs) or len(segs) > SRC: raise Undecided('sorting of this sequence')
    def compare(x, y):
        b = [('X', st.fresh('elem')) for _ in '12']
        st.mem[b[0]], st.mem[b[1]] = x, y
        if name in ('sort_by', 'sort_unstable_by'): r = I.sub(st, a[1], M.closure_ty(I, inst), [Ptr(b[0]), Ptr(b[1])])
        elif name in ('sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key'):
            k = [M.keytok(I, st, I.sub(st, a[1], M.closure_ty(I, inst), [Ptr(q)])) for q in b]
            r = M.ORD[M.compare(I, st, *k)]
            for t in k: I.log_drop(st, ('S', ONE, t.src, t.idx))
        else: raise Undecided('sorting of this sequence')
        for q in b: st.mem.pop(q, None)
        if type(r) is not Agg: raise Undecided('order of elements')
        return next(o for o in M.ORD if M.ORD[o].v == r.v)
    out = []
    for s in segs:
        i = len(out)
        while i > 0:
            o = compare(s[2], out[i - 1])
            if o == 'eq' and 'unstable' in name: o = ('lt', 'gt')[st.choose(('unstable', s[2], out[i - 1]), 2)]
            if o != 'lt': break
            i -= 1
        out.insert(i, s[2])
    new = st.replace(v.segs if type(v) is Arr else v.arr.segs, p.off, p.ln, [('1', ONE, x) for x in out])
    I.write(st, p.base, p.path, Arr(new) if type(v) is Arr else VecV(v.ln, Arr(new)))
    return UNIT
def m_dedup(I, st, inst, a):
    """elements that equal the one kept before them are dropped"""
    p = a[0]; v = M.vec_of(I, st, p)
    segs = st.norm_segs(v.arr.segs)
    if any(s[0] != '1' for s in segs) or len(segs) > SRC: raise Undecided('deduplication of this sequence')
    out = []; gone = []
    for s in segs:
        if out:
            b = [('X', st.fresh('elem')) for _ in '12']
            st.mem[b[0]], st.mem[b[1]] = s[2], out[-1]
            if inst['name'] == 'dedup_by': same = I.sub(st, a[1], M.closure_ty(I, inst), [Ptr(q) for q in b])
            else:
                k = [M.keytok(I, st, I.sub(st, a[1], M.closure_ty(I, inst), [Ptr(q)])) for q in b]
                same = M.compare(I, st, *k) == 'eq'
                for t in k: I.log_drop(st, ('S', ONE, t.src, t.idx))
            out[-1] = st.mem.pop(b[1]); st.mem.pop(b[0])
            if type(same) is not bool: raise Undecided('deduplication')
            if same: gone += owned(s[2]); continue
        out.append(s[2])
    for s in gone: I.log_drop(st, s)
    I.write(st, p.base, p.path, VecV(L(len(out)), Arr(st.norm_segs([('1', ONE, x) for x in out]))))
    return UNIT
def entries(st, v):
    """the elements of a vector of collected entries, as their numbers"""
    if type(v) is not VecV: raise Undecided(f'loaded vector {v}')
    out = []
    for s in st.norm_segs(v.arr.segs):
        x = s[2] if s[0] == '1' else None
        if type(x) is not Agg or len(x.f) != 2 or type(x.f[0]) is not Tok or x.f[0].src != ('rawk',): raise Undecided(f'loaded entry {s}')
        k = st.norm(x.f[0].idx).c
        if st.g['pair'] and x.f[1] != Tok(('rawv',), L(k)): return None
        out.append(k)
    return out
def m_load(I, st, inst, a):
    """loading, by its contract: the vector has to be sorted; of equal keys the last one counts"""
    es = entries(st, a[0])
    pos = lambda k: sym(f'r{k}')
    res = []
    for k in es or ():
        if res and not st.decide('lt', pos(res[-1]), pos(k)):
            if st.decide('gt', pos(res[-1]), pos(k)): st.g['unsorted'] = True
            res.pop()
        res.append(k)
    st.g['loaded'] = None if es is None else tuple(res)
    for k in es or (): 
        if k not in res: I.log_drop(st, ('S', ONE, ('rawk',), L(k))); st.g['pair'] and I.log_drop(st, ('S', ONE, ('rawv',), L(k)))
    return LOADED
def collecting(name, src):
    def f(R, I, inst):
        st = blank(R, I, inst); g = st.g
        g['keypos'] = rawpos; g['pair'] = R.tt.values; g['pulled'] = 0
        g['M'] = st.fsym('src', 0, SRC)
        for k in range(SRC): st.facts = st.facts.add_ge(sym(f'r{k}')).add_ge(L(SRC) - sym(f'r{k}'))
        for i in I.prog.insts:
            if i['full'] == f'<{src} as std::iter::Iterator>::next': I.models[i['id']] = m_src
            elif i['full'] == f'<{src} as std::iter::Iterator>::size_hint': I.models[i['id']] = m_srchint
            elif 'slice::<impl [T]>::sort' in i['path']: I.models[i['id']] = m_sort
            elif i['path'] in ('std::vec::Vec::<T, A>::dedup_by', 'std::vec::Vec::<T, A>::dedup_by_key'): I.models[i['id']] = m_dedup
            elif i['name'] == 'bulk_load': I.models[i['id']] = m_load
        spec.enter(I, st, R.root, [Tok(('it',))])
        def post(I, st):
            g = st.g
            if g['result'] != LOADED: raise Undecided('the collection is not loaded as a whole')
            n = g['pulled']
            if st.decide('lt', L(n), g['M']): R.emit('C16', 'elements of the sequence are not collected'); return
            if g.get('unsorted'): R.emit('C16', 'the loaded vector is not sorted by key'); return
            want = [k for k in range(n) if not any(st.decide('eq', sym(f'r{k}'), sym(f'r{j}')) for j in range(k + 1, n))]
            if g['loaded'] is None: R.emit('C16', 'a key is loaded with the value of another one'); return
            if sorted(g['loaded']) != want:
                R.emit('C16', 'the collection does not hold every key with the last value given for it')
            elif any(not st.decide('lt', sym(f'r{x}'), sym(f'r{y}')) for x, y in zip(g['loaded'], g['loaded'][1:])): R.emit('C16', 'the loaded vector is not sorted by key')
        R.post = post
        return st
    op(name, 'C16', ('C16',))(f)
collecting('root_map_from_iter', 'USrc')
collecting('root_set_from_iter', 'USrcK')
