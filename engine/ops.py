"""The analysed operations: entry state, contract, and obligations at the exit."""
import time
from lin import Lin, L, ZERO, ONE, sym, Infeasible
from dom import *
from interp import Interp, UNIT, NONE, some, path_of
import models as M
import spec, join
from final import Final, Stop

OPS = {}
class Op:
    def __init__(self, name, fn, main, props, **kw):
        self.name, self.fn, self.main, self.props, self.kw = name, fn, main, props, kw
        self.root = kw.get('root', name)

def op(name, main, props, **kw):
    def d(f):
        OPS[name] = Op(name, f, main, props, **kw)
        return f
    return d

class Run:
    """one analysis of one operation"""
    def __init__(self, prog, op, level=2, mode='functional', root=None, deadline=None, case=None, exact=False, stop=False, nohint=False):
        self.nohint = nohint
        self.exact = exact; self.stop = stop
        self.case = case
        self.prog, self.op, self.level, self.mode = prog, op, level, mode
        self.unwound = None      # what to check where the operation unwinds
        self.out_ = []           # (prop, function, message)
        self.exits = 0
        self.I = Interp(prog, mode)
        self.I.exit_hook = self.on_exit
        self.I.g_exit = None
        if deadline: self.I.deadline = deadline
        self.root = root or op.root
    def go(self):
        I = self.I
        inst = self.prog.insts[self.prog.roots[self.root]]
        if self.op.kw.get('joined') and not self.exact: I.merger = join.Merger(3)
        self.inst = inst
        I.shared = self.shared(inst); I.nohint = self.nohint
        st = self.op.fn(self, I, inst)
        I.panic_ok = getattr(self, 'panic_ok', None)
        if st is not None:
            I.run(st)
        res = []
        for rule, fn, msg, sp, s in I.findings:
            for p in {'access': ('C05', self.op.main), 'bounds': ('C05', self.op.main), 'drop': ('C04', 'C05'), 'panic': (self.op.main,)}.get(rule, (rule,)) + (('C06',) if rule in ('access', 'bounds') and 'C06' in self.op.props else ()):
                res.append((p, self.op.name, fn, ('reachable panic: ' if rule == 'panic' else '') + msg, f'{sp}, path: {path_of(s)}'))
        res += self.out_
        also = self.op.kw.get('also')
        if also: res += [(also,) + x[1:] for x in res]
        return dict(op=self.op.name, findings=dedup(res), unknown=dedup(I.unknown), exits=self.exits, steps=I.nsteps,
                    visited=sorted({self.prog.insts[i]['path'] for i, b in I.visited if self.prog.insts[i]['crate'] == 'sweep_bptree'}),
                    blocks=len(I.visited))
    def shared(self, inst):
        """does the operation borrow a container shared?"""
        T = self.I.T; b = inst['body']
        for t in b['locals'][1:b['argc'] + 1]:
            if T[t]['k'] != 'ref' or T[t].get('mut'): continue
            e = T[self.I.ty.strip(T[t]['e'])]
            if e['k'] == 'adt' and e['path'].rsplit('::', 1)[-1] in ('BPlusTree', 'BPlusTreeMap', 'BPlusTreeSet', 'NodeStoreVec'): return True
        return False
    def emit(self, prop, msg, fn=None):
        self.out_.append((prop, self.op.name, fn or self.inst['name'].replace('root_', ''), msg, 'return, path: ' + path_of(self.cur)))
    def on_exit(self, I, st):
        self.exits += 1; self.cur = st
        if st.g.get('exit') != 'return':
            if not (st.g.get('exit') == 'unwind' and self.unwound): return
        n = len(self.out_)
        try:
            (self.post if st.g['exit'] == 'return' else self.unwound)(I, st)
        except Stop: pass
        except Exception:
            if True: del self.out_[n:]
            raise

def dedup(xs):
    seen = set(); out = []
    for x in xs:
        k = x[:4]
        if k not in seen: seen.add(k); out.append(x)
    return out

# ------------------------------------------------------------------ tree operations
def tree_setup(R, I, inst, query=None, level=None):
    tt = spec.TreeTypes(I, inst['body']['locals'][1])
    R.tt = tt
    tt.values = has_values(I, tt)
    st = spec.base_state(I, tt)
    lv = R.level if level is None else level
    if lv is not None: st.facts = st.facts.add_ge(L(lv) - sym('lv'))
    if query: spec.add_query(st, query)
    return st
def has_values(I, tt): return 'V' in tt.lf and I.T[leaf_val_ty(I, tt)].get('size') != 0
def leaf_val_ty(I, tt):
    f = I.T[tt.leaf]['variants'][0]['fields'][tt.lf['V']]
    return I.T[I.ty.strip(f[1])]['e']

def universe(F):
    st = F.st; u = {}
    for nid in F.dirty | F.reached:
        n = st.nodes[nid]
        if n.new: continue
        if n.kind == 'L':
            u[('K', nid)] = (ZERO, n.size)
            if F.tt.values: u[('V', nid)] = (ZERO, n.size)
        elif n.kind == 'I':
            u[('S', nid)] = (ZERO, n.size)
            if not F.tt.noaug: u[('A', nid)] = (ZERO, st.norm(n.size + 1))
    if not F.tt.noaug: u[('RA',)] = (ZERO, ONE)
    for s in st.made: u[s[2]] = (s[3], st.norm(s[3] + s[1]))
    return u

def owned(v):
    """owned tokens inside a value"""
    t = type(v)
    if t is Tok: return [('S', ONE, v.src, v.idx)]
    if t is Agg: return [x for y in v.f for x in owned(y)]
    return []

def tree_post(R, I, st, items, nlen, extra_universe=(), result=None):
    """the final tree holds exactly `items`"""
    F = Final(I, st, R.tt, ('X', 'tree'), R.emit)
    r = F.nid_of(F.root)
    got, lv = F.walk(r, top=True)
    e = F.stream(got, items)
    if e: R.emit('C01', e)
    F.chain()
    if not st.decide('eq', F.len, nlen): R.emit('C03', 'the recorded length is not the number of entries')
    F.nodes()
    F.fill()
    if not R.tt.noaug:
        if type(F.ra) is not Tok: raise Undecided('root augmentation')
        F.live.append(('S', ONE, F.ra.src, F.ra.idx))
        n0 = len(R.out_)
        if F.ra.src[0] == 'app' and st.apps[F.ra.src[1]][0] == 'default':
            if not st.decide('eq', nlen, 0): R.emit('C08', 'the root augmentation is reset although the tree has entries')
        else: F.check_aug(F.ra, r, 'the root augmentation is outdated')
    u = universe(F)
    for k, v in extra_universe: u[k] = v
    F.own(owned(st.g.get('result', UNIT)) + list(st.drops), u)
    return F

def unchanged(R, I, st, extra=()):
    """a shared operation leaves everything but the hint alone"""
    F = Final(I, st, R.tt, ('X', 'tree'), R.emit)
    t0 = st.g['tree0'].f; t1 = F.tree.f
    tt = R.tt
    for i, (a, b) in enumerate(zip(t0, t1)):
        if i == tt.f['node_store']:
            for j, (x, y) in enumerate(zip(a.f, b.f)):
                if j == tt.sf.get('hint'): continue
                if x != y: R.emit('C13', 'a shared operation modifies the node store')
        elif a != b and not (type(a) is Lin and type(b) is Lin and st.same(a, b)): R.emit('C13', 'a shared operation modifies the tree')
    for n in F.dirty:
        R.emit('C13', 'a shared operation modifies a node')
    F.own(owned(st.g.get('result', UNIT)) + list(st.drops) + list(extra) + ([] if tt.noaug else [('S', ONE, ('RA',), ZERO)]), universe(F))

def opt(v):
    """Option value -> None | payload"""
    if type(v) is Agg and v.v == 0: return None
    if type(v) is Agg and v.v == 1: return v.f[0]
    raise Undecided(f'option {v}')
def entry_at(I, st, t, kind, pos):
    """is token t the key/value of the original entry at pos?"""
    if type(t) is not Tok: raise Undecided(f'entry {t}')
    if t.src[0] != kind or len(t.src) != 2: return False
    return st.decide('eq', st.nodes[t.src[1]].start + t.idx, pos)
def ref_at(I, st, p, kind, pos):
    if type(p) is not Ptr: raise Undecided(f'reference {p}')
    return entry_at(I, st, I.read(st, p.base, p.path), kind, pos)

@op('root_tree_insert', 'C01', ('C01', 'C02', 'C03', 'C04', 'C05', 'C08', 'C09', 'C20', 'C21'))
def tree_insert(R, I, inst):
    st = tree_setup(R, I, inst, 'ik')
    spec.enter(I, st, R.root, [Ptr(('X', 'tree')), Tok(('ik',)), Tok(('iv',))])
    def post(I, st):
        N, kp, kf = st.g['N'], st.g['kp'], st.g['kf']
        r = st.g['result']
        ex = [(('ik',), (ZERO, ONE))] + ([(('iv',), (ZERO, ONE))] if R.tt.values else [])
        iv = ('T', ('iv',), ZERO) if R.tt.values else None
        if st.decide('eq', kf, 0):
            items = [('R', ZERO, kp), ('X', ('T', ('ik',), ZERO), iv), ('R', kp, N - kp)]
            if opt(r) is not None: R.emit('C01', 'insert of a new key reports a previous value')
            tree_post(R, I, st, items, N + 1, ex)
        else:
            items = [('R', ZERO, kp), ('RK', kp, iv, ONE), ('R', kp + 1, N - kp - 1)]
            o = opt(r)
            if o is None: R.emit('C01', 'insert of a present key does not return the old value')
            elif R.tt.values and not entry_at(I, st, o, 'V', kp): R.emit('C01', 'insert returns a value that is not the replaced one')
            tree_post(R, I, st, items, N, ex)
    R.post = post
    return st

@op('root_tree_remove', 'C01', ('C01', 'C02', 'C03', 'C04', 'C05', 'C08', 'C09', 'C20', 'C21'))
def tree_remove(R, I, inst):
    st = tree_setup(R, I, inst, 'q')
    spec.enter(I, st, R.root, [Ptr(('X', 'tree')), Ptr(('X', 'q'))])
    def post(I, st):
        N, kp, kf = st.g['N'], st.g['kp'], st.g['kf']
        o = opt(st.g['result'])
        if st.decide('eq', kf, 0):
            if o is not None: R.emit('C01', 'remove of an absent key returns something')
            tree_post(R, I, st, [('R', ZERO, N)], N)
        else:
            if o is None: R.emit('C01', 'remove of a present key returns nothing')
            elif R.tt.values and not entry_at(I, st, o, 'V', kp): R.emit('C01', 'remove returns a value that is not the removed one')
            tree_post(R, I, st, [('R', ZERO, kp), ('R', kp + 1, N - kp - 1)], N - 1)
    R.post = post
    return st

def lookup(R, I, inst, shared=True):
    st = tree_setup(R, I, inst, 'q')
    st.g['tree0'] = st.mem[('X', 'tree')]; st.g['readonly'] = True
    spec.enter(I, st, R.root, [Ptr(('X', 'tree')), Ptr(('X', 'q'))])
    def post(I, st):
        kp, kf = st.g['kp'], st.g['kf']
        o = opt(st.g['result'])
        if st.decide('eq', kf, 0):
            if o is not None: R.emit('C02', 'a lookup of an absent key finds something')
        elif o is None: R.emit('C02', 'a lookup of a present key finds nothing')
        elif not ref_at(I, st, o, 'V', kp): R.emit('C02', 'a lookup returns the value of another key')
        unchanged(R, I, st)
    R.post = post
    return st
@op('root_tree_get', 'C02', ('C02', 'C05', 'C13', 'C04'))
def tree_get(R, I, inst): return lookup(R, I, inst)
@op('root_tree_get_mut', 'C02', ('C02', 'C05', 'C13', 'C04'))
def tree_get_mut(R, I, inst): return lookup(R, I, inst)

def ends(R, I, inst, last):
    st = tree_setup(R, I, inst)
    st.g['tree0'] = st.mem[('X', 'tree')]; st.g['readonly'] = True
    spec.enter(I, st, R.root, [Ptr(('X', 'tree'))])
    def post(I, st):
        N = st.g['N']
        o = opt(st.g['result'])
        if st.decide('eq', N, 0):
            if o is not None: R.emit('C25', 'an empty tree reports an end entry')
        elif o is None: R.emit('C25', 'no end entry is reported for a non-empty tree')
        else:
            pos = N - 1 if last else ZERO
            if not ref_at(I, st, o.f[0], 'K', pos): R.emit('C25', 'the reported key is not the extreme one')
            if not ref_at(I, st, o.f[1], 'V', pos): R.emit('C25', 'the reported value is not that of the extreme key')
        unchanged(R, I, st)
    R.post = post
    return st
@op('root_tree_first', 'C25', ('C25', 'C05', 'C13', 'C04'))
def tree_first(R, I, inst): return ends(R, I, inst, False)
@op('root_tree_last', 'C25', ('C25', 'C05', 'C13', 'C04'))
def tree_last(R, I, inst): return ends(R, I, inst, True)

# ------------------------------------------------------------------ user-directed searches
def whole(st, segs, want):
    """are segs exactly these (source, length) runs from offset 0?"""
    segs = st.norm_segs(segs)
    want = [(s, n) for s, n in want if not st.same(n, 0)]
    if len(segs) != len(want): return False
    return all(g[0] == 'S' and g[2] == s and st.same(g[3], 0) and st.same(g[1], n) for g, (s, n) in zip(segs, want))
def owner(segs, kinds):
    for s in segs:
        if s[0] == 'S' and s[2][0] in kinds and len(s[2]) == 2: return s[2][1]
    return None
def event_nodes(R, st, evs, kidx, vidx):
    """the node each event was given, checking that it is given that node's own content"""
    out = []
    for e in evs:
        leaf = 'leaf' in e[0]
        k, v = e[kidx], e[vidx]
        nid = owner(k, ('K',) if leaf else ('S',))
        if nid is None:
            if leaf and st.nodes[st.g['root']].kind == 'L' and st.decide('eq', st.nodes[st.g['root']].size, 0): nid = st.g['root']
            else: R.emit('C26', 'user code is given keys that are not those of a node'); raise Stop()
        n = st.nodes[nid]
        ok = whole(st, k, [(('K' if leaf else 'S', nid), n.size)])
        if v is not None: ok = ok and whole(st, v, [(('V' if leaf else 'A', nid), n.size if leaf else n.size + 1)])
        if not ok: R.emit('C26', "user code is not given exactly the visited node's keys and augmentations or values"); raise Stop()
        out.append(nid)
    return out
def follow(R, st, nodes, picks):
    """each visited node must be the child picked in the previous one, starting at the root"""
    if st.res(st.g['root']) != nodes[0]: R.emit('C26', 'the descent does not start at the root'); raise Stop()
    for a, j, b in zip(nodes, picks, nodes[1:]):
        if not st.decide('lt', j, st.nodes[a].size + 1): R.emit('C06', 'an out-of-range child index is used'); raise Stop()
        if st.res(st.child(a, j)) != b: R.emit('C26', 'the descent does not go to the child the user code picked'); raise Stop()

def aug_panic(R):
    """a panic is allowed when the index user code gave is out of range"""
    def ok(I, st, p):
        if not st.events: return False
        e = st.events[-1]
        j = next((x for x in e[4:6] if type(x) is Lin), None)
        if j is None: return False
        leaf = 'leaf' in e[0]
        nid = owner(e[2], ('K', 'S'))
        lim = ZERO if nid is None else st.nodes[nid].size + (0 if leaf else 1)
        return st.decide('ge', j, lim)
    return ok

def search(R, I, inst, kind):
    st = tree_setup(R, I, inst)
    st.g['tree0'] = st.mem[('X', 'tree')]
    if kind != 'remove': st.g['readonly'] = True
    st.made = (('S', ONE, ('uq0',), ZERO),)
    spec.enter(I, st, R.root, [Ptr(('X', 'tree')), Tok(('uq0',))])
    R.panic_ok = aug_panic(R)
    def post(I, st):
        evs = st.events
        if not evs: R.emit('C26', 'the search never consults the augmentation'); return
        nodes = event_nodes(R, st, evs, 2, 3)
        follow(R, st, nodes, [e[4] for e in evs[:-1] if e[4] is not None])
        q = Tok(('uq0',))
        for e in evs:
            if e[1] != q: R.emit('C26', 'the query is not threaded along'); break
            q = e[5] if len(e) > 5 else None
        if any(e[4] is None for e in evs[:-1]): R.emit('C26', 'the search goes on after the augmentation ended it')
        o = opt(st.g['result']); e = evs[-1]; N = st.g['N']
        if e[4] is None:
            if o is not None: R.emit('C26', 'a search that ends without a match returns an entry')
            pos = None
        else:
            if 'leaf' not in e[0]: R.emit('C26', 'the search stops before it reaches a leaf'); return
            n = st.nodes[nodes[-1]]
            if not st.decide('lt', e[4], n.size): R.emit('C06', 'an out-of-range slot index is accepted'); return
            pos = n.start + e[4]
            if o is None: R.emit('C26', 'the designated entry is not returned'); return
            if kind == 'get': bad = not (ref_at(I, st, o.f[0], 'K', pos) and ref_at(I, st, o.f[1], 'V', pos))
            elif kind == 'mut': bad = not ref_at(I, st, o, 'V', pos)
            else: bad = not (entry_at(I, st, o.f[0], 'K', pos) and entry_at(I, st, o.f[1], 'V', pos))
            if bad: R.emit('C26', 'the returned entry is not the designated one')
        if kind != 'remove': return unchanged(R, I, st)
        if pos is None: tree_post(R, I, st, [('R', ZERO, N)], N)
        else: tree_post(R, I, st, [('R', ZERO, pos), ('R', pos + 1, N - pos - 1)], N - 1)
    R.post = post
    return st
@op('root_tree_get_by_augmentation', 'C26', ('C26', 'C06', 'C05', 'C04', 'C13'))
def get_by_aug(R, I, inst): return search(R, I, inst, 'get')
@op('root_tree_get_mut_by_augmentation', 'C26', ('C26', 'C06', 'C05', 'C04', 'C13'))
def get_mut_by_aug(R, I, inst): return search(R, I, inst, 'mut')
@op('root_tree_remove_by_augmentation', 'C26', ('C26', 'C06', 'C01', 'C03', 'C04', 'C05', 'C08', 'C09', 'C20', 'C21'))
def remove_by_aug(R, I, inst): return search(R, I, inst, 'remove')

@op('root_tree_descend_visit', 'C26', ('C26', 'C06', 'C05', 'C04', 'C13'))
def descend_visit(R, I, inst):
    st = tree_setup(R, I, inst)
    st.g['tree0'] = st.mem[('X', 'tree')]; st.g['readonly'] = True
    v0 = Tok(('vis', 0)); st.g['vis'] = v0
    spec.enter(I, st, R.root, [Ptr(('X', 'tree')), v0])
    R.panic_ok = aug_panic(R)
    def post(I, st):
        evs = st.events
        if not evs: R.emit('C26', 'the visit never consults the visitor'); return
        nodes = event_nodes(R, st, evs, 2, 3)
        follow(R, st, nodes, [e[5] for e in evs[:-1] if e[4] == 'GoDown'])
        me = v0
        for e in evs:
            if e[1] != me: R.emit('C26', "the visitor's state is not threaded along"); break
            me = e[6]
        if any(e[4] != 'GoDown' for e in evs[:-1]): R.emit('C26', 'the visit goes on after the visitor ended it')
        o = opt(st.g['result']); e = evs[-1]
        if e[4] == 'GoDown': R.emit('C26', 'the visit stops although the visitor went on')
        elif e[5] is None:
            if o is not None: R.emit('C26', 'a cancelled visit returns a result')
        elif o != e[5]: R.emit('C26', "the visitor's result is not returned")
        # the visitor itself is dropped once
        d = [x for x in st.drops if x[2][0] == 'vis']
        if len(d) != 1 or Tok(d[0][2], d[0][3]) != me: R.emit('C04', 'the visitor is not dropped exactly once')
        st.drops = tuple(x for x in st.drops if x[2][0] != 'vis')
        unchanged(R, I, st)
    R.post = post
    return st

@op('root_tree_rank_by_augmentation', 'C26', ('C26', 'C05', 'C04', 'C13', 'C18', 'C19'))
def rank_by_aug(R, I, inst):
    st = tree_setup(R, I, inst, 'q')
    st.g['tree0'] = st.mem[('X', 'tree')]; st.g['readonly'] = True
    spec.enter(I, st, R.root, [Ptr(('X', 'tree')), Ptr(('X', 'q'))])
    def post(I, st):
        kp, kf = st.g['kp'], st.g['kf']
        evs = st.events
        bad = lambda m: [R.emit(p, m) for p in ('C26', 'C18', 'C19')]
        if not evs or evs[0][0] != 'initial_value' or evs[-1][0] != 'fold_leaf': bad('a rank does not start from the initial value and end in a leaf'); return
        rank = evs[0][1]
        for e in evs[1:]:
            if e[1] != Tok(('q',)): bad('a rank step is given another key')
            if e[2] != rank: bad('the rank is not threaded along')
            rank = e[-1]
        # inner nodes from the root down the path of the key: all augmentations left of the path
        cur = st.res(st.g['root'])
        for e in evs[1:-1]:
            if st.nodes[cur].kind != 'I': bad('too many rank steps'); return
            segs = st.norm_segs(e[3])
            n = st.alen(segs)
            if not whole(st, segs, [(('A', cur), n)]): bad("a rank step is not given the augmentations to the left in the visited node"); return
            if not st.decide('le', n, st.nodes[cur].size): bad('a rank step is given all augmentations of a node'); return
            cur = st.res(st.child(cur, n))
        if st.nodes[cur].kind is None: st.kind(cur); cur = st.res(cur)
        if st.nodes[cur].kind != 'L': bad('the rank skips an inner node'); return
        n = st.nodes[cur]
        if not (st.decide('ge', kp, n.start) and st.decide('le', kp + kf, n.end)): bad('the rank descends to a leaf that cannot hold the key'); return
        e = evs[-1]
        if not whole(st, e[4], [(('K', cur), n.size)]): bad('the last rank step is not given the keys of the leaf'); return
        slot = e[3]
        found = st.decide('eq', kf, 1)
        if (slot.v == 0) != found: bad('a rank step is told the wrong presence of the key')
        elif not st.decide('eq', slot.f[0], kp - n.start): bad('a rank step is told the wrong slot')
        if st.g['result'] != e[5]: bad('the rank is not the result of the last step')
        unchanged(R, I, st)
    R.post = post
    return st

# ------------------------------------------------------------------ cursors
def any_cursor(R, I, st, ty):
    T = I.T[ty]
    fs = []
    for nm, ft, _ in T['variants'][0]['fields']:
        s = I.T[I.ty.strip(ft)]
        fs.append(Tok(('q',)) if s['s'].endswith('UK') else spec.any_value(I, st, ft, nm))
    return Agg(None, fs)
def cursor_key(v):
    ks = [x for x in (v.f if type(v) is Agg else (v,)) if type(x) is Tok]
    if len(ks) != 1: raise Undecided(f'cursor {v}')
    return ks[0]
def key_is(I, st, t, pos):
    """t is (a clone of) the key of entry pos"""
    k = M.keypos(I, st, t)
    return k[0] == 'E' and st.decide('eq', k[1], pos)
def tree_arg(I, inst):
    b = inst['body']
    for i in range(1, b['argc'] + 1):
        t = b['locals'][i]
        while I.T[t]['k'] in ('ref', 'ptr'): t = I.T[t]['e']
        s = I.T[I.ty.strip(t)]
        if s['k'] == 'adt' and s['path'].endswith('BPlusTree'): return i
    raise Undecided('no tree argument')
def cursor_setup(R, I, inst):
    ti = tree_arg(I, inst)
    tt = spec.TreeTypes(I, inst['body']['locals'][ti]); R.tt = tt
    tt.values = has_values(I, tt)
    st = spec.base_state(I, tt)
    if R.level is not None: st.facts = st.facts.add_ge(L(R.level) - sym('lv'))
    spec.add_query(st, 'q')
    st.g['tree0'] = st.mem[('X', 'tree')]; st.g['readonly'] = True
    ct = inst['body']['locals'][1]
    while I.T[ct]['k'] in ('ref', 'ptr'): ct = I.T[ct]['e']
    st.mem[('X', 'cur')] = any_cursor(R, I, st, ct)
    spec.enter(I, st, R.root, [Ptr(('X', 'cur')), Ptr(('X', 'tree'))])
    return st
def cursor_op(name, kind):
    @op(name, 'C12', ('C12', 'C05', 'C04', 'C13', 'C02') if kind == 'value' else ('C12', 'C05', 'C04', 'C13'), level={'quick': 1, 'thorough': 1})
    def f(R, I, inst):
        st = cursor_setup(R, I, inst)
        def post(I, st):
            kp, kf, N = st.g['kp'], st.g['kf'], st.g['N']
            r = st.g['result']
            if kind == 'exists':
                if type(r) is not bool: raise Undecided(f'result {r}')
                if r != st.decide('eq', kf, 1): R.emit('C12', 'exists does not tell whether the key is present')
            elif kind == 'value':
                o = opt(r)
                if st.decide('eq', kf, 0):
                    if o is not None:
                        for p in ('C12', 'C02'): R.emit(p, 'a cursor reports a value although its key is absent')
                elif o is None:
                    for p in ('C12', 'C02'): R.emit(p, "a cursor does not find its key's value")
                elif not ref_at(I, st, o, 'V', kp):
                    for p in ('C12', 'C02'): R.emit(p, 'a cursor reports the value of another key')
            else:
                o = opt(r)
                pos = kp + kf if kind.startswith('next') else kp - 1
                if not (st.decide('ge', pos, 0) and st.decide('lt', pos, N)):
                    if o is not None: R.emit('C12', f'{kind} of a cursor at the end of the tree returns an entry')
                elif o is None: R.emit('C12', f'{kind} of a cursor misses the adjacent entry')
                else:
                    c = o
                    if kind.endswith('_v'):
                        c = o.f[0]
                        if not ref_at(I, st, o.f[1], 'V', pos): R.emit('C12', f'{kind[:-2]} of a cursor returns a value that is not the adjacent entry\'s')
                    if not key_is(I, st, cursor_key(c), pos): R.emit('C12', f'{kind} of a cursor does not move to the adjacent key')
            unchanged(R, I, st)
        R.post = post
        return st
for n_, k_ in (('root_cursor_prev', 'prev'), ('root_cursor_next', 'next'), ('root_cursor_prev_with_value', 'prev_v'), ('root_cursor_next_with_value', 'next_v'), ('root_cursor_exists', 'exists'), ('root_cursor_value', 'value')):
    cursor_op(n_, k_)

@op('root_cursor_key', 'C12', ('C12', 'C05', 'C04'))
def own_key(R, I, inst):
    st = cursor_alone(R, I, inst)
    def post(I, st):
        r = st.g['result']
        if type(r) is not Ptr or I.read(st, r.base, r.path) != Tok(('q',)): R.emit('C12', 'a cursor does not report its own key')
        if st.mem[('X', 'cur')] != st.g['cur0']: R.emit('C12', 'asking for the key changes the cursor')
    R.post = post
    return st
@op('root_cursor_clone', 'C12', ('C12', 'C05', 'C04'))
def cursor_clone(R, I, inst):
    st = cursor_alone(R, I, inst)
    def post(I, st):
        r = st.g['result']; k = cursor_key(r)
        if k.src[0] != 'cl' or k.src[2] != ('q',): R.emit('C12', 'a cloned cursor has another key')
    R.post = post
    return st
def cursor_alone(R, I, inst):
    T = I.T; ct = inst['body']['locals'][1]
    while T[ct]['k'] in ('ref', 'ptr'): ct = T[ct]['e']
    st = State(I.prog); st.g['readonly'] = True
    st.mem[('X', 'cur')] = any_cursor(R, I, st, ct); st.g['cur0'] = st.mem[('X', 'cur')]
    spec.enter(I, st, R.root, [Ptr(('X', 'cur'))])
    return st

def cursor_end(name, kind):
    @op(name, 'C25', ('C25', 'C12', 'C05', 'C04', 'C13'))
    def f(R, I, inst):
        st = tree_setup(R, I, inst)
        st.g['tree0'] = st.mem[('X', 'tree')]; st.g['readonly'] = True
        spec.enter(I, st, R.root, [Ptr(('X', 'tree'))])
        def post(I, st):
            N = st.g['N']
            o = opt(st.g['result'])
            if st.decide('eq', N, 0):
                if o is not None: R.emit('C25', 'a cursor is created at the end of an empty tree')
            elif o is None: R.emit('C25', 'no cursor is created at the end of a non-empty tree')
            else:
                pos = N - 1 if kind == 'last' else ZERO
                c = o
                if kind != 'tree':
                    c = o.f[0]
                    if not ref_at(I, st, o.f[1], 'V', pos): R.emit('C25', 'the value reported with an end cursor is not that of the extreme key')
                if not key_is(I, st, cursor_key(c), pos): R.emit('C25', 'an end cursor is not at the extreme key')
            unchanged(R, I, st)
        R.post = post
        return st
for n_, k_ in (('root_cursor_tree_first', 'tree'), ('root_cursor_first', 'first'), ('root_cursor_last', 'last')): cursor_end(n_, k_)

@op('root_cursor_get', 'C12', ('C12', 'C02', 'C05', 'C04', 'C13'))
def cursor_get(R, I, inst):
    st = tree_setup(R, I, inst, 'q')
    st.g['tree0'] = st.mem[('X', 'tree')]; st.g['readonly'] = True
    spec.enter(I, st, R.root, [Ptr(('X', 'tree')), Ptr(('X', 'q'))])
    def post(I, st):
        kp, kf = st.g['kp'], st.g['kf']
        o = opt(st.g['result'])
        bad = lambda m: [R.emit(p, m) for p in ('C12', 'C02')]
        if st.decide('eq', kf, 1):
            v = opt(o.f[1]) if o is not None else None
            if v is None: bad('get_cursor misses a present key')
            elif not ref_at(I, st, v, 'V', kp): bad('get_cursor reports the value of another key')
        elif o is not None and opt(o.f[1]) is not None: bad('get_cursor reports a value for an absent key')
        if o is not None and M.keypos(I, st, cursor_key(o.f[0])) != ('Q',):
            if not (st.decide('eq', kf, 1) and key_is(I, st, cursor_key(o.f[0]), kp)): bad('get_cursor makes a cursor for another key')
        unchanged(R, I, st)
    R.post = post
    return st
