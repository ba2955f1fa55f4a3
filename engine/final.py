"""Obligations on the tree an operation leaves behind: the final memory is read back in key order and
compared with what the operation's contract prescribes."""
from lin import Lin, L, ZERO, ONE, sym, Infeasible
from dom import *
from interp import UNIT, NONE, some
import models as M

MIN = 16        # a quarter of the 64 slots

class Final:
    ordered = True      # whether the order of the keys counts
    def __init__(self, I, st, tt, base, out):
        self.I, self.st, self.tt, self.base, self.out = I, st, tt, base, out
        st_ = st
        v = st.mem[base]
        self.tree = v
        f = v.f
        self.root = f[tt.f['root']]
        self.len = f[tt.f['len']]
        self.ra = f[tt.f['root_augmentation']]
        store = f[tt.f['node_store']]
        if type(store) is not Agg: raise Undecided('store')
        self.store = {'L': store.f[tt.sf['L']], 'I': store.f[tt.sf['I']]}
        for k in 'LI':
            if type(self.store[k]) is not StoreV: raise Undecided('store vector')
        self.live = []           # owned token segments
        self.reached = set()
        self.leaves = []         # ('t', nid, value) | ('u', a, b)
        self.sizes = []          # (nid, size) of the materialised nodes below the root
        self.checked_leaves = set()
        self.prep()
    # ---- what was touched
    def prep(self):
        st = self.st
        self.dirty = set()
        for b, v in st.mem.items():
            if b[0] == 'H' and isinstance(b[1], int):
                n = st.nodes.get(b[1])
                if n is None or n.kind == 'alias': continue
                o = st.mem.get(('O', b[1]))
                if not (o is v or o == v) and n.store == self.store[n.kind].sid: self.dirty.add(b[1])
        for k in 'LI':
            for nid, v in self.store[k].slots:
                if isinstance(nid, int): self.dirty.add(nid)
        todo = list(self.dirty)
        while todo:
            n = st.nodes[todo.pop()]
            if isinstance(n.parent, tuple) and n.parent[0] not in self.dirty:
                self.dirty.add(n.parent[0]); todo.append(n.parent[0])
        self.float = [n for n in self.dirty if st.nodes[n].parent is None and not st.nodes[n].new and st.nodes[n].kind == 'L']
    def slot_base(self, nid):
        """heap object holding node nid in the final store, or None"""
        st = self.st; n = st.nodes[nid]
        for k, v in self.store[n.kind].slots:
            if k == nid:
                if type(v) is Agg and v.v == 1 and type(v.f[0]) is Ptr: return v.f[0].base
                return None
        return ('H', nid)
    def node(self, nid):
        st = self.st
        b = self.slot_base(nid)
        if b is None: return None, None
        v = st.mem.get(b)
        if v is None:
            if b in st.freed or st.nodes[nid].new: return b, None
            v = self.I.node_value(st, nid)
        return b, v
    def nid_of(self, v):
        """the node a NodeId value denotes"""
        st = self.st
        if type(v) is Nd: return st.res(v.nid)
        if type(v) is Agg and v.v is not None and v.f:
            k = 'I' if v.v == 0 else 'L'
            i = st.norm(v.f[0])
            for n in st.nodes.values():
                if n.kind == k and n.store == self.store[k].sid and n.ids is not None and st.norm(n.ids) == i: return n.nid
            for n in list(st.nodes.values()):
                if n.kind == k and n.store == self.store[k].sid and n.ids is not None and st.decide('eq', n.ids, i): return n.nid
            self.out('C21', 'the final tree refers to a node that does not exist'); raise Stop()
        if v is UNINIT: self.out('C05', 'a live child slot is uninitialised'); raise Stop()
        raise Undecided(f'node id {v}')
    # ---- walking
    def item(self, kt, vt):
        return ('M', kt, vt)
    def leaf_items(self, nid, v):
        st = self.st; tt = self.tt
        size = v.f[tt.lf['size']]
        ks = st.norm_segs(st.sub(v.f[tt.lf['K']].segs, ZERO, size))
        vs = st.norm_segs(st.sub(v.f[tt.lf['V']].segs, ZERO, size)) if tt.values else None
        for s in ks + (vs or ()):
            if s[0] == 'U': self.out('C05', f'a leaf is left with uninitialised entries'); raise Stop()
            if s[0] not in ('S', '1'): raise Undecided('leaf content')
        return self.pair(ks, vs)
    def pair(self, ks, vs):
        """stream items ('P', key part, value part); the parts have equal total length"""
        if vs is None: return [('P', k, None) for k in ks]
        if len(ks) == len(vs) and all(self.st.same(a[1], b[1]) for a, b in zip(ks, vs)): return [('P', a, b) for a, b in zip(ks, vs)]
        return [('P', k, None) for k in ks] + [('Q', None, v) for v in vs]
    def walk(self, nid, top=False):
        """-> (items, level)"""
        st = self.st; tt = self.tt
        nid = st.res(nid)
        if nid in self.reached:
            self.out('C01', 'a node is linked twice in the final tree'); raise Stop()
        self.reached.add(nid)
        n = st.nodes[nid]
        kd = n.kind or st.kind(nid)
        if st.nodes[nid].kind == 'alias':
            nid = st.res(nid); n = st.nodes[nid]; kd = n.kind
        b, v = self.node(nid)
        if v is None:
            self.out('C21', 'the final tree refers to a node that was taken out of the store'); raise Stop()
        if kd == 'L':
            self.leaves.append(('t', nid, v))
            self.own_leaf(v)
            size = v.f[tt.lf['size']]
            if not st.decide('le', size, 64): self.out('C20', 'a leaf holds more entries than its capacity')
            if not top: self.sizes.append((nid, size))
            if not top and not st.decide('ge', size, 1): self.out('C20', 'an empty leaf is left inside the tree')
            return self.leaf_items(nid, v), ZERO
        size = v.f[tt.nf['size']]
        if not top: self.sizes.append((nid, size))
        if not st.decide('ge', size, 1): self.out('C20', 'an inner node is left with fewer than two children'); raise Stop()
        if not st.decide('le', size, 64): self.out('C20', 'an inner node holds more keys than its capacity')
        seps = st.norm_segs(st.sub(v.f[tt.nf['S']].segs, ZERO, size))
        kids = st.norm_segs(st.sub(v.f[tt.nf['C']].segs, ZERO, st.norm(size + 1)))
        augs = None if tt.noaug else st.norm_segs(st.sub(v.f[tt.nf['A']].segs, ZERO, st.norm(size + 1)))
        for s in seps + kids + (augs or ()):
            if s[0] == 'U': self.out('C05', 'an inner node is left with uninitialised slots'); raise Stop()
        self.live += seps
        if augs: self.live += augs
        pieces = []
        for s in kids:
            if s[0] == 'S' and s[2][0] == 'C': pieces += self.split_kids(s)
            elif s[0] == '1': pieces.append(('one', self.nid_of(s[2]), ONE))
            else: raise Undecided(f'children {s}')
        parts = []; pos = ZERO; level = None
        for p in pieces:
            if p[0] == 'one':
                it, lv = self.walk(p[1]); ln = ONE
                if augs is not None: self.check_aug(st.elem(augs, pos), p[1], 'an inner node stores an outdated augmentation for a child')
            else:
                _, q, off, ln = p
                it = self.range_items(st.bp(q, off), st.bp(q, st.norm(off + ln)))
                lv = st.norm(st.nodes[q].level - 1)
                if augs is not None: self.range_augs(p, augs, pos)
            if level is None: level = lv
            elif not st.decide('eq', level, lv): self.out('C20', 'leaves are left at different depths')
            parts.append((p, it, pos, ln))
            pos = st.norm(pos + ln)
        self.separators(parts, seps)
        return [x for p in parts for x in p[1]], st.norm(level + 1)
    def separators(self, parts, seps):
        """keys left of a separator are smaller, keys right of it are not"""
        st = self.st
        piv = next((i for i, p in enumerate(parts) if p[0][0] == 'one' or st.facts.ge(p[3], 1)), None)
        if piv is None:
            st.split_on('ge', parts[0][3], 1)
        for i, (p, it, pos, ln) in enumerate(parts):
            left = [x for q in reversed(parts[:i]) for x in reversed(q[1])]
            right = [x for q in parts[i + 1:] for x in q[1]]
            if p[0] == 'one':
                if i > piv: self.check_sep(st.elem(seps, st.norm(pos - 1)), left, it)
                elif i < piv: self.check_sep(st.elem(seps, pos), it, right)
                continue
            _, q, off, _ = p
            if i == piv: lo, first, n = pos, off, st.norm(ln - 1)
            elif i < piv: lo, first, n = pos, off, ln
            else: lo, first, n = st.norm(pos - 1), st.norm(off - 1), ln
            if st.facts.ge(ZERO, n): continue
            if not st.facts.ge0(n):
                if not st.decide('ge', n, 1): continue
            got = st.norm_segs(st.sub(seps, lo, n))
            if len(got) == 1 and got[0][0] == 'S' and M.unclone(got[0][2]) == ('S', q) and st.same(got[0][3], first):
                # untouched neighbours keep the separator that was between them
                if i < piv: self.sep_at(('T', st.bp(q, st.norm(off + ln))), it, right, ln)
                elif i > piv: self.sep_at(('T', st.bp(q, off)), left, it, ln)
                continue
            if not st.decide('ge', n, 1): continue
            k = first
            for s in st.norm_segs(st.sub(seps, lo, n)):
                if s[0] == 'S' and M.unclone(s[2]) == ('S', q):
                    if not st.decide('eq', s[3], k): self.out('C02', 'separator keys are shifted against the children they separate'); return
                    k = st.norm(k + s[1]); continue
                if st.decide('eq', s[1], 1):
                    t = s[2] if s[0] == '1' else Tok(s[2], s[3])
                    p2 = st.bp(q, st.norm(k + 1))
                    # a boundary inside the range, or the one to the neighbouring piece
                    if i < piv and st.decide('eq', k, off + ln - 1): self.check_sep(t, it, right)
                    elif i > piv and st.decide('eq', k, off - 1): self.check_sep(t, left, it)
                    else: self.check_sep(t, [('R', p2 - 1, ONE)], [('R', p2, ONE)])
                    k = st.norm(k + 1); continue
                self.out('C02', 'separator keys do not belong to the children they separate'); return
    def split_kids(self, s):
        st = self.st
        _, ln, src, off = s
        p = src[1]
        here = []
        for m in list(st.nodes.values()):
            if isinstance(m.parent, tuple) and m.parent[0] == p:
                x = st.res(m.nid)
                if x in self.dirty and x == m.nid:
                    i = m.parent[1]
                    if st.decide('ge', i, off) and st.decide('lt', i, off + ln): here.append((i, x))
        out = []; cur = off
        end = st.norm(off + ln)
        while here:
            best = here[0]
            for h in here[1:]:
                if st.decide('lt', h[0], best[0]): best = h
            here.remove(best)
            if not st.same(best[0], cur): out.append(('rng', p, cur, st.norm(best[0] - cur)))
            out.append(('one', best[1], ONE))
            cur = st.norm(best[0] + 1)
        if not st.same(end, cur): out.append(('rng', p, cur, st.norm(end - cur)))
        return out
    def range_items(self, a, e):
        """entries [a,e) of the original tree in untouched nodes (but for touched leaves inside)"""
        st = self.st; tt = self.tt
        inside = []
        for m in self.float:
            n = st.nodes[m]
            if m in self.reached: continue
            # a leaf never straddles a boundary between two children
            if st.decide('ge', n.start, a):
                if st.decide('lt', n.start, e):
                    st.facts = st.facts.add_ge(e - n.end); inside.append(m)
            else: st.facts = st.facts.add_ge(a - n.end)
        cur = a; out = []
        while inside:
            best = inside[0]
            for h in inside[1:]:
                if st.decide('lt', st.nodes[h].start, st.nodes[best].start): best = h
            inside.remove(best)
            n = st.nodes[best]
            if not st.same(n.start, cur):
                self.leaves.append(('u', cur, n.start)); out.append(('R', cur, st.norm(n.start - cur)))
            self.reached.add(best)
            b, v = self.node(best)
            if v is None:
                self.out('C21', 'the final tree refers to a node that was taken out of the store'); raise Stop()
            self.leaves.append(('t', best, v))
            self.own_leaf(v)
            out += self.leaf_items(best, v)
            if not tt.noaug:
                o = self.I.node_value(st, best)
                same = [st.norm_segs(st.sub(x.f[tt.lf[c]].segs, ZERO, x.f[tt.lf['size']])) for x in (o, v) for c in 'KV']
                if same[:2] != same[2:]: self.out('C08', 'a leaf changed although the augmentation stored for it did not')
            cur = n.end
        if not st.same(e, cur):
            self.leaves.append(('u', cur, e)); out.append(('R', cur, st.norm(e - cur)))
        return out
    def own_leaf(self, v):
        st = self.st; tt = self.tt
        size = v.f[tt.lf['size']]
        self.live += st.sub(v.f[tt.lf['K']].segs, ZERO, size)
        if tt.values: self.live += st.sub(v.f[tt.lf['V']].segs, ZERO, size)
    # ---- separators
    def edges(self, items, last):
        """descriptors of the keys that may be the outermost one of a sequence of items (each may be empty)"""
        st = self.st; out = []
        for it in items:
            if it[1] is None: continue
            ln = it[2] if it[0] == 'R' else it[1][1]
            if st.facts.ge(ZERO, ln): continue
            out.append((self.edge(it, last), ln))
            if st.facts.ge(ln, 1): break
        return out
    def edge(self, it, last):
        """the key of the first / last entry of a stream item as a position descriptor"""
        st = self.st
        if it[0] == 'R': return ('E', st.norm(it[1] + it[2] - 1) if last else it[1])
        s = it[1]
        if s[0] == '1': return M.keypos(self.I, st, s[2])
        i = st.norm(s[3] + s[1] - 1) if last else s[3]
        return M.keypos(self.I, st, Tok(s[2], i))
    def check_sep(self, k, left, right):
        """left: items before the separator, nearest first; right: items after it"""
        st = self.st
        if k is UNINIT: self.out('C05', 'a separator slot is uninitialised'); return
        self.sep_at(M.keypos(self.I, st, k), left, right, ONE)
    def sep_at(self, p, left, right, exists):
        if not self.ordered: return
        st = self.st
        for side, items, msg in ((0, left, 'a separator key is not greater than every key to its left'), (1, right, 'a separator key is greater than a key to its right')):
            es = self.edges(items, side == 0)
            for d, ln in es:
                r = (self.le_prov(p, d) if side else self.less_prov(d, p))
                if r is True: continue
                if not st.decide('ge', exists, 1): return
                if not st.decide('ge', ln, 1): continue
                ok = self.le(p, d) if side else not self.le(p, d)
                if not ok: self.out('C02', msg)
                else: continue
                break
    def less_prov(self, a, b):
        r = self.le_prov(b, a)
        return None if r is None else not r
    def le_prov(self, a, b):
        """a <= b for key descriptors: True / False / None, without splitting"""
        st = self.st
        if a == b: return True
        kp, kf = st.g.get('kp'), st.g.get('kf')
        D = st.facts.decide
        if a[0] == 'Q':
            if b[0] == 'E': return D('le', kp, b[1])
            if b[0] == 'T':
                r = self.q_ge_prov(b[1])
                return None if r is None else not r
        if b[0] == 'Q':
            if a[0] == 'E': return D('lt', a[1], kp + kf)
            if a[0] == 'T': return self.q_ge_prov(a[1])
        if a[0] == 'E' and b[0] == 'T': return D('lt', a[1], b[1])
        return D('le', a[1], b[1])
    def q_ge_prov(self, t):
        st = self.st
        kp, kf = st.g['kp'], st.g['kf']
        for p, o in st.g.get('qsep', ()):
            if st.same(p, t): return o == 'ge'
        if st.facts.gt(kp, t): return True
        if st.facts.gt(t, kp): return False
        if st.facts.ge(kp, t) and st.facts.ge(kf, 1): return True
        return None
    def le(self, a, b):
        """a <= b for key descriptors, deciding what is open"""
        st = self.st
        r = self.le_prov(a, b)
        if r is not None: return r
        kp, kf = st.g.get('kp'), st.g.get('kf')
        if a[0] == 'Q':
            if b[0] == 'E': return st.decide('le', kp, b[1])
            if b[0] == 'T': return not self.q_ge(b[1])
        if b[0] == 'Q':
            if a[0] == 'E': return st.decide('lt', a[1], kp + kf)
            if a[0] == 'T': return self.q_ge(a[1])
        if a[0] == 'E' and b[0] == 'T': return st.decide('lt', a[1], b[1])
        return st.decide('le', a[1], b[1])
    def q_ge(self, t):
        """is the key q >= the separator with threshold t"""
        st = self.st
        r = self.q_ge_prov(t)
        if r is not None: return r
        kp, kf = st.g['kp'], st.g['kf']
        if st.decide('gt', kp, t): return True
        if st.decide('lt', kp, t): return False
        if st.decide('eq', kf, 1): return True
        for p, o in st.g.get('qsep', ()):
            if st.decide('eq', p, t): return o == 'ge'
        return st.choose(('qsep', st.norm(t)), 2, (True, False))
    # ---- augmentations
    def range_augs(self, p, augs, pos):
        st = self.st
        _, q, off, ln = p
        got = st.norm_segs(st.sub(augs, pos, ln))
        if len(got) == 1 and got[0][0] == 'S' and got[0][2] == ('A', q) and st.decide('eq', got[0][3], off): return
        for s in got:
            if s[0] == 'S' and s[2] == ('A', q): continue
            if st.decide('eq', s[1], 1) and s[0] == 'S' and s[2][0] == 'app':
                # recomputed for an untouched child
                i = self.offset_of(got, s)
                c = st.child(q, st.norm(off + i))
                st.kind(c)
                self.check_aug(Tok(s[2], s[3]), st.res(c), 'an inner node stores an outdated augmentation for a child')
                continue
        self.out('C08', 'augmentations are shifted against the children they describe')
    def offset_of(self, segs, s):
        n = ZERO
        for x in segs:
            if x is s: return n
            n = n + x[1]
    def content(self, nid):
        st = self.st; tt = self.tt
        b, v = self.node(nid)
        if st.nodes[nid].kind == 'L':
            size = v.f[tt.lf['size']]
            return 'leaf', st.norm_segs(st.sub(v.f[tt.lf['K']].segs, ZERO, size)), st.norm_segs(st.sub(v.f[tt.lf['V']].segs, ZERO, size))
        size = v.f[tt.nf['size']]
        return 'inner', st.norm_segs(st.sub(v.f[tt.nf['S']].segs, ZERO, size)), st.norm_segs(st.sub(v.f[tt.nf['A']].segs, ZERO, st.norm(size + 1)))
    def check_aug(self, a, nid, msg):
        st = self.st
        nid = st.res(nid)
        if type(a) is not Tok: raise Undecided(f'augmentation {a}')
        while a.src[0] == 'cl': a = Tok(a.src[2], a.idx)      # a clone equals its original
        if a.src[0] == 'app':
            kind, x, y = st.apps[a.src[1]]
            c = self.content(nid)
            if kind == 'default':
                if c[0] == 'leaf' and not c[1]: return
                self.out('C08', msg); return
            if kind != c[0] or not self.eqsegs(x, c[1]) or not self.eqsegs(y, c[2]): self.out('C08', msg)
            return
        n = st.nodes[nid]
        if a.src[0] == 'A':
            ok = isinstance(n.parent, tuple) and n.parent[0] == a.src[1] and st.decide('eq', n.parent[1], a.idx)
        elif a.src == ('RA',): ok = n.parent == 'root'
        else: raise Undecided(f'augmentation {a}')
        if not ok: self.out('C08', msg); return
        # kept: the node's content must be unchanged
        c = self.content(nid); o = self.I.node_value(st, nid); tt = self.tt
        f = tt.lf if c[0] == 'leaf' else tt.nf
        size = o.f[f['size']]
        x, y = ('K', 'V') if c[0] == 'leaf' else ('S', 'A')
        ln2 = size if c[0] == 'leaf' else st.norm(size + 1)
        if not self.eqsegs(st.sub(o.f[f[x]].segs, ZERO, size), c[1]) or not self.eqsegs(st.sub(o.f[f[y]].segs, ZERO, ln2), c[2]):
            self.out('C08', msg)
    def eqsegs(self, x, y):
        """equal sequences of tokens"""
        st = self.st
        x = list(st.norm_segs(x)); y = list(st.norm_segs(y))
        if tuple(x) == tuple(y): return True
        if not st.decide('eq', st.alen(x), st.alen(y)): return False
        x, y = st.norm_segs(x), st.norm_segs(y)
        if x == y: return True
        x, y = list(x), list(y)
        while x and y:
            a, b = x.pop(0), y.pop(0)
            if not st.same(a[1], b[1]):
                if st.decide('ge', a[1], b[1]):
                    a, r = st.seg_cut(a, b[1])
                    if r: x.insert(0, r)
                else:
                    b, r = st.seg_cut(b, a[1])
                    if r: y.insert(0, r)
            if st.decide('eq', a[1], 0): continue
            if a[0] != b[0]: return False
            if a[0] == 'S':
                if M.unclone(a[2]) != M.unclone(b[2]) or not st.decide('eq', a[3], b[3]): return False
            elif a[0] == '1':
                if a[2] != b[2]: return False
            else: raise Undecided('augmentation content')
        return True
    # ---- leaf chain
    def link_is(self, l, what, nid_or_pos, dec):
        """l: the value of a link; what: 'none' | 'node' nid | 'end' pos (original leaf ending there) | 'start' pos"""
        st = self.st
        eq = lambda a, b: dec('eq', a, b)
        if type(l) is Lazy:
            w, m = l.k[0], l.k[1]
            n = st.nodes[st.res(m)]
            if w == 'next':
                if what == 'none': return eq(n.end, st.g['N'])
                if what == 'start': return eq(n.end, nid_or_pos)
                if what == 'node':
                    x = st.nodes[nid_or_pos]
                    if x.new or x.start is None: return False
                    return eq(x.start, n.end)
            else:
                if what == 'none': return eq(n.start, ZERO)
                if what == 'end': return eq(n.start, nid_or_pos)
                if what == 'node':
                    x = st.nodes[nid_or_pos]
                    if x.new or x.end is None: return False
                    return eq(x.end, n.start)
            return False
        if type(l) is not Agg: raise Undecided(f'link {l}')
        if l.v == 0:
            if what == 'start': return eq(nid_or_pos, st.g['N'])
            if what == 'end': return eq(nid_or_pos, ZERO)
            return what == 'none'
        if what == 'none': return False
        i = st.norm(l.f[0])
        for n in list(st.nodes.values()):
            if n.kind == 'L' and n.ids is not None and st.norm(n.ids) == i:
                if what == 'node': return n.nid == nid_or_pos
                if n.new: return False
                if what == 'start': return eq(n.start, nid_or_pos)
                return eq(n.end, nid_or_pos)
        raise Undecided(f'leaf link {i}')
    def chain(self):
        st = self.st; tt = self.tt
        prov = st.decide0
        ls = [x for x in self.leaves if x[0] == 't' or not st.same(x[1], x[2])]
        i = 0
        prev = None
        while True:
            x = ls[i] if i < len(ls) else None
            r = self.adjacent(prev, x, prov)
            if any(v is not True for v, _ in r):
                # an untouched range may be empty: settle that before judging
                again = False
                for y in (prev, x):
                    if y is not None and y[0] == 'u':
                        if not st.decide('gt', y[2], y[1]): ls = [z for z in ls if z is not y]; again = True
                if again:
                    i = 0; prev = None; continue
                for v, m in self.adjacent(prev, x, st.decide):
                    if not v:
                        self.out('C09', m)
                        if self.dangling(prev, x): self.out('C21', 'a leaf link refers to a removed node')
            if x is None: break
            prev = x; i += 1
    def dangling(self, prev, x):
        """one of the links between two neighbours provably leads to a leaf that left the store"""
        st = self.st; tt = self.tt
        gone = [n for n in st.nodes.values() if n.kind == 'L' and n.nid in self.dirty and n.nid not in self.reached and self.slot_base(n.nid) is None]
        def link(y, w):
            if y[0] == 't':
                l = y[2].f[tt.lf[w]]
                if type(l) is Lazy:
                    at = st.nodes[st.res(l.k[1])]
                    return any(n.start is not None and not n.new and (st.same(n.start, at.end) if l.k[0] == 'next' else st.same(n.end, at.start)) for n in gone)
                if type(l) is not Agg or l.v == 0: return False
                i = st.norm(l.f[0])
                return any(n.ids is not None and st.norm(n.ids) == i for n in gone)
            return any(n.start is not None and not n.new and (st.same(n.end, y[1]) if w == 'prev' else st.same(n.start, y[2])) for n in gone)
        return prev is not None and link(prev, 'next') or x is not None and link(x, 'prev')
    def adjacent(self, prev, x, dec):
        st = self.st; tt = self.tt
        N = st.g['N']
        if prev is None and x is None: return []
        if prev is None:
            m = 'the first leaf has a previous leaf'
            if x[0] == 't': return [(self.link_is(x[2].f[tt.lf['prev']], 'none', None, dec), m)]
            return [(dec('eq', x[1], ZERO), m)]
        if x is None:
            m = 'the last leaf has a next leaf'
            if prev[0] == 't': return [(self.link_is(prev[2].f[tt.lf['next']], 'none', None, dec), m)]
            return [(dec('eq', prev[2], N), m)]
        ma = 'a next link does not lead to the following leaf'; mb = 'a prev link does not lead to the preceding leaf'
        if prev[0] == 't' and x[0] == 't':
            a = self.link_is(prev[2].f[tt.lf['next']], 'node', x[1], dec)
            b = self.link_is(x[2].f[tt.lf['prev']], 'node', prev[1], dec)
        elif prev[0] == 't':
            a = self.link_is(prev[2].f[tt.lf['next']], 'start', x[1], dec)
            n = st.nodes[prev[1]]      # the first untouched leaf still links back to the leaf that ended there
            b = False if n.new else dec('eq', n.end, x[1])
        elif x[0] == 't':
            b = self.link_is(x[2].f[tt.lf['prev']], 'end', prev[2], dec)
            n = st.nodes[x[1]]
            a = False if n.new else dec('eq', n.start, prev[2])
        else: a = b = dec('eq', prev[2], x[1])
        return [(a, ma), (b, mb)]
    # ---- nodes
    def nodes(self):
        """detached nodes are released and nothing else is"""
        st = self.st
        for b in st.mem:
            if b[0] == 'H' and b not in st.freed:
                if isinstance(b[1], int):
                    n = st.nodes.get(b[1])
                    if n is None or n.kind == 'alias': continue
                    if n.nid not in self.dirty: continue
                    if self.slot_base(n.nid) == b:
                        if n.nid not in self.reached: self.out('C21', 'a detached node stays in the node store')
                    elif not self.holds(b): self.out('C21', 'a detached node is not released')
                elif not self.holds(b): self.out('C21', 'an allocated node is neither stored nor released')
        for b in st.freed:
            if b[0] == 'H' and isinstance(b[1], int) and self.slot_base(b[1]) == b:
                self.out('C21', 'a released node is still in the node store')
        if len(set(st.freed)) != len(st.freed): self.out('C21', 'a node is released twice')
        for k in 'LI':
            for nid, v in self.store[k].slots:
                if isinstance(nid, int) and type(v) is Agg and v.v == 1 and nid not in self.reached and st.nodes[nid].new:
                    self.out('C21', 'a new node is not linked into the tree')
                if isinstance(nid, int) and type(v) is Agg and v.v == 0 and nid in self.reached:
                    self.out('C21', 'a linked node has no slot in the store')
    def holds(self, b):
        for k in 'LI':
            for nid, v in self.store[k].slots:
                if type(v) is Agg and v.v == 1 and type(v.f[0]) is Ptr and v.f[0].base == b: return True
        return False
    def fill(self):
        """a node that was restructured is filled to the documented minimum, when all nodes around it were before"""
        st = self.st
        root = st.res(st.g['root'])
        s2 = st.copy()
        try:
            for n in st.nodes.values():
                if n.kind in ('L', 'I') and not n.new and n.nid != root: s2.facts = s2.facts.add_ge(n.size - MIN)
        except Infeasible: return
        if not s2.facts.consistent(): return
        for nid, size in self.sizes:
            if (nid in self.dirty or st.nodes[nid].new) and not s2.decide('ge', size, MIN):
                self.out('C20', f'{"a leaf" if st.nodes[nid].kind == "L" else "an inner node"} is left below the minimum fill although its siblings could have fixed it')
    # ---- stream
    def stream(self, items, expect):
        """the keys and the values of the final tree, in order, against the expected ones"""
        for which, what in ((0, 'key'), (1, 'value')):
            if which and not self.tt.values: continue
            r = self.seqcmp(self.seq(items, which), self.seq(expect, which), what)
            if r: return r
        return None
    def seq(self, items, which):
        """merged list of ('E', position, length) / ('T', token, 1)"""
        st = self.st; out = []
        for it in items:
            if it[0] == 'R': x = ('E', it[1], it[2])
            elif it[0] == 'RK': x = ('E', it[1], it[3]) if which == 0 else ('T', it[2][1:], ONE)
            elif it[0] == 'X':
                t = it[1 + which]
                x = ('T', t[1:], ONE)
            else:
                s = it[1 + which]
                if s is None: continue
                if s[0] == '1': x = ('T', (s[2],), ONE)
                else:
                    src = s[2]
                    if src[0] == 'KV'[which] and len(src) == 2: x = ('E', st.norm(st.nodes[src[1]].start + s[3]), s[1])
                    elif st.same(s[1], 1): x = ('T', (src, s[3]), ONE)
                    else: x = ('S', (src, s[3]), s[1])
            ln = st.norm(x[2])
            if st.facts.ge(ZERO, ln): continue
            if out and x[0] == 'E' and out[-1][0] == 'E' and st.same(out[-1][1] + out[-1][2], x[1]):
                out[-1] = ('E', out[-1][1], st.norm(out[-1][2] + ln))
            else: out.append((x[0], x[1] if x[0] != 'E' else st.norm(x[1]), ln))
        return out
    def seqcmp(self, got, want, what):
        st = self.st
        def eq1(g, w):
            if g[0] != w[0]: return False
            if g[0] == 'E': return st.same(g[1], w[1]) and st.same(g[2], w[2])
            return g[1] == w[1]
        if len(got) == len(want) and all(eq1(a, b) for a, b in zip(got, want)): return None
        i = j = 0
        bad = f'a {what} is not the expected one (lost, duplicated or out of place)'
        got, want = list(got), list(want)
        while i < len(got) or j < len(want):
            if i < len(got) and not st.decide('ge', got[i][2], 1): i += 1; continue
            if j < len(want) and not st.decide('ge', want[j][2], 1): j += 1; continue
            if i >= len(got): return f'a {what} is lost'
            if j >= len(want): return f'an extra {what} appears'
            g, w = got[i], want[j]
            if g[0] != w[0]: return bad
            if g[0] != 'E':
                if g[1] != w[1]: return bad
                i += 1; j += 1; continue
            if not st.decide('eq', g[1], w[1]): return bad
            if st.decide('ge', g[2], w[2]):
                got[i] = ('E', st.norm(g[1] + w[2]), st.norm(g[2] - w[2])); j += 1
            else:
                want[j] = ('E', st.norm(w[1] + g[2]), st.norm(w[2] - g[2])); i += 1
        return None
    # ---- ownership
    def own(self, extra, universe):
        """every element of every touched source exactly once among the live places"""
        st = self.st
        by = {}
        for s in list(self.live) + list(extra):
            if s[0] == '1' and type(s[2]) is Tok: s = ('S', ONE, s[2].src, s[2].idx)
            if s[0] == 'S' and s[2][0] != 'C': by.setdefault(s[2], []).append((s[3], s[1]))
        for src, (lo, hi) in universe.items():
            ivs = by.pop(src, [])
            cur = lo
            if self.tile(ivs, lo, hi): continue
            while True:
                ivs = [x for x in ivs if not (st.same(x[1], 0))]
                if not ivs: break
                nxt = None
                for x in ivs:
                    if st.same(x[0], cur): nxt = x; break
                if nxt is None:
                    for x in ivs:
                        if st.decide('eq', x[1], 0): ivs = [y for y in ivs if y is not x]; break
                        if st.decide('eq', x[0], cur): nxt = x; break
                    else:
                        for x in ivs:
                            if st.decide('lt', x[0], cur): return self.dup(src)
                        return self.lost(src)
                    if nxt is None: continue
                ivs.remove(nxt)
                cur = st.norm(cur + nxt[1])
            if not st.decide('eq', cur, hi):
                if st.decide('lt', cur, hi): return self.lost(src)
                return self.dup(src)
        for src, ivs in by.items():
            return self.out('C04', f'{self.what(src)} owned that was never handed over')
    def tile(self, ivs, cur, hi):
        """do the intervals provably tile [cur, hi)?"""
        st = self.st
        if not ivs: return st.same(cur, hi)
        for k, x in enumerate(ivs):
            if st.same(x[0], cur) and self.tile(ivs[:k] + ivs[k + 1:], st.norm(cur + x[1]), hi): return True
        return False
    def what(self, src):
        u = M.unclone(src)[0]
        n = {'K': 'a key', 'V': 'a value', 'S': 'a separator key', 'A': 'an augmentation value', 'app': 'an augmentation value', 'RA': 'the root augmentation', 'ik': 'the inserted key', 'iv': 'the inserted value'}.get(u, str(u))
        if src[0] == 'cl': n = 'a cloned key'
        return n
    def dup(self, src): self.out('C04', f'{self.what(src)} is owned or dropped twice')
    def lost(self, src): self.out('C04', f'{self.what(src)} is leaked')

class Stop(Exception): pass
