"""Entry states and exit obligations of the analysed operations."""
from lin import Lin, L, ZERO, ONE, sym, Facts, Infeasible
from dom import *
from interp import Interp, UNIT, NONE, some

class TreeTypes:
    """locates the roles of the fields of the tree and store types"""
    def __init__(self, I, tree_ref_ty):
        T = I.T
        self.I = I
        t = tree_ref_ty
        while T[t]['k'] in ('ref', 'ptr'): t = T[t]['e']
        # unwrap facades
        while T[t]['k'] == 'adt' and 'BPlusTree<' not in T[t]['s'].split('::')[-1] + T[t]['s'] : break
        self.outer = t
        t = I.ty.strip(t)
        self.tree = t
        fields = T[t]['variants'][0]['fields']
        self.f = {nm: i for i, (nm, ft, _) in enumerate(fields)}
        # by name, or else by what the type says
        says = {'node_store': lambda s: 'NodeStoreVec<' in s, 'root': lambda s: s.endswith('NodeId'), 'root_augmentation': lambda s: s in ('UA', '()'), 'len': lambda s: s == 'usize'}
        for role, p in says.items():
            if role in self.f: continue
            m = [i for i, (nm, ft, _) in enumerate(fields) if nm not in says and p(T[ft]['s'].rsplit('::', 1)[-1] if '<' not in T[ft]['s'] else T[ft]['s'])]
            if len(m) != 1: raise Undecided(f'the field that is the {role} of the tree')
            self.f[role] = m[0]
        self.role = {self.f[r]: r for r in says}
        self.ft = {r: fields[i][1] for r, i in self.f.items()}
        self.store = I.ty.strip(self.ft['node_store'])
        self.sf = {}
        for i, (nm, ft, _) in enumerate(T[self.store]['variants'][0]['fields']):
            s = T[ft]['s']
            if 'LeafNode' in s: self.sf['L'] = i; self.leaf = self.boxed(T, ft)
            elif 'InnerNode' in s: self.sf['I'] = i; self.inner = self.boxed(T, ft)
            else: self.sf.setdefault('hint', i)
        self.lf = {}; links = 0
        for i, (nm, ft, _) in enumerate(T[self.leaf]['variants'][0]['fields']):
            S = T[I.ty.strip(ft)]
            if S['k'] == 'prim': self.lf['size'] = i
            elif S['k'] == 'array': self.lf['K' if T[I.ty.strip(S['e'])]['s'] in ('UK', 'PK') else 'V'] = i
            else:
                r = nm if nm in ('prev', 'next') else ('prev', 'next')[links]
                links += 1; self.lf[r] = i
        self.nf = {}
        for i, (nm, ft, _) in enumerate(T[self.inner]['variants'][0]['fields']):
            S = T[I.ty.strip(ft)]
            if S['k'] == 'prim': self.nf['size'] = i
            else:
                e = T[I.ty.strip(S['e'])]
                self.nf['S' if e['s'] in ('UK', 'PK') else 'C' if 'NodeId' in e['s'] else 'A'] = i
        self.keydrop = T[I.ty.strip(T[I.ty.strip(T[self.leaf]['variants'][0]['fields'][self.lf['K']][1])]['e'])]['needs_drop']      # keys are dropped
        self.noaug = T[I.ty.strip(self.ft['root_augmentation'])]['s'] == '()'
    def boxed(self, T, ft):
        v = T[ft]; o = T[v['args'][0]]; b = T[o['args'][0]]
        return b['args'][0]

def base_state(I, tt, name='tree'):
    """an arbitrary valid tree"""
    st = State(I.prog)
    g = st.g
    f = Facts()
    N = sym('N'); lv = sym('lv')
    g['N'] = N; g['nleaf0'] = sym('nleaf'); g['ninner0'] = sym('ninner')
    f = f.add_ge(N).add_ge(L(1 << 48) - N).add_ge(lv).add_ge(L(15) - lv).add_ge(g['nleaf0'] - 1).add_ge(g['ninner0'])
    f = f.add_ge(L(1 << 48) - g['nleaf0']).add_ge(L(1 << 48) - g['ninner0'])
    st.facts = f
    g['leaf_ty'] = tt.leaf; g['inner_ty'] = tt.inner
    root = st.new_node(lv, ZERO, N, 'root')
    g['root'] = root
    T = I.T
    vals = []
    for j0, (nm, ft, _) in enumerate(T[tt.tree]['variants'][0]['fields']):
        nm = tt.role.get(j0, nm)
        if nm == 'root': vals.append(Nd(root))
        elif nm == 'root_augmentation': vals.append(UNIT if tt.noaug else Tok(('RA',)))
        elif nm == 'len': vals.append(N)
        elif nm == 'node_store':
            sv = []
            for j, (n2, t2, _) in enumerate(T[tt.store]['variants'][0]['fields']):
                if j == tt.sf['L']: sv.append(StoreV('L', g['nleaf0'], ()))
                elif j == tt.sf['I']: sv.append(StoreV('I', g['ninner0'], ()))
                elif j == tt.sf.get('hint'): sv.append(st.fsym('hint', 0))
                else: sv.append(any_value(I, st, t2, n2))
            vals.append(Agg(None, sv) if len(sv) > 1 else sv[0])
        else: vals.append(any_value(I, st, ft, nm))
    st.mem[('X', name)] = Agg(None, vals)
    return st

def any_value(I, st, t, nm):
    s = I.ty.strip(t); T = I.T[s]
    if T['k'] == 'prim':
        if T['s'] == 'bool': raise Undecided('unknown bool field ' + nm)
        b = I.ty.bits(s)
        return st.fsym('v_' + nm, 0, (1 << b) - 1)
    if T['k'] == 'adt' and T['kind'] == 'struct': return Agg(None, [any_value(I, st, f[1], f[0]) for f in T['variants'][0]['fields']])
    if T['k'] == 'tuple': return Agg(None, [any_value(I, st, f, nm) for f in T['fields']])
    if T.get('size') == 0: return UNIT
    raise Undecided(f'unknown field {nm}: {T["s"]}')

def enter(I, st, root, args):
    inst = I.prog.insts[I.prog.roots[root]]
    uid = st.fresh_uid()
    for i, v in enumerate(args): st.mem[('L', uid, i + 1)] = v
    st.frames.append(Frame(inst, inst['body'], uid, None, None, 'continue'))
    return inst

def add_query(st, name):
    """an arbitrary key: kp smaller entries, present iff kf"""
    kp = st.fsym('kp', 0); kf = st.fsym('kf', 0, 1)
    st.facts = st.facts.add_ge(st.g['N'] - kp - kf)
    st.g['kp'] = kp; st.g['kf'] = kf
    st.mem[('X', name)] = Tok((name,))
