"""Linear integer expressions and a small relational numeric domain (conjunctions of linear
inequalities over integers, decided by Fourier-Motzkin elimination on the relevant constraints)."""
from math import gcd

class Lin:
    __slots__ = ('c', 't', '_h')
    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t
        self._h = hash((c, t))
    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, Lin) and self.c == o.c and self.t == o.t
    def is_const(self): return not self.t
    def __add__(self, o):
        if isinstance(o, int): return Lin(self.c + o, self.t)
        if not o.t: return Lin(self.c + o.c, self.t)
        if not self.t: return Lin(self.c + o.c, o.t)
        d = dict(self.t)
        for s, k in o.t:
            v = d.get(s, 0) + k
            if v: d[s] = v
            else: d.pop(s, None)
        return Lin(self.c + o.c, tuple(sorted(d.items())))
    __radd__ = __add__
    def __neg__(self): return Lin(-self.c, tuple((s, -k) for s, k in self.t))
    def __sub__(self, o):
        if isinstance(o, int): return Lin(self.c - o, self.t)
        return self + (-o)
    def __rsub__(self, o): return (-self) + o
    def scale(self, n):
        if n == 0: return ZERO
        return Lin(self.c * n, tuple((s, k * n) for s, k in self.t))
    def sym(self):
        """the symbol, if this is exactly one symbol"""
        if self.c == 0 and len(self.t) == 1 and self.t[0][1] == 1: return self.t[0][0]
        return None
    def __repr__(self):
        if not self.t: return str(self.c)
        out = []
        for s, k in self.t:
            out.append(('+' if k > 0 else '-') + (f'{abs(k)}*' if abs(k) != 1 else '') + str(s))
        r = ''.join(out)
        if r[0] == '+': r = r[1:]
        if self.c: r += f'{self.c:+d}'
        return r

ZERO = Lin(0)
ONE = Lin(1)
def const(n): return Lin(n)
def sym(s): return Lin(0, ((s, 1),))
def L(x):
    return x if isinstance(x, Lin) else Lin(int(x))

def _norm(e):
    """tighten e >= 0 over the integers"""
    if not e.t: return e
    g = 0
    for _, k in e.t: g = gcd(g, abs(k))
    if g > 1:
        return Lin(e.c // g, tuple((s, k // g) for s, k in e.t))   # floor division tightens
    return e

class Infeasible(Exception): pass

def fm_infeasible(cons, limit=600):
    """True if the conjunction of (e >= 0) has no rational (hence integer) solution; integer
    tightening is applied on the way. False means: not shown."""
    cur = {}
    for e in cons:
        e = _norm(e)
        if not e.t:
            if e.c < 0: return True
            continue
        o = cur.get(e.t)
        if o is None or e.c < o: cur[e.t] = e.c
    while cur:
        # pairs that contradict directly
        pos = {}
        neg = {}
        for t in cur:
            for s, k in t:
                if k > 0: pos[s] = pos.get(s, 0) + 1
                else: neg[s] = neg.get(s, 0) + 1
        best = None
        for s in set(pos) | set(neg):
            p, n = pos.get(s, 0), neg.get(s, 0)
            cost = p * n - p - n
            if best is None or cost < best[0]: best = (cost, s)
        s = best[1]
        ups, downs, rest = [], [], {}
        for t, c in cur.items():
            k = 0
            for s2, k2 in t:
                if s2 == s: k = k2; break
            if k > 0: ups.append((k, Lin(c, t)))
            elif k < 0: downs.append((-k, Lin(c, t)))
            else: rest[t] = c
        for k1, e1 in ups:
            for k2, e2 in downs:
                e = _norm(e1.scale(k2) + e2.scale(k1))
                if not e.t:
                    if e.c < 0: return True
                    continue
                o = rest.get(e.t)
                if o is None or e.c < o: rest[e.t] = e.c
        if len(rest) > limit: return False
        cur = rest
    return False

class Facts:
    """Immutable conjunction of facts. eq: solved equalities (symbol -> Lin)."""
    __slots__ = ('cons', 'eq', 'ne', 'bnd', '_cache', '_idx')
    def __init__(self, cons=(), eq=None, ne=(), bnd=None):
        self.cons = cons          # tuple of Lin (>= 0), with >= 2 symbols
        self.eq = eq or {}
        self.ne = ne              # tuple of Lin (!= 0)
        self.bnd = bnd or {}      # sym -> (lo, hi) (None = unbounded)
        self._cache = {}
        self._idx = None

    def norm(self, e):
        """rewrite e with the known equalities"""
        if not e.t: return e
        if not self.eq: return e
        for s, _ in e.t:
            if s in self.eq: break
        else: return e
        r = Lin(e.c)
        for s, k in e.t:
            r = r + (self.eq[s].scale(k) if s in self.eq else Lin(0, ((s, k),)))
        return r

    def _interval_min(self, e):
        m = e.c
        for s, k in e.t:
            b = self.bnd.get(s)
            if b is None: return None
            v = b[0] if k > 0 else b[1]
            if v is None: return None
            m += k * v
        return m

    def _relevant(self, syms):
        if self._idx is None:
            idx = {}
            for e in self.cons:
                for s, _ in e.t: idx.setdefault(s, []).append(e)
            self._idx = idx
        seen = set(syms); todo = list(syms); out = {}
        while todo:
            s = todo.pop()
            for e in self._idx.get(s, ()):
                if id(e) in out: continue
                out[id(e)] = e
                for s2, _ in e.t:
                    if s2 not in seen:
                        seen.add(s2); todo.append(s2)
        res = list(out.values())
        for s in seen:
            b = self.bnd.get(s)
            if b:
                if b[0] is not None: res.append(Lin(-b[0], ((s, 1),)))
                if b[1] is not None: res.append(Lin(b[1], ((s, -1),)))
        return res

    def ge0(self, e):
        """is e >= 0 entailed?"""
        e = self.norm(e)
        if not e.t: return e.c >= 0
        r = self._cache.get(e)
        if r is None:
            m = self._interval_min(e)
            if m is not None and m >= 0: r = True
            else:
                neg = (-e) - 1
                if not self.cons: r = False
                else:
                    rel = self._relevant([s for s, _ in e.t])
                    r = fm_infeasible(rel + [neg])
                if not r and self.ne:
                    # e >= 0 also follows from e >= -1 and e != -1
                    e1 = e + 1
                    if any(x == e1 or x == -e1 for x in self.ne) and self.ge0(e1): r = True
            self._cache[e] = r
        return r

    def ge(self, a, b): return self.ge0(L(a) - L(b))
    def gt(self, a, b): return self.ge0(L(a) - L(b) - 1)
    def eq0(self, e):
        e = self.norm(e)
        if not e.t: return e.c == 0
        return self.ge0(e) and self.ge0(-e)
    def same(self, a, b): return self.eq0(L(a) - L(b))
    def ne0(self, e):
        e = self.norm(e)
        if not e.t: return e.c != 0
        if any(x == e or x == -e for x in self.ne): return True
        return self.ge0(e - 1) or self.ge0(-e - 1)

    def decide(self, op, a, b):
        """True / False / None for a comparison"""
        d = L(a) - L(b)
        if op == 'eq':
            if self.eq0(d): return True
            if self.ne0(d): return False
            return None
        if op == 'ne':
            r = self.decide('eq', a, b)
            return None if r is None else not r
        if op == 'ge': p = d
        elif op == 'gt': p = d - 1
        elif op == 'le': p = -d
        elif op == 'lt': p = -d - 1
        else: raise KeyError(op)
        if self.ge0(p): return True
        if self.ge0(-p - 1): return False
        return None

    def add_ge(self, e):
        """add e >= 0; raises Infeasible"""
        e = _norm(self.norm(e))
        if not e.t:
            if e.c < 0: raise Infeasible()
            return self
        if self.ge0(e): return self
        if self.ge0(-e - 1): raise Infeasible()
        if self.ge0(-e):           # then e == 0
            return self._add_eq(e)
        for x in self.ne:
            if x == e or x == -e:
                return self.add_ge(e - 1)
        if len(e.t) == 1:
            s, k = e.t[0]
            bnd = dict(self.bnd)
            lo, hi = bnd.get(s, (None, None))
            if k > 0: v = -(e.c // k); lo = v if lo is None else max(lo, v)     # k s + c >= 0
            else: v = e.c // (-k); hi = v if hi is None else min(hi, v)
            bnd[s] = (lo, hi)
            if lo is not None and lo == hi:
                return self._add_eq(sym(s) - lo)
            return Facts(self.cons, self.eq, self.ne, bnd)
        # drop constraints this one subsumes
        cons = tuple(x for x in self.cons if not (x.t == e.t and x.c >= e.c)) + (e,)
        return Facts(cons, self.eq, self.ne, self.bnd)

    def add_eq(self, e):
        e = self.norm(e)
        if not e.t:
            if e.c != 0: raise Infeasible()
            return self
        if self.ne0(e): raise Infeasible()
        if not self.ge0(e) and self.ge0(-e - 1): raise Infeasible()
        if self.ge0(e - 1) : raise Infeasible()
        return self._add_eq(e)

    def _add_eq(self, e):
        # solve for a symbol with unit coefficient, preferring the most recent (largest) name
        pick = None
        for s, k in e.t:
            if abs(k) == 1: pick = (s, k)
        if pick is None:
            f = Facts(self.cons + (e, -e), self.eq, self.ne, self.bnd)
            return f
        s, k = pick
        rhs = (Lin(e.c, tuple(x for x in e.t if x[0] != s))).scale(-k)
        eq = {a: (b if all(x[0] != s for x in b.t) else _subst(b, s, rhs)) for a, b in self.eq.items()}
        eq[s] = rhs
        f = Facts((), eq, (), dict(self.bnd))
        b = f.bnd.pop(s, None)
        out = f
        if b:
            if b[0] is not None: out = out.add_ge(rhs - b[0])
            if b[1] is not None: out = out.add_ge(-rhs + b[1])
        for c in self.cons:
            out = out.add_ge(c) if any(x[0] in out.eq for x in c.t) else out._raw(c)
        for n in self.ne: out = out.add_ne(n)
        return out

    def _raw(self, c):
        return Facts(self.cons + (c,), self.eq, self.ne, self.bnd)

    def add_ne(self, e):
        e = self.norm(e)
        if not e.t:
            if e.c == 0: raise Infeasible()
            return self
        if self.ge0(e): return self.add_ge(e - 1)
        if self.ge0(-e): return self.add_ge(-e - 1)
        if any(x == e or x == -e for x in self.ne): return self
        return Facts(self.cons, self.eq, self.ne + (e,), self.bnd)

    def assume(self, op, a, b):
        d = L(a) - L(b)
        if op == 'eq': return self.add_eq(d)
        if op == 'ne': return self.add_ne(d)
        if op == 'ge': return self.add_ge(d)
        if op == 'gt': return self.add_ge(d - 1)
        if op == 'le': return self.add_ge(-d)
        if op == 'lt': return self.add_ge(-d - 1)
        raise KeyError(op)

    def bounds(self, e, lo=0, hi=200):
        """tightest constant bounds of e within [lo,hi] (None outside)"""
        e = self.norm(e)
        if not e.t: return e.c, e.c
        def search(pred, a, b, up):
            # largest v with pred(v) true going up / smallest going down
            if not pred(a): return None
            while a != b:
                m = (a + b + 1) // 2 if up else (a + b) // 2
                if pred(m): a = m
                else: b = m - 1 if up else m + 1
            return a
        l = search(lambda v: self.ge0(e - v), lo, hi, True)
        h = search(lambda v: self.ge0(Lin(v) - e), hi, lo, False)
        return l, h

    def project(self, live, limit=24):
        """forget all symbols not in live (a weaker conjunction over the live symbols)"""
        eq = dict(self.eq); cons = list(self.cons); ne = list(self.ne); bnd = dict(self.bnd)
        # equalities: a live symbol defined by dead ones is re-solved for one of them
        for s in list(eq):
            if s not in eq: continue
            e = eq[s]
            dead = [(x, k) for x, k in e.t if x not in live]
            if s not in live:
                del eq[s]
                continue
            if not dead: continue
            d = next(((x, k) for x, k in dead if abs(k) == 1), None)
            del eq[s]
            if d is None: continue
            x, k = d
            # s = e  =>  x = (s - rest) / k
            rest = Lin(e.c, tuple(y for y in e.t if y[0] != x))
            rhs = (sym(s) - rest).scale(k)
            eq = {a: (b if all(y[0] != x for y in b.t) else _subst(b, x, rhs)) for a, b in eq.items()}
            cons = [b if all(y[0] != x for y in b.t) else _subst(b, x, rhs) for b in cons]
            ne = [b if all(y[0] != x for y in b.t) else _subst(b, x, rhs) for b in ne]
            if x in bnd:
                lo, hi = bnd.pop(x)
                if lo is not None: cons.append(rhs - lo)
                if hi is not None: cons.append(-rhs + hi)
        dead = {s for e in cons for s, _ in e.t if s not in live}
        cur = {}
        def put(d, e):
            e = _norm(e)
            if not e.t: return
            o = d.get(e.t)
            if o is None or e.c < o: d[e.t] = e.c
        for e in cons: put(cur, e)
        while dead:
            best = None
            for s in dead:
                p = n = 0
                for t in cur:
                    for x, k in t:
                        if x == s:
                            if k > 0: p += 1
                            else: n += 1
                lo, hi = bnd.get(s, (None, None))
                p += lo is not None; n += hi is not None
                c = p * n - p - n
                if best is None or c < best[0]: best = (c, s, p, n)
            c, s, p, n = best
            dead.discard(s)
            ups = []; downs = []; rest = {}
            for t, cc in cur.items():
                k = dict(t).get(s, 0)
                if k > 0: ups.append((k, Lin(cc, t)))
                elif k < 0: downs.append((-k, Lin(cc, t)))
                else: rest[t] = cc
            lo, hi = bnd.get(s, (None, None))
            if lo is not None: ups.append((1, Lin(-lo, ((s, 1),))))
            if hi is not None: downs.append((1, Lin(hi, ((s, -1),))))
            if len(ups) * len(downs) <= limit:
                for k1, e1 in ups:
                    for k2, e2 in downs:
                        put(rest, e1.scale(k2) + e2.scale(k1))
            cur = rest
            dead |= set()
        out = Facts((), {a: b for a, b in eq.items()}, (), {s: b for s, b in bnd.items() if s in live})
        for e in ne:
            if all(s in live for s, _ in e.t): out.ne = out.ne + (e,)
        # only keep constraints not implied by the bounds
        keep = []
        for t, c in cur.items():
            e = Lin(c, t)
            m = out._interval_min(e)
            if m is not None and m >= 0: continue
            keep.append(e)
        sing = [e for e in keep if len(e.t) == 1]
        out.cons = tuple(e for e in keep if len(e.t) > 1)
        for e in sing: out = out.add_ge(e)
        return out

    def consistent(self):
        return not fm_infeasible(self._relevant([s for e in self.cons for s, _ in e.t]))

def _subst(b, s, rhs):
    r = Lin(b.c)
    for s2, k in b.t:
        r = r + (rhs.scale(k) if s2 == s else Lin(0, ((s2, k),)))
    return r
