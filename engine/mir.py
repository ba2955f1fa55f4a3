"""Loader for the MIR dump and a small pretty printer."""
import json

class Type:
    __slots__ = ('id', 'k', 's', 'd', 'args', 'variants')
    def __repr__(self): return f'<{self.s}>'

class Roots(dict):
    """root functions by name; 'f:m' is the method m that root f calls"""
    prog = None
    def __missing__(self, k):
        f, _, m = k.partition(':')
        if not m or not dict.__contains__(self, f): raise KeyError(k)
        P = self.prog
        for bb in P.insts[self[f]]['body']['bbs']:
            t = bb['t']
            if t['t'] != 'call' or t['f'].get('o') != 'const': continue
            i = P.types[t['f']['v']['t']].get('inst')
            if i is not None and P.insts[i]['name'] == m:
                self[k] = i
                return i
        raise KeyError(k)
    def __contains__(self, k):
        try: self[k]
        except KeyError: return False
        return True

class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.raw = d
        self.types = d['types']
        self.insts = d['insts']
        self.roots = Roots(d['roots']); self.roots.prog = self
        self.by_path = {}
        for i in self.insts:
            self.by_path.setdefault(i['path'], []).append(i)

    def ty(self, t): return self.types[t]
    def tys(self, t): return self.types[t]['s']

def place_s(p):
    s = f"_{p['l']}"
    for e in p['p']:
        k = e[0]
        if k == '*': s = f"(*{s})"
        elif k == 'f': s += f".{e[1]}"
        elif k == 'i': s += f"[_{e[1]}]"
        elif k == 'd': s += f" as v{e[1]}"
        else: s += f"<{e}>"
    return s

def op_s(o):
    k = o['k']
    if k in ('copy', 'move'): return f"{k} {place_s(o['p'])}"
    return f"{k}:{ {a: b for a, b in o.items() if a != 'k'} }"[:120]

def dump(prog, inst):
    print(f"fn#{inst['id']} {inst['kind']} {inst['full']}  @{inst['sp']} args={[prog.tys(a) for a in inst['args']]} out={inst['out']}")
    b = inst['body']
    if not b: print('  <no body>'); return
    for i, t in enumerate(b['locals']): print(f"   _{i}: {prog.tys(t)}")
    for n, bb in enumerate(b['bbs']):
        print(f"  bb{n}:")
        for s in bb['s']: print('    ', json.dumps(s)[:260])
        print('     =>', json.dumps(bb['t'])[:400])

if __name__ == '__main__':
    import sys
    p = Program(sys.argv[1])
    for i in p.insts:
        if any(a in i['full'] for a in sys.argv[2:]): dump(p, i)
