"""reference elements, bases and exact integrals, and the walk of EDGEpre (C28, C29)"""
import math, os, re, time
from fractions import Fraction as F
from . import pyabs as P, build as B
ROOT = os.path.join(B.REPO, 'tools/edge_pre'); EP = 'tools/edge_pre/'
fac = math.factorial
def pa(p, q, s=1):
    r = dict(p)
    for k, v in q.items(): r[k] = r.get(k, 0) + s*v
    return {k: v for k, v in r.items() if v}
def ps(p, s): return {k: v*s for k, v in p.items()}
def pm(p, q):
    r = {}
    for a, v in p.items():
        for b, w in q.items(): k = (a[0]+b[0], a[1]+b[1], a[2]+b[2]); r[k] = r.get(k, 0) + v*w
    return {k: v for k, v in r.items() if v}
def lin(c0, *c): return {k: F(v) for k, v in zip([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], (c0,) + c) if v}
P1 = lin(1)
def jac(n, a, b, t, s):
    """homogenised Jacobi polynomial s^n P_n^{a,b}(t/s)"""
    if n == 0: return P1
    p0, p1 = P1, pa(ps(s, F(a-b, 2)), ps(t, F(a+b+2, 2)))
    for k in range(2, n+1):
        c = 2*k*(k+a+b)*(2*k+a+b-2)
        p0, p1 = p1, pa(pm(pa(ps(t, F((2*k+a+b-1)*(2*k+a+b)*(2*k+a+b-2), c)), ps(s, F((2*k+a+b-1)*(a*a-b*b), c))), p1), pm(pm(s, s), p0), -F(2*(k+a-1)*(k+b-1)*(2*k+a+b), c))
    return p1
def line(n, d=0): return jac(n, 0, 0, lin(-1, *[2 if k == d else 0 for k in range(3)]), P1)
def simplex(t, *p):
    if t == 'tria3': return pm(jac(p[0], 0, 0, lin(-1, 2, 1), lin(1, 0, -1)), jac(p[1], 2*p[0]+1, 0, lin(-1, 0, 2), P1))
    return pm(pm(jac(p[0], 0, 0, lin(-1, 2, 1, 1), lin(1, 0, -1, -1)), jac(p[1], 2*p[0]+1, 0, lin(-1, 0, 2, 1), lin(1, 0, 0, -1))), jac(p[2], 2*p[0]+2*p[1]+2, 0, lin(-1, 0, 0, 2), P1))
def basis(t, o):
    if t == 'point': return [P1]
    if t == 'line': return [line(n) for n in range(o)]
    if t == 'quad4r': return [pm(line(i), line(j, 1)) for j in range(o) for i in range(o)]
    if t == 'hex8r': return [pm(pm(line(i), line(j, 1)), line(k, 2)) for k in range(o) for j in range(o) for i in range(o)]
    if t == 'tria3': return [simplex(t, p, d-p) for d in range(o) for p in range(d+1)]
    return [simplex(t, p, q, d-p-q) for d in range(o) for p in range(d+1) for q in range(d-p+1)]
def der(p, d): return {tuple(e-(i == d) for i, e in enumerate(k)): v*k[d] for k, v in p.items() if k[d]}
ND = {'point': 0, 'line': 1, 'quad4r': 2, 'tria3': 2, 'hex8r': 3, 'tet4': 3}
def integral(t, p):
    s = F(0)
    for (a, b, c), v in p.items():
        s += v*(F(fac(a)*fac(b)*fac(c), fac(a+b+c+ND[t])) if t in ('tria3', 'tet4') else F(1, (a+1)*(b+1)*(c+1)))
    return s
def comp(p, X):
    """p with the polynomials X substituted"""
    r = {}; pw = [{0: P1} for _ in range(3)]
    for k, v in p.items():
        q = {(0, 0, 0): v}
        for d in range(3):
            if k[d]:
                for e in range(1, k[d]+1):
                    if e not in pw[d]: pw[d][e] = pm(pw[d][e-1], X[d])
                q = pm(q, pw[d][k[d]])
        r = pa(r, q)
    return r
VE = {'line': [[0], [1]], 'tria3': [[0, 0], [1, 0], [0, 1]], 'quad4r': [[0, 0], [1, 0], [1, 1], [0, 1]], 'tet4': [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]],
      'hex8r': [[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]]}
# vertices of the faces, as the meshes of the solver store them
FA = {'line': [[0], [1]], 'tria3': [[0, 1], [1, 2], [2, 0]], 'quad4r': [[0, 1], [1, 2], [2, 3], [3, 0]], 'tet4': [[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]],
      'hex8r': [[0, 3, 2, 1], [0, 1, 5, 4], [1, 2, 6, 5], [3, 7, 6, 2], [0, 4, 7, 3], [4, 5, 6, 7]]}
TF = {'line': 'point', 'tria3': 'line', 'quad4r': 'line', 'tet4': 'tria3', 'hex8r': 'quad4r'}
NO = {'line': 1, 'tria3': 1, 'quad4r': 1, 'tet4': 3, 'hex8r': 1}
OPP = {'line': {0: 1, 1: 0}, 'quad4r': {0: 2, 1: 3, 2: 0, 3: 1}, 'hex8r': {0: 5, 1: 3, 2: 4, 3: 1, 4: 2, 5: 0}}
def aff(v, u):
    """the affine map of the face coordinates with the vertex list v; u: the coordinates as polynomials"""
    X = []
    for d in range(len(v[0])):
        q = lin(v[0][d])
        if len(v) == 2: q = pa(q, ps(u[0], v[1][d]-v[0][d]))
        elif len(v) > 2: q = pa(pa(q, ps(u[0], v[1][d]-v[0][d])), ps(u[1], v[-1][d]-v[0][d]))
        X.append(q)
    return X + [{}]*(3-len(X))
CHI = [lin(0, 1), lin(0, 0, 1)]
def facept(t, fa, o=None, back=None):
    """coordinates of the points of a face: by its own face coordinates, or (o) as seen from the adjacent element, whose vertex 0 of its face back meets vertex o"""
    v = [VE[t][k] for k in FA[t][fa]]
    if o is not None:
        if t in ('tria3', 'quad4r'): v = [v[1], v[0]]
        elif t == 'tet4': v = [v[(o-i) % 3] for i in range(3)]
        elif t == 'hex8r':
            # translation of the points of the opposite face
            w = [VE[t][k] for k in FA[t][back]]; d = next(i for i in range(3) if len({x[i] for x in w}) == 1)
            v = [[(1-x[i] if i == d else x[i]) for i in range(3)] for x in w]
    return aff(v, CHI)
def parse(txt):
    """blocks of rows of entries; None: not of the format"""
    bl = [[]]
    if not txt.endswith('\n'): return None
    for l in txt.split('\n')[:-1]:
        if l == '': bl.append([]); continue
        if not l.endswith(','): return None
        r = []
        for e in l[:-1].split(','):
            m = re.fullmatch('\x01(\\d+)\x02', e)
            if m:
                v = P.TOK[int(m.group(1))]
                r.append(v.val() if isinstance(v, P.Sym) and v.const() else v)
            else:
                try: r.append(F(e))
                except ValueError: r.append(e)
        bl[-1].append(r)
    return bl
def mul(a, b): return [[sum((x*y for x, y in zip(r, c) if x and y), F(0)) for c in zip(*b)] for r in a]
def document(types, degs): return {'c.xml': [('degs', [('deg', str(d)) for d in degs]), ('types', [('type', t) for t in types]), ('out_dirs', [('dg', 'D'), ('subcell', 'S'), ('plots', 'P')])]}
def walk(types, degs, opaque=('edge_pre.sc',), limit=250):
    it = P.Interp(ROOT, deadline=time.time()+limit, opaque=opaque); it.xml = document(types, degs); it.why = ''
    try: it.main('edge_pre.py', {'xml': 'c.xml'})
    except (P.Raised, P.Unsupported, RecursionError) as e: it.why = f'{it.where()}: {e}'
    return it
