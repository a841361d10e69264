import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
"""C29 EDGEpre: the sub-cell grids and operators

The sources of EDGEpre are walked as for C28, now with everything that belongs to sub-cells. The files
written for a type and degree are judged as what they describe: a partition of the reference element,
its adjacency, the directions of its faces, and averages and integrals of the basis over it."""
import itertools, multiprocessing, time
from fractions import Fraction as F
from engine import harness as H, pyabs as P, edgepre as D
from engine.edgepre import FA, VE, ND, TF, EP
NORI = {'line': 1, 'quad4r': 1, 'tria3': 1, 'hex8r': 4, 'tet4': 3}
SX = ('tria3', 'tet4')
NAMES = ('svcrds', 'scsv', 'scsfsc', 'sctysf', 'scdgad', 'scatter', 'scattersurf', 'gather', 'sfint')
def sub(a, b): return [x-y for x, y in zip(a, b)]
def dot(a, b): return sum(x*y for x, y in zip(a, b))
def cross(a, b): return [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]]
def mean(v): return [sum(x)/F(len(v)) for x in zip(*v)]
def avec(t, f, inside):
    """outward area vector of a face (twice the area for triangles); None if the vertices are not those of a face"""
    nd = ND[t]
    if nd == 1: v = [F(1)]
    elif nd == 2:
        e = sub(f[1], f[0]); v = [e[1], -e[0]]
    elif t == 'tet4': v = cross(sub(f[1], f[0]), sub(f[2], f[0]))
    else:
        # corners of a parallelogram in any order
        o = next(([b, c] for a, b, c, d in [(f[0], *q) for q in itertools.permutations(f[1:])] if sub(d, b) == sub(c, a)), None)
        if o is None: return None
        v = cross(sub(o[0], f[0]), sub(o[1], f[0]))
    s = dot(v, sub(mean(f), inside))
    return None if s == 0 else v if s > 0 else [-x for x in v]
def cell(t, v, n):
    """affine map of the reference element to the cell (as polynomials) and its volume; None if it is none"""
    nd = ND[t]
    if t in SX:
        e = [sub(p, v[0]) for p in v[1:]]
        det = e[0][0]*e[1][1]-e[0][1]*e[1][0] if nd == 2 else dot(e[0], cross(e[1], e[2])); o = v[0]
    else:
        lo = [min(x) for x in zip(*v)]; hi = [max(x) for x in zip(*v)]
        if sorted(map(tuple, v)) != sorted(itertools.product(*zip(lo, hi))) or len({h-l for l, h in zip(lo, hi)}) != 1: return None
        e = [[(hi[i]-lo[i])*(i == j) for j in range(nd)] for i in range(nd)]; o = lo; det = 1
        for i in range(nd): det *= e[i][i]
    if det == 0: return None
    X = []
    for d in range(3):
        q = D.lin(o[d], *[e[k][d] for k in range(nd)]) if d < nd else {}
        X.append(q)
    return X, abs(det)
def normals(t):
    """area vectors of the faces' solvers: those of the element's faces, for tetrahedra two more (Geom::sfAdd, away from vertex 0)"""
    c = mean(VE[t]); r = [avec(t, [VE[t][k] for k in f], c) for f in FA[t]]
    return r + ([[1, 1, 0], [1, 0, 1]] if t == 'tet4' else [])
def job(a):
    t, d = a; out = []; t0 = time.time()
    def h(rule, cond, key, text): out.append((rule, bool(cond), f'{t}: degree {d}: {key}', text)); return bool(cond)
    it = D.walk([t], [d], opaque=(), limit=850); g = EP + 'edge_pre/sc/grid: '; p = EP + 'edge_pre/sc/ops/Project.py: '; w = EP + 'edge_pre.py: '
    if not h('files', not it.why, 'end', f'{EP}{it.why}'): return out, it.functions, time.time()-t0
    got = {x for x in it.written if x.startswith('S')}; want = {f'S/{t}/{d}/{t}_{d}_{n}.csv' for n in NAMES}
    if not h('files', got == want, 'sub-cells', f'{w}the files {sorted(got ^ want)[:6]} are missing or superfluous'): return out, it.functions, time.time()-t0
    nd = ND[t]; n = 2*d+1; nsc = n**nd; nsf = n**(nd-1); nf = len(FA[t]); ref = D.basis(t, d+1); nm = len(ref); nve = len(VE[t]); nfv = len(FA[t][0]); no = NORI[t]
    nsv = {'line': n+1, 'quad4r': (n+1)**2, 'hex8r': (n+1)**3, 'tria3': (n+1)*(n+2)//2, 'tet4': (n+1)*(n+2)*(n+3)//6}[t]; nr = nsc+nf*nsf
    shape = dict(svcrds=(0, nsv, nd), scsv=(0, nr, nve), scsfsc=(0, nr, nf), sctysf=(0, nsc, nf), scdgad=(0, 1 if nd == 1 else no, nsf), scatter=(0, nm, nsc), scattersurf=(nf+no*nf, nm, nsf), gather=(0, nsc, nm), sfint=(nf, nsf, nm))
    W = {}
    for k in NAMES:
        x = D.parse(it.written[f'S/{t}/{d}/{t}_{d}_{k}.csv']); b, r, q = shape[k]
        if b and x: x = x[:-1] if x[-1] == [] else None
        ok = x is not None and len(x) == (b or 1) and all(len(y) == r and all(len(l) == q and all(isinstance(v, (int, F)) for v in l) for l in y) for y in x)
        if h('files', ok, 'shape of ' + k, f'{w}{k}: {x and [(len(y), [len(l) for l in y][:3]) for y in x][:4]} instead of {b or 1} x {r} x {q} numbers'): W[k] = x if b else x[0]
    if len(W) < len(NAMES): return out, it.functions, time.time()-t0
    V, SV, AD, TY, RE = (W[k] for k in NAMES[:5])
    SV = [[int(v) for v in r] for r in SV]; AD = [[int(v) for v in r] for r in AD]; TY = [[int(v) for v in r] for r in TY]; RE = [[int(v) for v in r] for r in RE]
    # --- vertices and cells
    ins = lambda x: all(v >= 0 for v in x) and (sum(x) <= 1 if t in SX else max(x) <= 1)
    on = lambda fa, x: dot(N[fa], sub(x, VE[t][FA[t][fa][0]])) == 0
    N = normals(t)
    h('cells', len({tuple(x) for x in V}) == nsv and all(map(ins, V)), 'vertices', f'{g}the vertices of the sub-cells are not distinct points of the element')
    C = []
    for c in range(nsc):
        ok = all(0 <= v < nsv for v in SV[c]) and len(set(SV[c])) == nve
        m = cell(t, [V[v] for v in SV[c]], n) if ok else None
        if not h('cells', m and m[1]*nsc == 1, f'cell {c}', f'{g}sub-cell {c} with vertices {SV[c]} has {"volume %s of the element" % m[1] if m else "no volume"}, not 1/{nsc}'): return out, it.functions, time.time()-t0
        C.append(m[0])
    cen = [mean([V[v] for v in SV[c]]) for c in range(nsc)]
    # --- adjacency: every face is shared by two cells on different sides or lies on a face of the element, once
    ok = True; bnd = {}; AV = {}
    for r in range(nr):
        if not all(-1 <= x < nr for x in AD[r]): h('adjacency', False, f'cell {r}', f'{g}row {r} of the adjacency {AD[r]} has ids out of range'); ok = False
    if ok:
        for c in range(nsc):
            seen = set()
            for f in range(nf):
                o = AD[c][f]; key = f'cell {c}, face {f}'
                fv = frozenset(SV[c]) & frozenset(SV[o]) if o >= 0 and o != c else frozenset()
                if not h('adjacency', len(fv) == nfv and -1 not in fv and fv not in seen, key, f'{g}sub-cell {c} {SV[c]} and its neighbour {o} {SV[o] if o >= 0 else ""} at face {f} do not share a face of their own'): continue
                seen.add(fv); pts = [V[v] for v in sorted(fv)]; AV[c, f] = av = avec(t, pts, cen[c])
                if not h('adjacency', av is not None, key + ': face', f'{g}the vertices {sorted(fv)} sub-cells {c} and {o} share are no face'): continue
                if o < nsc:
                    h('adjacency', AD[o].count(c) == 1, key + ': mutual', f'{g}sub-cell {c} has the neighbour {o}, whose neighbours are {AD[o]}')
                    h('adjacency', dot(av, sub(cen[o], pts[0])) > 0, key + ': sides', f'{g}sub-cells {c} and {o} are on the same side of their face')
                else:
                    fa = (o-nsc)//nsf
                    h('adjacency', all(on(fa, x) for x in pts) and o not in bnd, key + ': element', f'{g}the face {sorted(fv)} of sub-cell {c} is not on face {fa} of the element, or two sub-cells have it'); bnd[o] = c
        for r in range(nsc, nr):
            fa, sf = divmod(r-nsc, nsf)
            h('adjacency', AD[r] == [bnd.get(r, -2)] + [-1]*(nf-1), f'face {fa}, sub-face {sf}', f'{g}sub-face {sf} of face {fa} has the neighbours {AD[r]}, sub-cell {bnd.get(r)} is adjacent to it')
            fv = [v for v in SV[r] if v != -1]
            h('adjacency', len(set(fv)) == len(fv) == nfv and all(0 <= v < nsv for v in fv) and all(on(fa, V[v]) for v in fv) and set(fv) <= set(SV[bnd.get(r, 0)]), f'face {fa}, sub-face {sf}: vertices', f'{g}sub-face {sf} of face {fa} has the vertices {SV[r]}')
    ok = ok and all(x[1] for x in out if x[0] == 'adjacency')
    if not ok: return out, it.functions, time.time()-t0
    # --- types
    nt = len(N)
    for c in range(nsc):
        for f in range(nf):
            y = TY[c][f]; o = AD[c][f]; key = f'cell {c}, face {f}'; s = [x*nsf for x in AV[c, f]]
            if o >= nsc: h('types', y == (o-nsc)//nsf and s == N[y], key, f'{g}face {f} of sub-cell {c}, on face {(o-nsc)//nsf} of the element, has type {y}')
            else:
                k = y-2*nf; v = N[k % nt] if 0 <= k < 2*nt else None
                h('types', v and s == (v if k < nt else [-x for x in v]), key, f'{g}face {f} of sub-cell {c} has type {y}, its outward area {[str(x) for x in AV[c, f]]} times {nsf} is not that of the solver')
    # --- averages
    avg = [[D.integral(t, q)/D.integral(t, D.P1) for q in (D.comp(b, X) for X in C)] for b in ref]
    S = W['scatter']
    for m in range(nm):
        for c in range(nsc):
            if S[m][c] != avg[m][c]: h('scatter', False, f'function {m}', f'{p}scatter: function {m}, sub-cell {c}: {S[m][c]} is not the average {avg[m][c]}'); break
        else: h('scatter', True, f'function {m}', '')
    # --- gather: least squares solution
    G = W['gather']; GT = [list(x) for x in zip(*G)]; SST = D.mul(avg, [list(x) for x in zip(*avg)]); lhs = D.mul(SST, GT)
    for m in range(nm): h('gather', lhs[m] == avg[m], f'function {m}', f'{p}gather: the degrees of freedom are not the least squares fit of the sub-cells\' averages (equation {m})')
    I = D.mul(avg, G)
    h('gather', I == [[F(i == j) for j in range(nm)] for i in range(nm)], 'inverse', f'{p}gather does not undo scatter')
    mass = [D.integral(t, D.pm(b, b)) for b in ref]; vol = D.integral(t, D.P1)
    tot = [D.integral(t, b) for b in ref]
    h('gather', all(dot(G[c], tot) == vol/nsc for c in range(nsc)), 'conservation', f'{p}gather changes the integral over the element')
    # --- surface
    send = [[AD[nsc+fa*nsf+sf][0] for sf in range(nsf)] for fa in range(nf)]; SS = W['scattersurf']
    cm = lambda A, cols, key, tx: h('surface', all(A[m][s] == avg[m][c] for m in range(nm) for s, c in enumerate(cols)), key, f'{w}scattersurf: {tx}: not the averages over the sub-cells {cols}')
    for fa in range(nf): cm(SS[fa], send[fa], f'face {fa}', f'face {fa}')
    for o in range(no):
        row = RE[o] if o < len(RE) else []
        if not h('reorder', sorted(row) == list(range(nsf)), f'orientation {o}: permutation', f'{g}the order {row} of the adjacent sub-faces is no permutation'): continue
        for fa in range(nf): cm(SS[nf+o*nf+fa], [send[fa][k] for k in row], f'face {fa}, orientation {o}', f'face {fa} of the adjacent element, vertex {o}')
    SV = SV[:nsc] + [[v for v in r if v != -1] for r in SV[nsc:]]
    # --- positions of the sub-faces in the coordinates of the faces
    def chi(fa, sf):
        """centroid of a sub-face in the coordinates of its face"""
        q = mean([V[v] for v in SV[nsc+fa*nsf+sf]]); f = [VE[t][k] for k in FA[t][fa]]
        es = [sub(f[1], f[0])] + ([sub(f[-1], f[0])] if nd == 3 else []); b = sub(q, f[0])
        # coordinates along the edges: solve the (square) normal equations
        if len(es) == 1: return (F(dot(b, es[0]), dot(es[0], es[0])),)
        a11, a12, a22 = dot(es[0], es[0]), dot(es[0], es[1]), dot(es[1], es[1]); b1, b2 = dot(b, es[0]), dot(b, es[1]); dt = F(a11*a22-a12*a12)
        return ((b1*a22-b2*a12)/dt, (b2*a11-b1*a12)/dt)
    if nd > 1:
        X = [[chi(fa, sf) for sf in range(nsf)] for fa in range(nf)]
        def seen(x, o):
            """a point of a face in the coordinates of the adjacent face: vertex i meets vertex (o-i) of it"""
            if nd == 2: return (1-x[0],)
            if t == 'tet4':
                l = [1-x[0]-x[1], x[0], x[1]]; m = [0, 0, 0]
                for i in range(3): m[(o-i) % 3] = l[i]
                return (m[1], m[2])
            v = [(0, 0), (1, 0), (1, 1), (0, 1)]; q = [v[(o-i) % 4] for i in range(4)]
            return tuple(q[0][k] + x[0]*(q[1][k]-q[0][k]) + x[1]*(q[3][k]-q[0][k]) for k in range(2))
        for fa in range(nf): h('reorder', X[fa] == X[0] and len(set(X[fa])) == nsf, f'face {fa}: order', f'{g}the sub-faces of face {fa} have another order than those of face 0, which differs from what the adjacent element assumes')
        for o in range(no):
            h('reorder', len(RE) > o and all(0 <= RE[o][s] < nsf and X[0][RE[o][s]] == seen(X[0][s], o) for s in range(nsf)), f'orientation {o}', f'{g}scDgAd: adjacent sub-faces {RE[o] if len(RE) > o else None} of vertex {o} do not meet the sub-faces')
    # --- integrals over the sub-faces
    av = {fa: [D.comp(b, D.facept(t, fa)) for b in ref] for fa in range(nf)}; tf = TF[t]; SI = W['sfint']
    for fa in range(nf):
        for sf in range(nsf):
            pt = [V[v] for v in SV[nsc+fa*nsf+sf]]
            if nd == 1: e = [sum(v*pt[0][0]**k[0] for k, v in b.items()) for b in ref]
            else:
                if t == 'hex8r':
                    q = next((q for q in itertools.permutations(pt[1:]) if sub(q[1], q[0]) == sub(q[2], pt[0])), None)
                    pt = [pt[0], q[0], q[1], q[2]] if q else pt
                Y = D.aff(pt, D.CHI); e = [D.integral(tf, D.comp(b, Y))/nsf for b in ref]
            e = [x/m for x, m in zip(e, mass)]
            h('sub-face', SI[fa][sf] == e, f'face {fa}, sub-face {sf}', f'{w}sfint: face {fa}, sub-face {sf}: {[str(x) for x in SI[fa][sf]][:4]} are not the integrals {[str(x) for x in e][:4]} over the sub-face')
    return out, it.functions, time.time()-t0
def jobs(full):
    j = [('tet4', 2), ('hex8r', 1), ('tet4', 1), ('tria3', 3), ('tria3', 2), ('quad4r', 3), ('quad4r', 2)] + [('line', d) for d in range(5)] + [(t, 0) for t in ('tet4', 'hex8r')] + [(t, d) for t in ('tria3', 'quad4r') for d in (0, 1)]
    return ([('hex8r', 2), ('tet4', 3), ('quad4r', 4), ('tria3', 4)] if full else []) + j
def body(c):
    full = c.tier == 'thorough'
    c.rule('files', 'for every type and degree all files of the sub-cells are written, in full and in the shape the solver reads'); c.rule('cells', 'the sub-cells have the same volume and lie in the element')
    c.rule('adjacency', 'two sub-cells are adjacent in exactly their common face, on different sides of it, mutually; the faces of the element have all their sub-faces once'); c.rule('types', 'the type of a face selects the solver with the outward normal and area of the face; faces of the element have the type of their face')
    c.rule('scatter', 'averages of the functions over the sub-cells'); c.rule('gather', 'the least squares fit, which undoes scatter and keeps the integral'); c.rule('surface', 'averages over the sub-cells at a face, in the order of the face or as seen from the adjacent element')
    c.rule('reorder', 'the order of the adjacent sub-faces is that of the sub-faces they meet, for every orientation'); c.rule('sub-face', 'integrals of the functions over every sub-face, times the inverse mass matrix')
    with multiprocessing.Pool(6) as p: res = p.map(job, jobs(full), chunksize=1)
    for (out, fn, s), j in zip(res, jobs(full)):
        if os.environ.get('TIMES'): print(j, round(s, 1), len(out))
        c.functions |= fn
        for o in out: c.holds(*o)
    c.units += ['tools/edge_pre/edge_pre.py', 'tools/edge_pre/edge_pre']
    return c.finish('the driver of EDGEpre is walked over its syntax tree with exact rational functions; the written grids and operators are judged by their geometry, not by their numbering', ['sympy and scipy do what their documentation says (stand-ins over rational functions)', 'plots have no influence', 'numbers are exact until they are printed'], 300)
if __name__ == '__main__': H.main('C29', body)
