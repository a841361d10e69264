import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import permutations
from engine import harness as H, build as B, algebra as A, absint as I
import random
V = A.var; K = A.const; F = A.Fraction
TXT = r'''
#include <new>
#include <algorithm>
#include <limits>
#include "geom/Generic.cpp"
#include "geom/Line.cpp"
#include "geom/Tria3.cpp"
#include "geom/Quad4r.cpp"
#include "geom/Hex8r.cpp"
#include "geom/Tet4.cpp"
#include "geom/Geom.cpp"
using namespace edge_v; typedef geom::Geom G; typedef double const (*X)[3];
extern "C" {
  double vol( int t, X v ) { return G::volume( (t_entityType) t, v ); }
  double dia( int t, X v ) { return G::inDiameter( (t_entityType) t, v ); }
  void cen( int t, X v, double *o ) { G::centroid( (t_entityType) t, v, o ); }
  void nor( int t, X v, double const *p, double *o ) { G::normal( (t_entityType) t, v, p, o ); }
  void tgs( int t, X v, double const *p, double (*o)[3] ) { G::tangents( (t_entityType) t, v, p, o ); }
  void nvf( int t, X v, t_idx *ve, t_idx *fa, t_idx *fe ) { G::normVesFas( (t_entityType) t, v, ve, fa, fe ); }
  void fad( int t, t_idx n, t_idx off, t_idx const *el, unsigned short const *fa, t_idx const *fe, unsigned short *o ) { G::getFaIdsAd( (t_entityType) t, n, off, el, fa, fe, o ); }
  void vad( int t, t_idx n, t_idx off, t_idx const *el, unsigned short const *fa, t_idx const *ev, t_idx const *fe, X v, unsigned short *o ) { G::getVeIdsAd( (t_entityType) t, n, off, el, fa, ev, fe, v, o ); }
  void vadn( int t, t_idx n, t_idx off, t_idx const *el, unsigned short const *fa, t_idx const *ev, t_idx const *fe, unsigned short *o ) { G::getVeIdsAd( (t_entityType) t, n, off, el, fa, ev, fe, nullptr, o ); }
}
'''
W = 'tools/edge_v/src/geom: '
TY = {'LINE': 1, 'QUAD4R': 2, 'TRIA3': 3, 'HEX8R': 4, 'TET4': 5}
NV = {'LINE': 2, 'QUAD4R': 4, 'TRIA3': 3, 'HEX8R': 8, 'TET4': 4}
FA = {'QUAD4R': [(0, 1), (1, 2), (2, 3), (3, 0)], 'TRIA3': [(0, 1), (1, 2), (2, 0)],
      'HEX8R': [(0, 3, 2, 1), (0, 1, 5, 4), (1, 2, 6, 5), (3, 7, 6, 2), (0, 4, 7, 3), (4, 5, 6, 7)],
      'TET4': [(0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)]}
REF = {'QUAD4R': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)], 'HEX8R': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}
def sub(a, b): return [x-y for x, y in zip(a, b)]
def dot(a, b): return sum((x*y for x, y in zip(a, b)), a[0]*0)
def cr(a, b): return [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]]
def norm(a): return A.sqrt(dot(a, a))
def absv(x): return A.ite(A.lt(x, A.ZERO), A.neg(x), x)
def mn(a, b): return A.ite(A.lt(a, b), a, b)
def lc(o, *vs): return [sum((s*A.lift(K(v[k])) for s, v in vs), A.lift(o[k])) for k in range(3)]
FRAMES = [[[F(1), F(0), F(0)], [F(0), F(1), F(0)]], [[F(0), F(0), F(1)], [F(0), F(1), F(0)]], [[F(0), F(-1), F(0)], [F(0), F(0), F(1)]],
          [[F(2, 7), F(3, 7), F(6, 7)], [F(3, 7), F(-6, 7), F(2, 7)]], [[F(2, 3), F(-1, 3), F(2, 3)], [F(2, 3), F(2, 3), F(-1, 3)]], [[F(-4, 9), F(4, 9), F(7, 9)], [F(8, 9), F(1, 9), F(4, 9)]]]
def crd(s, vs, nm='v'):
    for i, v in enumerate(vs):
        for k in range(3): s.put(nm, 24*i+8*k, v[k] if not isinstance(v[k], (int, float, F)) else K(v[k]), 8, 'f')
def val(c, m, rule, key, fn, t, vs, want, pos=(), prune=None):
    s = c.session([m], pos=pos); crd(s, vs)
    if c.holds(rule, s.call(fn, TY[t], 'v'), f'{key}: end', f'{W}{t}: {getattr(s, "why", "")}'): c.same(rule, key, s.ret, want, W+t, pos=pos, prune=prune)
def rej(c, m, key, fn, t, *args, **kw):
    s = c.session([m])
    for nm, vs in kw.items(): crd(s, vs, nm)
    c.holds('reject', not s.call(fn, t, *args), key, f'{W}accepted: {key}')
def nz(e): return any(k[0] == 'sgn' and v == 0 for k, v in e.items())      # not degenerate
def measures(c, m):
    vt = lambda n, z=True: [[V(f'v[{3*i+k}]') if z or k < 2 else A.ZERO for k in range(3)] for i in range(n)]
    v = vt(2); val(c, m, 'volume', 'line', 'vol', 'LINE', v, norm(sub(v[1], v[0])))
    v = vt(3); val(c, m, 'volume', 'triangle', 'vol', 'TRIA3', v, norm(cr(sub(v[1], v[0]), sub(v[2], v[0])))*K(F(1, 2)))
    v4 = vt(4); det = dot(sub(v4[1], v4[0]), cr(sub(v4[2], v4[0]), sub(v4[3], v4[0]))); val(c, m, 'volume', 'tetrahedron', 'vol', 'TET4', v4, absv(det)/K(6), prune=nz)
    o, a, b = ([V(f'{n}{k}') for k in range(3)] for n in 'oab')
    par = [o, [x+y for x, y in zip(o, a)], [x+y+z for x, y, z in zip(o, a, b)], [x+z for x, z in zip(o, b)]]
    for p in permutations(range(4)): val(c, m, 'volume', f'rectangle {p}', 'vol', 'QUAD4R', [par[i] for i in p], norm(cr(a, b)))
    P = {'h0', 'h1', 'h2'}; h = [V('h0'), V('h1'), V('h2')]; rnd = random.Random(3)
    for q in range(4 if c.tier == 'quick' else 12):
        p = list(range(8)); rnd.shuffle(p) if q else None
        hx = [[V(f'o{k}') + K(REF['HEX8R'][i][k])*h[k] for k in range(3)] for i in p]
        val(c, m, 'volume', f'hexahedron {p}', 'vol', 'HEX8R', hx, h[0]*h[1]*h[2], P); 
    a_, b_, c_ = V('qa'), V('qb'), V('qc'); Q = {'qa', 'qb', 'qc'}
    for q, hh in enumerate(list(permutations((a_, a_+b_, a_+b_+c_))) + [(a_, a_, a_), (a_, a_, a_+b_), (a_+b_, a_, a_), (a_, a_+b_, a_), (a_, a_+b_, a_+b_), (a_+b_, a_+b_, a_)]):
        val(c, m, 'inscribed', f'hexahedron {q}', 'dia', 'HEX8R', [[V(f'o{k}') + K(r[k])*hh[k] for k in range(3)] for r in REF['HEX8R']], a_, Q)
    for p in permutations(range(4)):
        val(c, m, 'inscribed', f'rectangle {p}', 'dia', 'QUAD4R', [[V(f'o{k}') + K(REF['QUAD4R'][i][k])*h[k] if k < 2 else A.ZERO for k in range(3)] for i in p], mn(h[0], h[1]), P)
    v = vt(3, False); e = [sub(v[(i+1) % 3], v[i]) for i in range(3)]
    val(c, m, 'inscribed', 'triangle', 'dia', 'TRIA3', v, norm(cr(e[0], e[1]))*K(2)/(norm(e[0])+norm(e[1])+norm(e[2])))
    S = sum((norm(cr(sub(v4[j], v4[i]), sub(v4[k], v4[i]))) for i, j, k in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3))), A.ZERO)
    val(c, m, 'inscribed', 'tetrahedron', 'dia', 'TET4', v4, absv(det)*K(2)/S, prune=nz)
    for t, n in NV.items():
        s = c.session([m])
        if c.holds('centroid', s.call('cen', TY[t], 'v', 'o'), f'{t}: end', f'{W}{t}: {getattr(s, "why", "")}'):
            for k in range(3): c.same('centroid', f'{t} {k}', s.get('o', k), sum((V(f'v[{3*i+k}]') for i in range(n)), A.ZERO)/K(n), W+f'centroid of {t}')
def frames(c, m):
    o = [V(f'o{k}') for k in range(3)]; L, al, be, x, y, z = (V(n) for n in ('L', 'al', 'be', 'x', 'y', 'z')); P = {'L', 'be'}
    def frame(key, t, vs, p, n3):
        out = {}
        for fn in ('nor', 'tgs'):
            s = c.session([m], pos=P); crd(s, vs); crd(s, [p], 'p')
            if not c.holds('normal', s.call(fn, TY[t], 'v', 'p', 'o'), f'{key}: {fn}', f'{W}{t}: {getattr(s, "why", "")}'): return
            out[fn] = [s.get('o', k) for k in range(3 if fn == 'nor' else 6)]
        n, t0, t1 = out['nor'], out['tgs'][:3], out['tgs'][3:]
        pr = lambda e: any(k[0] == 'sgn' and v == 0 for k, v in e.items())      # the point is not in the plane of the face
        for k in range(3): c.same('normal', f'{key} {k}', n[k], A.ite(A.gt(z, A.ZERO), A.neg(A.lift(K(n3[k]))), A.lift(K(n3[k]))), W+f'normal of {t}', pos=P, prune=pr)
        c.same('tangents', f'{key}: length 0', dot(t0, t0), A.ONE, W+f'tangents of {t}', pos=P, prune=pr)
        if t == 'LINE':
            for k in range(3): c.same('tangents', f'{key}: tangent {k}', t0[k], [A.neg(n[1]), n[0], A.ZERO][k], W+f'tangents of {t}', pos=P, prune=pr); c.same('tangents', f'{key}: unused {k}', t1[k], A.ZERO, W+f'tangents of {t}')
            return
        c.same('tangents', f'{key}: length 1', dot(t1, t1), A.ONE, W+f'tangents of {t}', pos=P, prune=pr); c.same('tangents', f'{key}: orthogonal', dot(t0, t1), A.ZERO, W+f'tangents of {t}', pos=P, prune=pr)
        cx = cr(t0, t1)
        for k in range(3): c.same('tangents', f'{key}: right-handed {k}', cx[k], n[k], W+f'tangents of {t}', pos=P, prune=pr)
    for i, (u, w) in enumerate(FRAMES):
        n3 = cr(u, w)
        frame(f'triangle {i}', 'TRIA3', [o, lc(o, (L, u)), lc(o, (al, u), (be, w))], lc(o, (x, u), (y, w), (z, n3)), n3)
        for sg in (1, -1):
            a2 = be*K(F(3*sg, 4)); frame(f'triangle {i} rotated {sg}', 'TRIA3', [lc(o, (a2, u), (be, w)), o, lc(o, (L, u))], lc(o, (x, u), (y, w), (z, n3)), n3)
            frame(f'triangle {i} clockwise {sg}', 'TRIA3', [o, lc(o, (a2, u), (be, w)), lc(o, (L, u))], lc(o, (x, u), (y, w), (z, n3)), n3)
        q = [o, lc(o, (L, u)), lc(o, (L, u), (be, w)), lc(o, (be, w))]
        for p in ((0, 1, 2, 3), (0, 1, 3, 2), (2, 1, 0, 3)): frame(f'rectangle {i} {p}', 'QUAD4R', [q[j] for j in p], lc(o, (x, u), (y, w), (z, n3)), n3)
    oo = [o[0], o[1], A.ZERO]
    for i, (a, b) in enumerate(((1, 0), (0, 1), (-1, 0), (0, -1), (F(3, 5), F(4, 5)), (F(-5, 13), F(12, 13)), (F(8, 17), F(-15, 17)))):
        u, n3 = [F(a), F(b), F(0)], [F(-b), F(a), F(0)]
        frame(f'line {i}', 'LINE', [oo, lc(oo, (L, u))], lc(oo, (x, u), (z, n3)), n3)
def normal(c, m, key, t, vs, det=None):
    """vs: coordinates of the vertices in ascending order of their ids"""
    n = len(vs); ids = [7+3*i+(i % 3 == 2) for i in range(n)]
    faces = sorted(tuple(sorted(f)) for f in ([FA[t]] if t in ('TRIA3', 'TET4') else [[tuple(byref(t, vs)[r] for r in f) for f in FA[t]]])[0])
    s = c.session([m]); crd(s, vs); nf = len(faces)
    for i in range(n): s.put('e', 8*i, ids[i], 8, 'i')
    fi, fe = [50+7*((3*i+1) % nf) for i in range(nf)], [90+((5*i+2) % 7)*nf+i for i in range(nf)]; fe[1] = -1
    for i in range(nf): s.put('f', 8*i, fi[i], 8, 'i'); s.put('g', 8*i, fe[i], 8, 'i')
    if not c.holds('vertices', s.call('nvf', TY[t], 'v', 'e', 'f', 'g'), f'{key}: end', f'{W}normVesFas of {t}: {getattr(s, "why", "")}'): return
    e, f, g = ([s.int(x, i) for i in range(k)] for x, k in (('e', n), ('f', nf), ('g', nf)))
    if not c.holds('vertices', sorted(map(str, e)) == sorted(map(str, ids)), f'{key}: same vertices', f'{W}normVesFas of {t}: vertices {e}'): return
    p = [ids.index(x) for x in e]
    if t in ('TRIA3', 'TET4'):
        d = [sub(vs[q], vs[p[0]]) for q in p[1:]]; dt = d[0][0]*d[1][1]-d[0][1]*d[1][0] if t == 'TRIA3' else dot(d[0], cr(d[1], d[2]))
        k = 1 if t == 'TRIA3' else 2
        c.holds('vertices', dt > 0 and p[:k] == list(range(k)), f'{key}: order', f'{W}normVesFas of {t}: vertices {vs} are ordered {p}')
    else: c.holds('vertices', p == byref(t, vs), f'{key}: order', f'{W}normVesFas of {t}: vertices {vs} are ordered {p} instead of {byref(t, vs)}')
    for q in range(nf):
        w = faces.index(tuple(sorted(p[i] for i in FA[t][q]))) if tuple(sorted(p[i] for i in FA[t][q])) in faces else None
        c.holds('faces', w is not None and f[q] == fi[w] and g[q] == fe[w], f'{key}: face {q}', f'{W}normVesFas of {t}: face {q} of {vs} is {f[q]} next to {g[q]} instead of {fi[w] if w is not None else None} next to {fe[w] if w is not None else None}')
def byref(t, vs):
    lo = [min(v[k] for v in vs) for k in range(3)]; return [next(i for i, v in enumerate(vs) if [int(v[k] > lo[k]) for k in range(3)] == list(r)) for r in REF[t]]
def adjacent(c, m):
    rnd = random.Random(11)
    for t, nf in (('QUAD4R', 4), ('TRIA3', 3), ('HEX8R', 6), ('TET4', 4)):
        for q in range(2 if c.tier == 'quick' else 6):
            n = 9; ad = [[None]*nf for _ in range(n)]
            for _ in range(60):
                x, y = rnd.randrange(n), rnd.randrange(n); fx = [f for f in range(nf) if ad[x][f] is None]; fy = [f for f in range(nf) if ad[y][f] is None]
                if x != y and fx and fy and y not in ad[x]: ad[x][rnd.choice(fx)] = y; ad[y][rnd.choice(fy)] = x
            off = q % 3; pr = [(e, f) for e in range(off, n) for f in range(nf) if ad[e][f] is not None]; rnd.shuffle(pr)
            s = c.session([m])
            for e in range(n):
                for f in range(nf): s.put('g', 8*(e*nf+f), -1 if ad[e][f] is None else ad[e][f], 8, 'i')
            for i, (e, f) in enumerate(pr): s.put('e', 8*i, e-off, 8, 'i'); s.put('f', 2*i, f, 2, 'i')
            if c.holds('adjacent face', s.call('fad', TY[t], len(pr), off, 'e', ('f', 2), 'g', ('o', 2)), f'{t} {q}: end', f'{W}getFaIdsAd of {t}: {getattr(s, "why", "")}'):
                got = [s.int('o', i, 16) for i in range(len(pr))]; want = [ad[ad[e][f]].index(e) for e, f in pr]
                c.holds('adjacent face', got == want, f'{t} {q}', f'{W}getFaIdsAd of {t}: {got} instead of {want} for {pr} in {ad}')
            if t != 'TET4':
                if c.holds('orientation', s.call('vadn', TY[t], len(pr), off, 'e', ('f', 2), 'w', 'g', ('z', 2)), f'{t} {q}: end', f'{W}getVeIdsAd of {t}: {getattr(s, "why", "")}'):
                    c.holds('orientation', [s.int('z', i, 16) for i in range(len(pr))] == [0]*len(pr), f'{t} {q}', f'{W}getVeIdsAd of {t}: not zero')
            b = [(e, f) for e in range(n) for f in range(nf) if ad[e][f] is None]
            if b:
                s.put('e', 0, b[0][0], 8, 'i'); s.put('f', 0, b[0][1], 2, 'i'); c.holds('reject', not s.call('fad', TY[t], 1, 0, 'e', ('f', 2), 'g', ('o', 2)), f'{t} {q}: boundary', f'{W}getFaIdsAd of {t}: accepts the boundary face {b[0]}')
def kuhn(ax, nc, rnd, periodic):
    """tetrahedra of a box of nc cubes along axis ax, vertex numbers shuffled; (vertices per element, neighbours, coordinates)"""
    dim = [1, 1, 1]; dim[ax] = nc
    pts = [(x, y, z) for x in range(dim[0]+1) for y in range(dim[1]+1) for z in range(dim[2]+1)]; rnd.shuffle(pts); vid = {p: i for i, p in enumerate(pts)}
    els = []
    for cx in range(dim[0]):
        for cy in range(dim[1]):
            for cz in range(dim[2]):
                for pm in permutations(range(3)):
                    p = [cx, cy, cz]; t = [tuple(p)]
                    for k in pm: p[k] += 1; t.append(tuple(p))
                    t = sorted(t, key=lambda q: vid[q]); d = [sub(q, t[0]) for q in t[1:]]
                    if dot(d[0], cr(d[1], d[2])) < 0: t[2], t[3] = t[3], t[2]
                    els.append(t)
    rnd.shuffle(els); own = {}
    for e, t in enumerate(els):
        for f, fv in enumerate(FA['TET4']): own.setdefault(frozenset(t[i] for i in fv), []).append((e, f))
    ad = [[None]*4 for _ in els]; per = {}
    for k, o in own.items():
        if len(o) == 2: ad[o[0][0]][o[0][1]] = o[1]; ad[o[1][0]][o[1][1]] = o[0]
        elif periodic and all(q[ax] == nc for q in k):
            j = own[frozenset(tuple(0 if a == ax else q[a] for a in range(3)) for q in k)][0]; ad[o[0][0]][o[0][1]] = j; ad[j[0]][j[1]] = o[0]; per[o[0]] = per[j] = 1
    return els, ad, vid, pts
def orient(c, m):
    rnd = random.Random(c.seed)
    for q in range(4 if c.tier == 'quick' else 12):
        ax = q % 3; periodic = q > 0; els, ad, vid, pts = kuhn(ax, 2+(q > 3), rnd, periodic); sc = (0.5, 0.75, 1.25); off = 0
        s = c.session([m]); crd(s, [[x*sc[k]-0.25 for k, x in enumerate(p)] for p in pts])
        for e, t in enumerate(els):
            for i in range(4): s.put('w', 8*(4*e+i), vid[t[i]], 8, 'i'); s.put('g', 8*(4*e+i), -1 if ad[e][i] is None else ad[e][i][0], 8, 'i')
        pr = [(e, f) for e in range(off, len(els)) for f in range(4) if ad[e][f] is not None]
        for i, (e, f) in enumerate(pr): s.put('e', 8*i, e-off, 8, 'i'); s.put('f', 2*i, f, 2, 'i')
        ok = s.call('vad', TY['TET4'], len(pr), off, 'e', ('f', 2), 'w', 'g', 'v', ('o', 2)) if periodic else s.call('vadn', TY['TET4'], len(pr), off, 'e', ('f', 2), 'w', 'g', ('o', 2))
        if not c.holds('orientation', ok, f'TET4 {q}: end', f'{W}getVeIdsAd of TET4: {getattr(s, "why", "")}'): continue
        bad = []
        for i, (e, f) in enumerate(pr):
            ea, fa = ad[e][f]; first = els[e][FA['TET4'][f][0]]; nb = [els[ea][j] for j in FA['TET4'][fa]]
            if first in nb: w = nb.index(first)
            else: w = next(j for j, p in enumerate(nb) if all(p[a] == first[a] for a in range(3) if a != ax))
            if s.int('o', i, 16) != w: bad.append(f'element {e} face {f}: {s.int("o", i, 16)} instead of {w} ({first} in {nb})')
        c.holds('orientation', not bad, f'TET4 {q}', f'{W}getVeIdsAd of TET4: {bad[:3]}')
def body(c):
    c.prefetch([(None, B.v_flags(), TXT)]); m = c.driver(TXT, B.v_flags(), 'tools/edge_v/src/geom/*.cpp')
    c.rule('volume', 'length, area and volume of the entity, in whatever order its vertices are given')
    c.rule('inscribed', 'the in-diameter is four areas per perimeter, six volumes per surface, or the shortest edge of a rectangle')
    c.rule('centroid', 'the centroid is the mean of the vertices, whatever the output held before')
    c.rule('normal', 'the normal has unit length, is orthogonal to the entity and points away from the given point')
    c.rule('tangents', 'unit tangents, orthogonal to each other, whose cross product is the normal (a single one for lines, rotated from the normal)')
    c.rule('vertices', 'the normalised vertices are those of the element, ordered counter-clockwise (simplices: smallest ids first) or by position (rectangles)')
    c.rule('faces', 'after the normalisation the faces and face-neighbours are those of the faces of the reference element')
    c.rule('adjacent face', 'the local face of the neighbour is the one behind which the element is')
    c.rule('orientation', 'the vertex id is the position of the first vertex of the face in the face of the neighbour, across periodic boundaries too')
    c.rule('reject', 'degenerate elements, boundary faces and unsupported types are errors')
    s = c.session([m])
    for i, a in enumerate((-1, 1, -1, -1, -1, 2, -1, -1, 0)): s.put('g', 8*i, a, 8, 'i')
    s.put('e', 0, 0, 8, 'i'); s.put('f', 0, 1, 2, 'i'); c.holds('reject', not s.call('fad', 3, 1, 0, 'e', ('f', 2), 'g', ('o', 2)), 'one-sided neighbour', f'{W}getFaIdsAd accepts a neighbour which does not know the element')
    measures(c, m); frames(c, m); rnd = random.Random(5)
    for t in (1, 0, 6, 77): rej(c, m, f'in-diameter of type {t}', 'dia', t, 'v')
    for t in (0, 6, 77): rej(c, m, f'volume of type {t}', 'vol', t, 'v'); rej(c, m, f'centroid of type {t}', 'cen', t, 'v', 'o')
    for t in (0, 4, 5, 6): rej(c, m, f'normal of type {t}', 'nor', t, 'v', 'p', 'o'); rej(c, m, f'tangents of type {t}', 'tgs', t, 'v', 'p', 'o')
    for t in (0, 1, 6): rej(c, m, f'normalisation of type {t}', 'nvf', t, 'v', 'e', 'f', 'g')
    rej(c, m, 'triangle out of plane', 'dia', 3, 'v', v=[(0, 0, 0), (1, 0, 0), (0, 1, F(1, 4))]); rej(c, m, 'triangle above plane', 'dia', 3, 'v', v=[(0, 0, F(1, 2)), (1, 0, F(1, 2)), (0, 1, F(1, 2))])
    for k in range(2): rej(c, m, f'flat rectangle {k}', 'dia', 2, 'v', v=[[0 if a == k else r[a] for a in range(3)] for r in REF['QUAD4R']])
    for k in range(3): rej(c, m, f'flat hexahedron {k}', 'dia', 4, 'v', v=[[0 if a == k else r[a] for a in range(3)] for r in REF['HEX8R']]); rej(c, m, f'volume of flat hexahedron {k}', 'vol', 4, 'v', v=[[0 if a == k else r[a] for a in range(3)] for r in REF['HEX8R']])
    rej(c, m, 'flat tetrahedron', 'nvf', 5, 'v', 'e', 'f', 'g', v=[(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0)])
    R = lambda: round(rnd.uniform(-3, 3)*16)/16
    N = 3 if c.tier == 'quick' else 12
    for t, n in (('TRIA3', 3), ('TET4', 4)):
        for q in range(N):
            while True:
                vs = [[R(), R(), 0 if t == 'TRIA3' else R()] for _ in range(n)]; d = [sub(v, vs[0]) for v in vs[1:]]
                if abs(d[0][0]*d[1][1]-d[0][1]*d[1][0] if n == 3 else dot(d[0], cr(d[1], d[2]))) > 0.1: break
            for p in permutations(range(n)): normal(c, m, f'{t} {q} {p}', t, [vs[i] for i in p])
    for q in range(1 if c.tier == 'quick' else 4):
        lo, h = [R() for _ in range(3)], [abs(R())+0.5 for _ in range(3)]
        for p in permutations(range(4)): normal(c, m, f'QUAD4R {q} {p}', 'QUAD4R', [[lo[k]+REF['QUAD4R'][i][k]*h[k] if k < 2 else 0 for k in range(3)] for i in p])
    for q in range(40 if c.tier == 'quick' else 400):
        lo, h = [R() for _ in range(3)], [abs(R())+0.5 for _ in range(3)]; p = list(range(8)); rnd.shuffle(p) if q else None
        normal(c, m, f'HEX8R {q}', 'HEX8R', [[lo[k]+REF['HEX8R'][i][k]*h[k] for k in range(3)] for i in p])
    adjacent(c, m); orient(c, m)
    return c.finish('EDGE-V geometry of lines, triangles, rectangles, hexahedra and tetrahedra', ['the elements are the ones EDGE supports: straight-edged simplices and axis-aligned rectangles', 'real arithmetic'], 800)
if __name__ == '__main__': H.main('C20', body)
