import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import permutations
from engine import harness as H, build as B, algebra as A, absint as I
V = A.var; K = A.const; F = A.Fraction
CPP = r'''
#include <limits>
#include <cmath>
#include <functional>
#include "constants.hpp"
#include "linalg/Matrix.h"
#include "linalg/Mappings.hpp"
#include "linalg/Geom.hpp"
#include "linalg/HalfSpace.hpp"
#include "linalg/Domain.hpp"
using M = edge::linalg::Mappings; using G = edge::linalg::Geom; using G3 = edge::linalg::GeomTs<3>;
typedef edge::linalg::HalfSpace<double,2> HS2; typedef edge::linalg::HalfSpace<double,3> HS3;
#define T(S) \
  void jac_##S(double const *v, double *j) { M::evalJac(S, v, j); } \
  void r2p_##S(double const *v, double const *x, double *o) { M::refToPhy(S, v, x, o); } \
  void f2v_##S(unsigned short f, double const *p, double *o) { M::faToVolRef(f, S, p, o); } \
  void l2n_##S(unsigned short v, real_mesh const *p, real_mesh *o) { M::faLocToFaNei(S, p, o, v); }
#define U(S) void p2r_##S(double const *v, double const *x, double *o) { M::phyToRef(S, v, x, o); }
extern "C" {
  T(LINE) T(QUAD4R) T(TRIA3) T(HEX8R) T(TET4) U(QUAD4R) U(TRIA3) U(HEX8R) U(TET4)
  double vol_LINE2(double const *v) { return G::volume(LINE, v, 2); }
  double vol_TRIA2(double const *v) { return G::volume(TRIA3, v); }
  double vol_TRIA3(double const *v) { return G::volume(TRIA3, v, 3); }
  double vol_TET(double const *v) { return G::volume(TET4, v); }
  double dia_TRIA(double const *v) { return G::inDia(TRIA3, v); }
  double dia_TET(double const *v) { return G::inDia(TET4, v); }
  void tan_TRIA(double const *v, double *a, double *b) { G::computeTangents(TRIA3, v, a, b); }
  void tan_LINE(double const *v, double *a, double *b) { G::computeTangents(LINE, v, a, b); }
  void nrm_LINE(double const *v, double const *p, double *n) { G::computeOutPtNormal(LINE, v, p, n); }
  void nrm_TRIA(double const *v, double const *p, double *n) { G::computeOutPtNormal(TRIA3, v, p, n); }
  void sfadd0(double const *v, double *n, double *s, double *t, double *a) { G::sfAdd(TET4, 0, v, n, s, t, *a); }
  void sfadd1(double const *v, double *n, double *s, double *t, double *a) { G::sfAdd(TET4, 1, v, n, s, t, *a); }
  unsigned long ins_LINE(double const *v, double const *p) { return G::inside(LINE, v, p); }
  unsigned long ins_TRIA3(double const *v, double const *p) { return G::inside(TRIA3, v, p); }
  unsigned long ins_QUAD4R(double const *v, double const *p) { return G::inside(QUAD4R, v, p); }
  unsigned long ins_TET4(double const *v, double const *p) { return G::inside(TET4, v, p); }
  unsigned long ins_HEX8R(double const *v, double const *p) { return G::inside(HEX8R, v, p); }
  void cp_LINE(double const *v, double *p) { G::closestPoint(LINE, v, p); }
  void cp_QUAD4R(double const *v, double *p) { G::closestPoint(QUAD4R, v, p); }
  void cp_HEX8R(double const *v, double *p) { G::closestPoint(HEX8R, v, p); }
  void rot(double const *a, double const *b, double (*o)[3]) { G3::rotMat(a, b, o); }
  void cross(double const *a, double const *b, double *o) { G::cross3(a, b, o); }
  double sp(int d, double const *a, double const *b) { return d == 1 ? G::sprod1(a, b) : d == 2 ? G::sprod2(a, b) : d == 3 ? G::sprod3(a, b) : d == 4 ? edge::linalg::GeomT<3>::sprod(a, b) : edge::linalg::GeomT<2>::sprod(a, b); }
  double nm(int d, double const *a, double const *b) { return d == 2 ? G::norm2(a) : d == 3 ? G::norm3(a) : d == 4 ? edge::linalg::GeomT<3>::normL2(a) : d == 5 ? edge::linalg::GeomT<3>::norm(a, b) : d == 6 ? G3::norm(a, b) : edge::linalg::GeomT<2>::norm(a, b); }
  void nz(int d, double *a) { if(d == 2) G::normalize2(a); else G::normalize3(a); }
  bool hs2(double *o, double *n, double const *p, double t) { HS2 h(o, n); return h.inside(p, t); }
  bool hs3(double *o, double *n, double const *p) { HS3 h(o, n); HS3 k(h); return k.inside(p); }
  bool dom(double *o, double *n, double *q, double *m, double const *p) { HS2 a(o, n), b(q, m); edge::linalg::Domain<double,2,edge::linalg::HalfSpace> d; d.add(a); d.add(b); return d.inside(p); }
  double tol[] = { TOL.LINALG, TOL.MESH };
}
'''
VE = {'LINE': [(0,), (1,)], 'QUAD4R': [(0, 0), (1, 0), (1, 1), (0, 1)], 'TRIA3': [(0, 0), (1, 0), (0, 1)],
      'HEX8R': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)],
      'TET4': [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]}
# vertices of the faces, counter-clockwise seen from outside
FA = {'LINE': [(0,), (1,)], 'QUAD4R': [(0, 1), (1, 2), (2, 3), (3, 0)], 'TRIA3': [(0, 1), (1, 2), (2, 0)],
      'HEX8R': [(0, 3, 2, 1), (0, 1, 5, 4), (1, 2, 6, 5), (3, 7, 6, 2), (0, 4, 7, 3), (4, 5, 6, 7)],
      'TET4': [(0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)]}
def shape(t, x):
    d = len(VE[t][0])
    if t in ('TRIA3', 'TET4'): return [K(1) - sum(x, A.ZERO)] + list(x)
    out = []
    for v in VE[t]:
        p = A.ONE
        for i in range(d): p = p * (x[i] if v[i] else K(1) - x[i])
        out.append(p)
    return out
def cells(**kw):
    def setup(it, st):
        for nm, vals in kw.items():
            if nm not in it.inputs: continue
            for i, v in enumerate(vals): st.wr(it.inputs[nm]).cells[8*i] = (8, v, 'f')
        return st
    return setup
def body(c):
    fl = B.edge_flags('elastic', 'TET4', 4, 64, 1); f2 = B.edge_flags('elastic', 'TRIA3', 4, 64, 1)
    mods = [c.driver(CPP, fl, 'linalg/{Mappings,Shape,Geom,HalfSpace,Domain}.hpp')]
    it = I.Interp(mods); o = it.glob_obj(mods[0].globs['tol'])
    TL, TM = [it.load(I.State(), I.Ptr(o, 8*i), it.mkty((8, 0, 'f'))) for i in range(2)]
    WM, WG = 'src/linalg/Mappings.hpp ', 'src/linalg/Geom.hpp '
    c.rule('map', 'reference to physical is the (multi-)linear interpolation of the vertices')
    c.rule('jacobian', 'the Jacobian is the derivative of that map (at the origin for rectangles)')
    c.rule('inverse', 'physical to reference undoes reference to physical (simplices; axis-aligned rectangles)')
    c.rule('face', 'face coordinates start at the face\'s first vertex and run along its counter-clockwise edges')
    c.rule('neighbour', 'a face point and its image for the neighbour are the same physical point, for every shared face and orientation')
    for t, vs in VE.items():
        d, n = len(vs[0]), len(vs)
        ve = H.invec('v', d*n); x = [V(f'x[{i}]') for i in range(d)]
        r = c.run(mods, 'r2p_'+t, ['v', 'x', 'o']); N = shape(t, x)
        img = r.vec('o', d)
        for k in range(d): c.same('map', f'{t} {k}', img[k], sum((ve[k*n+p]*N[p] for p in range(n)), A.ZERO), WM+'refToPhy')
        j = c.run(mods, 'jac_'+t, ['v', 'j']).mat('j', d, d)
        o0 = [ve[k*n] for k in range(d)]
        for e in range(d):
            p = next(i for i, q in enumerate(vs) if q == tuple(1 if a == e else 0 for a in range(d)))
            for k in range(d): c.same('jacobian', f'{t} [{e}][{k}]', j[e][k], ve[k*n+p]-ve[k*n], WM+'evalJac')
        if t != 'LINE':
            if t in ('TRIA3', 'TET4'): vv = ve
            else: vv = [V(f'o{k}') + K(vs[p][k])*V(f'h{k}') for k in range(d) for p in range(n)]
            r = c.run(mods, 'p2r_'+t, ['v', 'y', 'o'], setup=cells(v=vv, y=[sum((vv[k*n+p]*N[p] for p in range(n)), A.ZERO) for k in range(d)]), pos={'h0', 'h1', 'h2'})
            for k in range(d): c.same('inverse', f'{t} {k}', r.f64('o', k), x[k], WM+'phyToRef')
        # faces
        pt = [V('p[0]'), V('p[1]')]
        img = {}
        for f, fv in enumerate(FA[t]):
            o = c.run(mods, 'f2v_'+t, [K(f), 'p', 'o']).vec('o', d)
            img[f] = o
            a, b = vs[fv[0]], vs[fv[1]] if len(fv) > 1 else None
            e = vs[fv[-1]] if len(fv) > 2 else None
            for k in range(d):
                w = K(a[k]) + (pt[0]*K(b[k]-a[k]) if b else A.ZERO) + (pt[1]*K(e[k]-a[k]) if e else A.ZERO)
                c.same('face', f'{t} face {f} {k}', o[k], w, WM+'faToVolRef')
        # the neighbour sees the face's vertices in opposite order, starting at any of them
        if t == 'LINE': continue
        for rot in range(3 if t == 'TET4' else 1):
            q = c.run(mods, 'l2n_'+t, [K(rot), 'p', 'o']).vec('o', d-1)
            nv = len(FA[t][0])
            # local vertex seen at the neighbour's position m
            if nv == 2: seen = [1, 0]
            elif nv == 3: seen = [(rot-m) % 3 for m in range(3)]
            else: seen = [0, 3, 2, 1]
            crd = [[V(f'w{k}{m}') for k in range(3)] for m in range(nv)]
            if nv == 4: crd[2] = [crd[1][k]+crd[3][k]-crd[0][k] for k in range(3)]
            def point(vs_, p):
                return [vs_[0][k] + p[0]*(vs_[1][k]-vs_[0][k]) + ((p[1]*(vs_[-1][k]-vs_[0][k])) if nv > 2 else A.ZERO) for k in range(3)]
            a, b = point(crd, pt), point([crd[seen[m]] for m in range(nv)], q)
            for k in range(3): c.same('neighbour', f'{t} rotation {rot} {k}', a[k], b[k], WM+'faLocToFaNei')
    # ------------------------------------------------------------ geometry
    def sub(a, b): return [x-y for x, y in zip(a, b)]
    def dot(a, b): return sum((x*y for x, y in zip(a, b)), A.ZERO)
    def cr(a, b): return [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]]
    def norm(a): return A.sqrt(dot(a, a))
    def absv(x): return A.ite(A.lt(x, A.ZERO), A.neg(x), x)
    def vert(n, d): return [[V(f'v[{k*n+p}]') for k in range(d)] for p in range(n)]
    c.rule('vectors', 'scalar product, cross product, norms, distances and normalisation are the Euclidean ones')
    a, b = H.invec('a', 3), H.invec('b', 3)
    for d, n in ((1, 1), (2, 2), (3, 3), (4, 3), (5, 2)): c.same('vectors', f'scalar product {d}', c.run(mods, 'sp', [K(d), 'a', 'b']).ret, dot(a[:n], b[:n]), WG+'sprod')
    for d, w in ((2, norm(a[:2])), (3, norm(a)), (4, norm(a)), (5, norm(sub(a, b))), (6, norm(sub(a, b))), (7, norm(sub(a[:2], b[:2])))):
        c.same('vectors', f'norm {d}', c.run(mods, 'nm', [K(d), 'a', 'b']).ret, w, WG+'norm')
    r = c.run(mods, 'cross', ['a', 'b', 'o']).vec('o', 3)
    for k in range(3): c.same('vectors', f'cross {k}', r[k], cr(a, b)[k], WG+'cross3')
    for d in (2, 3):
        r = c.run(mods, 'nz', [K(d), 'a']).vec('a', d)
        for k in range(d): c.same('vectors', f'normalize {d} {k}', r[k], a[k]/norm(a[:d]), WG+'normalize')
    c.rule('volume', 'length, area and volume of the entity, whatever the orientation')
    v = vert(2, 2); c.same('volume', 'line', c.run(mods, 'vol_LINE2', ['v']).ret, norm(sub(v[1], v[0])), WG+'volume')
    v = vert(3, 2); e, f = sub(v[1], v[0]), sub(v[2], v[0]); ar = (e[0]*f[1]-e[1]*f[0])*K(F(1, 2))
    c.same('volume', 'triangle', c.run(mods, 'vol_TRIA2', ['v']).ret, absv(ar), WG+'volume')
    per = norm(sub(v[0], v[1]))+norm(sub(v[1], v[2]))+norm(sub(v[2], v[0]))
    v = vert(3, 3); c.same('volume', 'triangle in space', c.run(mods, 'vol_TRIA3', ['v']).ret, norm(cr(sub(v[1], v[0]), sub(v[2], v[0])))/K(2), WG+'volume')
    v4 = vert(4, 3); det = dot(sub(v4[1], v4[0]), cr(sub(v4[2], v4[0]), sub(v4[3], v4[0])))
    c.same('volume', 'tetrahedron', c.run(mods, 'vol_TET', ['v']).ret, absv(det)/K(6), WG+'volume')
    c.rule('inscribed', 'diameter of the inscribed circle (4 area / perimeter) and sphere (6 volume / surface)')
    c.same('inscribed', 'triangle', c.run(mods, 'dia_TRIA', ['v']).ret, absv(ar)*K(4)/per, WG+'inDia')
    S = sum((norm(cr(sub(v4[j], v4[i]), sub(v4[k], v4[i]))) for i, j, k in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3))), A.ZERO)
    c.same('inscribed', 'tetrahedron', c.run(mods, 'dia_TET', ['v']).ret, absv(det)*K(2)/S, WG+'inDia')
    c.rule('tangents', 'tangents span the face: the first along the first edge, the second orthogonal to it on the side of the third vertex, both of unit length')
    r = c.run(mods, 'tan_TRIA', ['v', 's', 't']); v = vert(3, 3)
    e, f = sub(v[1], v[0]), sub(v[2], v[0]); al = dot(e, f)/dot(e, e); g = [f[k]-al*e[k] for k in range(3)]
    for k in range(3):
        c.same('tangents', f'first {k}', r.f64('s', k), e[k]/norm(e), WG+'computeTangents')
        c.same('tangents', f'second {k}', r.f64('t', k), g[k]/norm(g), WG+'computeTangents')
    r = c.run(mods, 'tan_LINE', ['v', 's', 't'])
    for k in range(3):
        c.same('tangents', f'line {k}', r.f64('s', k), V(f'v[{2*k+1}]')-V(f'v[{2*k}]'), WG+'computeTangents')
        c.same('tangents', f'line second {k}', r.f64('t', k), A.ZERO, WG+'computeTangents')
    c.rule('normal', 'the normal is of unit length, orthogonal to the face and points away from the given point')
    r = c.run(mods, 'nrm_LINE', ['v', 'p', 'n']); v = vert(2, 2); t = sub(v[0], v[1]); ln = norm(t); nn = [t[1]/ln, A.neg(t[0])/ln]
    side = dot(nn, sub([V('p[0]'), V('p[1]')], v[0])); 
    for k in range(2): c.same('normal', f'line {k}', r.f64('n', k), A.ite(A.gt(side, A.ZERO), A.neg(nn[k]), nn[k]), WG+'computeOutPtNormal')
    c.same('normal', 'line 2', r.f64('n', 2), A.ZERO, WG+'computeOutPtNormal')
    # triangle: one generic family (the face in the plane z=0 up to the rigid motions the formulas are invariant under) plus the general one by reference
    r = c.run(mods, 'nrm_TRIA', ['v', 'p', 'n'])
    q = c.run(mods, 'tan_TRIA', ['v', 's', 't']); s, t = q.vec('s', 3), q.vec('t', 3)
    cx = cr(s, t); ln = norm(cx); nn = [x/ln for x in cx]; v = vert(3, 3)
    side = dot(nn, sub([V(f'p[{k}]') for k in range(3)], v[0]))
    for k in range(3): c.same('normal', f'triangle {k}', r.f64('n', k), A.ite(A.gt(side, A.ZERO), A.neg(nn[k]), nn[k]), WG+'computeOutPtNormal')
    c.rule('additional', 'the additional sub-cell faces of a tetrahedron are those of the parallelepiped its edges span, seen from vertex 0')
    for ty, fv in ((0, (v4[1], v4[2], [v4[2][k]+v4[3][k]-v4[0][k] for k in range(3)])), (1, (v4[1], [v4[2][k]+v4[1][k]-v4[0][k] for k in range(3)], [v4[2][k]+v4[3][k]-v4[0][k] for k in range(3)]))):
        r = c.run(mods, f'sfadd{ty}', ['v', 'n', 's', 't', 'a'])
        st = cells(w=[fv[p][k] for k in range(3) for p in range(3)], p=v4[0])
        q = c.run(mods, 'nrm_TRIA', ['w', 'p', 'n'], setup=st); u = c.run(mods, 'tan_TRIA', ['w', 's', 't'], setup=st)
        for k in range(3):
            c.same('additional', f'{ty} normal {k}', r.f64('n', k), q.f64('n', k), WG+'sfAdd')
            c.same('additional', f'{ty} tangent0 {k}', r.f64('s', k), u.f64('s', k), WG+'sfAdd')
            c.same('additional', f'{ty} tangent1 {k}', r.f64('t', k), u.f64('t', k), WG+'sfAdd')
        c.same('additional', f'{ty} area', r.f64('a', 0), c.run(mods, 'vol_TRIA3', ['w'], setup=st).ret, WG+'sfAdd')
    c.rule('rotation', 'the rotation matrix turns the first vector into the second and keeps lengths')
    x, y = V('x'), V('y')
    # vectors in a plane suffice for each pair of axes (the formula is covariant); all three planes are decided
    for i, j in ((0, 1), (1, 2), (2, 0)):
        a = [A.ZERO]*3; b = [A.ZERO]*3; a[i] = V('q'); b[i] = x; b[j] = y
        r = c.run(mods, 'rot', ['a', 'b', 'o'], setup=cells(a=a, b=b), pos={'q'}).mat('o', 3, 3)
        ln = A.sqrt(x*x+y*y)
        for k in range(3): c.same('rotation', f'plane {i}{j} image {k}', dot(r[k], a)*ln, b[k]*V('q'), WG+'rotMat', pos={'q'})
        w = H.matmul(r, [[r[m][k] for m in range(3)] for k in range(3)])
        for k in range(3):
            for m in range(3): c.same('rotation', f'plane {i}{j} orthogonal {k}{m}', w[k][m], K(1 if k == m else 0), WG+'rotMat', pos={'q'})
    c.rule('inside', 'a point is inside (1) if it lies on the inner side of all faces, on a face (2) if within the tolerance of one and outside of none, and outside (0) otherwise')
    tol = I.term(TL)
    def AND(l):
        x = A.TRUE
        for q in l: x = A.and_(x, q)
        return x
    def OR(l):
        x = A.FALSE
        for q in l: x = A.or_(x, q)
        return x
    for t in ('LINE', 'TRIA3', 'QUAD4R', 'TET4', 'HEX8R'):
        vs = VE[t]; d, n = len(vs[0]), len(vs)
        p = [V(f'p{k}') for k in range(d)]
        r = c.run(mods, 'ins_'+t, ['v', 'p'], setup=cells(v=[K(vs[q][k]) for k in range(d) for q in range(n)], p=p)).ret
        box = OR([A.or_(A.gt(A.ZERO, p[k]+tol), A.lt(A.ONE, p[k]-tol)) for k in range(d)])
        if t == 'LINE':
            ins = A.and_(A.gt(p[0], tol), A.lt(p[0], A.ONE-tol)); fa = A.or_(A.lt(absv(p[0]), tol), A.lt(absv(p[0]-A.ONE), tol)); out = A.FALSE
        else:
            dets = []
            for fv in FA[t]:
                w = [[K(vs[fv[m]][k])-p[k] for k in range(d)] for m in range(d)]
                dets.append(w[0][0]*w[1][1]-w[0][1]*w[1][0] if d == 2 else A.neg(dot(w[0], cr(w[1], w[2]))) if False else dot(w[0], cr(w[1], w[2])))
            ins = AND([A.gt(x, tol) for x in dets]); out = OR([A.lt(x, A.neg(tol)) for x in dets]); fa = OR([A.lt(absv(x), tol) for x in dets])
        exp = A.ite(box, A.ZERO, A.ite(A.and_(fa, A.not_(out)), K(2), A.ite(ins, A.ONE, A.ZERO)))
        c.same('inside', t, r, exp, WG+'inside')
    c.rule('closest', 'the closest point of a line, rectangle or box is the point, clamped to it')
    for t in ('LINE', 'QUAD4R', 'HEX8R'):
        vs = VE[t]; d, n = len(vs[0]), len(vs); p = [V(f'p{k}') for k in range(d)]
        lo, h = [V(f'lo{k}') for k in range(d)], [V(f'h{k}') for k in range(d)]
        r = c.run(mods, 'cp_'+t, ['v', 'p'], setup=cells(v=[lo[k]+(h[k] if vs[q][k] else A.ZERO) for k in range(d) for q in range(n)], p=p), pos={'h0', 'h1', 'h2'})
        for k in range(d):
            c.same('closest', f'{t} {k}', r.f64('p', k), A.ite(A.lt(p[k], lo[k]), lo[k], A.ite(A.gt(p[k], lo[k]+h[k]), lo[k]+h[k], p[k])), WG+'closestPoint', pos={'h0', 'h1', 'h2'})
    c.rule('half-space', 'a half-space holds the points in front of its plane; a domain is the intersection of its parts')
    o, n, p = H.invec('o', 3), H.invec('n', 3), H.invec('p', 3)
    c.same('half-space', '2D', A.ite(c.run(mods, 'hs2', ['o', 'n', 'p', V('t')]).ret, A.ONE, A.ZERO), A.ite(A.gt(dot([x/norm(n[:2]) for x in n[:2]], sub(p[:2], o[:2])), V('t')), A.ONE, A.ZERO), 'src/linalg/HalfSpace.hpp inside')
    bit = lambda x: A.ite(x, A.ONE, A.ZERO)
    r = c.run(mods, 'hs3', ['o', 'n', 'p'])
    c.same('half-space', '3D copy, default tolerance', bit(r.ret), bit(A.gt(dot([x/norm(n) for x in n], sub(p, o)), K(F(-1E-6)))), 'src/linalg/HalfSpace.hpp inside')
    q, m = H.invec('q', 3), H.invec('m', 3)
    r = c.run(mods, 'dom', ['o', 'n', 'q', 'm', 'p'])
    w = [A.gt(dot([x/norm(b[:2]) for x in b[:2]], sub(p[:2], a[:2])), K(F(-1E-6))) for a, b in ((o, n), (q, m))]
    c.same('half-space', 'domain of two half-spaces', bit(r.ret), bit(A.and_(*w)), 'src/linalg/Domain.hpp inside')
    return c.finish('All inputs symbolic; every element type; abstract interpretation of Mappings, Shape, Geom and HalfSpace.',
                    ['real arithmetic', 'inputs satisfy the EDGE_CHECK preconditions (positive orientation, non-degenerate)', 'closest point on triangles and tetrahedra is delegated to the wykobi submodule, absent here'], min_obl=150)
if __name__ == '__main__': H.main('C02', body)
