import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
import itertools, math, random
K = A.const; F = A.Fraction
NM = {'LINE': 1, 'QUAD4R': 2, 'TRIA3': 3, 'HEX8R': 4, 'TET4': 5}; ND = {'LINE': 1, 'QUAD4R': 2, 'TRIA3': 2, 'HEX8R': 3, 'TET4': 3}; NV = {'LINE': 2, 'QUAD4R': 4, 'TRIA3': 3, 'HEX8R': 8, 'TET4': 4}
REF = {'LINE': [(0,), (1,)], 'QUAD4R': [(0, 0), (1, 0), (1, 1), (0, 1)], 'TRIA3': [(0, 0), (1, 0), (0, 1)], 'TET4': [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
       'HEX8R': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}
FACE = {'LINE': 'POINT', 'QUAD4R': 'LINE', 'TRIA3': 'LINE', 'HEX8R': 'QUAD4R', 'TET4': 'TRIA3'}; NF = {'LINE': 2, 'QUAD4R': 4, 'TRIA3': 3, 'HEX8R': 6, 'TET4': 4}; OPT = {'LINE': 1, 'QUAD4R': 1, 'TRIA3': 1, 'HEX8R': 1, 'TET4': 3}
def nmd(t, o): return {1: o, 2: o*o, 3: o*(o+1)//2, 4: o**3, 5: o*(o+1)*(o+2)//6}[NM[t]]
GL = r'''
#define FASTGL_H
#include <cstddef>
extern "C" void vp_gl( std::size_t n, std::size_t k, double *o );
namespace fastgl { struct QuadPair { double theta, weight, m_x; double x() { return m_x; } QuadPair() {} }; inline QuadPair GLPair( std::size_t n, std::size_t k ) { double l[2]; vp_gl( n, k, l ); QuadPair p; p.theta = 0; p.m_x = l[0]; p.weight = l[1]; return p; } }
#include <vector>
#include <string>
#include <array>
#include <limits>
#include <algorithm>
#include <cmath>
'''
TXT = GL + r'''
#include "dg/Basis.cpp"
#include "dg/QuadratureEval.hpp"
using namespace edge; typedef dg::Basis BA; typedef std::vector<double> VD;
static char ba[sizeof(BA)];
extern "C" {
  double eb( unsigned b, int t, double x, double y, double z, int d, unsigned o ) { return BA::evalBasis( b, (t_entityType) t, x, y, z, d, o ); }
  double ep( unsigned b, int t, double *p, int d, unsigned o ) { return BA::evalBasis( b, (t_entityType) t, p, d, o ); }
  void mk( int t, unsigned short o ) { new (ba) BA( (t_entityType) t, o ); }
  void q2m( double const *f, unsigned o, double *m ) { ((BA*) ba)->qpts2modal( f, o, m ); }
  double m2p( double const *p, double const *m ) { return ((BA*) ba)->modal2ptval( p, m ); }
  double m2r( unsigned short o, unsigned q, double const *m ) { return ((BA*) ba)->modal2refPtVal( o, q, m ); }
  void mi( int n, double *o, bool r ) { ((BA*) ba)->getMassInvDense( n, o, r ); }
  void gs( int n, double *o, bool t ) { ((BA*) ba)->getStiffMm1Dense( n, o, t ); }
  void gsf( int n, float *o, bool t ) { ((BA*) ba)->getStiffMm1Dense( n, o, t ); }
  void gf( double *l, double *n, double *t ) { ((BA*) ba)->getFluxDense( l, n, t ); }
  int qpt( int t, unsigned o, double const *v, double *x, double *y, double *z, double *w ) { VD a, b, c, e; dg::QuadraturePoints::getQpts( (t_entityType) t, o, v, a, b, c, e ); if( a.size() != e.size() ) return -1; for( std::size_t i = 0; i < a.size(); i++ ) { x[i] = a[i]; if( b.size() > i ) y[i] = b[i]; if( c.size() > i ) z[i] = c[i]; w[i] = e[i]; } return a.size(); }
  int qpr( int t, unsigned o, double *x, double *y, double *z, double *w ) { return qpt( t, o, C_REF_ELEMENT.VE.ENT[t], x, y, z, w ); }
}
#define FA( T, O ) extern "C" void fa##T##O( double (*p)[CE_N_FACE_QUAD_POINTS( T, O )][C_ENT[T].N_DIM], double *w, double (*b)[CE_N_FACE_QUAD_POINTS( T, O )][CE_N_ELEMENT_MODES( T, O )] ) { dg::QuadratureEval<T, O, O>::faces( p, w, b ); } \
  extern "C" void el##T##O( double (*p)[C_ENT[T].N_DIM], double *w, double (*b)[CE_N_ELEMENT_MODES( T, O )] ) { dg::QuadratureEval<T, O, O>::element( p, w, b ); } \
  extern "C" void li##T##O( double *p, double *w ) { dg::QuadratureEval<T, O, O>::line( p, w ); } \
  extern "C" void ev##T##O( double const *b, double const (*d)[3], double *o ) { dg::QuadratureEval<T, O, O, 3>::evalBasis( b, d, o ); }
#define FM( T ) extern "C" void fv##T( unsigned short f, double const *x, double *o ) { linalg::Mappings::faToVolRef( f, T, x, o ); } extern "C" void fn##T( double const *x, double *o, unsigned short v ) { linalg::Mappings::faLocToFaNei( T, x, o, v ); }
FA( QUAD4R, 2 ) FA( QUAD4R, 3 ) FA( TRIA3, 2 ) FA( TRIA3, 4 ) FA( HEX8R, 2 ) FA( TET4, 2 ) FA( TET4, 3 ) FM( QUAD4R ) FM( TRIA3 ) FM( HEX8R ) FM( TET4 )
extern "C" void faLINE3( double (*p)[1][1], double *w, double (*b)[1][3] ) { dg::QuadratureEval<LINE, 3, 3>::faces( p, w, b ); }
'''
INI = GL + r'''
#include "constants.hpp"
#include "dg/Basis.cpp"
#include "data/Expression.cpp"
#include "setups/InitialDofs.hpp"
using namespace edge; typedef unsigned long L; typedef dg::Basis BA;
struct VC { double coords[3]; int t; }; struct EC { int t; };
static char ba[sizeof(BA)]; static std::string ex[2];
extern "C" {
  void mk( int t, unsigned short o ) { new (ba) BA( (t_entityType) t, o ); }
  void se( int i, char const *s, L n ) { new (ex+i) std::string( s, n ); }
}
#define ID( T, O ) typedef setups::InitialDofs< T, O, 2, 2 > I##T##O; extern "C" { \
  void ini##T##O( L f, L n, L (*ev)[C_ENT[T].N_VERTICES], VC const *vc, double (*d)[2][CE_N_ELEMENT_MODES( T, O )][2] ) { I##T##O::dg( f, n, ex, *(BA*) ba, ev, vc, d ); } \
  void err##T##O( L f, L n, L const (*ev)[C_ENT[T].N_VERTICES], VC const *vc, double const (*d)[2][CE_N_ELEMENT_MODES( T, O )][2], double (*a)[2], double (*b)[2], double (*c)[2] ) { I##T##O::err( f, n, ex, *(BA*) ba, ev, vc, (EC*) nullptr, d, a, b, c ); } }
ID( LINE, 3 ) ID( QUAD4R, 2 ) ID( TRIA3, 3 ) ID( HEX8R, 2 ) ID( TET4, 3 )
'''
W = 'src/dg/Basis.cpp: '; WQ = 'src/dg/QuadraturePoints.h: '; WE = 'src/dg/QuadratureEval.hpp: '; WI = 'src/setups/InitialDofs.hpp: '
# --- exact polynomials: {(e1,e2,e3): coefficient}
def pa(p, q, s=1):
    r = dict(p)
    for k, v in q.items(): r[k] = r.get(k, 0) + s*v
    return r
def ps(p, s): return {k: v*s for k, v in p.items()}
def pm(p, q):
    r = {}
    for a, v in p.items():
        for b, w in q.items(): k = (a[0]+b[0], a[1]+b[1], a[2]+b[2]); r[k] = r.get(k, 0) + v*w
    return r
def lin(c0, *c): return {k: F(v) for k, v in zip([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], (c0,) + c) if v}
P1 = lin(1)
def jac(n, a, b, t, s):
    """homogenised Jacobi polynomial s^n P_n^{a,b}(t/s)"""
    if n == 0: return P1
    p0, p1 = P1, pa(ps(s, F(a-b, 2)), ps(t, F(a+b+2, 2)))
    for k in range(2, n+1):
        c = 2*k*(k+a+b)*(2*k+a+b-2)
        p0, p1 = p1, pa(pm(pa(ps(t, F((2*k+a+b-1)*(2*k+a+b)*(2*k+a+b-2), c)), ps(s, F((2*k+a+b-1)*(a*a-b*b), c))), p1), pm(pm(s, s), p0), -F(2*(k+a-1)*(k+b-1)*(2*k+a+b), c))
    return p1
def line(n, d=0): return jac(n, 0, 0, lin(-1, *[2 if k == d else 0 for k in range(3)]), P1)
def simplex(t, *p):
    if t == 'TRIA3': return pm(jac(p[0], 0, 0, lin(-1, 2, 1), lin(1, 0, -1)), jac(p[1], 2*p[0]+1, 0, lin(-1, 0, 2), P1))
    return pm(pm(jac(p[0], 0, 0, lin(-1, 2, 1, 1), lin(1, 0, -1, -1)), jac(p[1], 2*p[0]+1, 0, lin(-1, 0, 2, 1), lin(1, 0, 0, -1))), jac(p[2], 2*p[0]+2*p[1]+2, 0, lin(-1, 0, 0, 2), P1))
def basis(t, o):
    if t == 'LINE': return [line(n) for n in range(o)]
    if t == 'QUAD4R': return [pm(line(i), line(j, 1)) for j in range(o) for i in range(o)]
    if t == 'HEX8R': return [pm(pm(line(i), line(j, 1)), line(k, 2)) for k in range(o) for j in range(o) for i in range(o)]
    if t == 'TRIA3': return [simplex(t, p, d-p) for d in range(o) for p in range(d+1)]
    return [simplex(t, p, q, d-p-q) for d in range(o) for p in range(d+1) for q in range(d-p+1)]
def der(p, d): return {tuple(e-(i == d) for i, e in enumerate(k)): v*k[d] for k, v in p.items() if k[d]}
fac = math.factorial
def integral(t, p):
    s = F(0)
    for (a, b, c), v in p.items():
        s += v*(F(fac(a)*fac(b)*fac(c), fac(a+b+c+ND[t])) if t in ('TRIA3', 'TET4') else F(1, (a+1)*(b+1)*(c+1)))
    return s
def at(p, x): x = list(x) + [0]*(3-len(x)); return sum((v*F(x[0])**k[0]*F(x[1])**k[1]*F(x[2])**k[2] for k, v in p.items()), F(0))
def comp(p, X):
    """p with the polynomials X substituted"""
    r = {}
    for k, v in p.items():
        q = {(0, 0, 0): v}
        for d in range(3):
            for _ in range(k[d]): q = pm(q, X[d])
        r = pa(r, q)
    return r
XYZ = [A.var('x'), A.var('y'), A.var('z')]
def term(p, X=XYZ):
    s = A.ZERO
    for k, v in p.items():
        m = K(v)
        for x, e in zip(X, k):
            for _ in range(e): m = m*x
        s = s+m
    return s
_gl = {}
def gl(n):
    """Gauss-Legendre nodes and weights, to the last digit of a double"""
    if n not in _gl:
        r = []; c = [F(0)]*(n+1)
        p = jac(n, 0, 0, lin(0, 1), P1); d = der(p, 0)
        f = lambda q, x: sum(v*x**k[0] for k, v in q.items())
        for i in range(1, n+1):
            x = F(math.cos(math.pi*(i-0.25)/(n+0.5)))
            for _ in range(6): x = (x - f(p, x)/f(d, x)).limit_denominator(10**24)
            r.append((F(round(x*2**44), 2**44), F(round(2/((1-x*x)*f(d, x)**2)*2**44), 2**44)))
        _gl[n] = r
    return _gl[n]
def vp_gl(it, i, a, st):
    n, k = a[0], a[1]
    if not (isinstance(n, int) and isinstance(k, int) and 1 <= k <= n): raise I.Bottom(f'no quadrature point {k} of {n}')
    x, w = gl(n)[k-1]; c = st.wr(a[2].o).cells; c[a[2].off] = (8, K(x), 'f'); c[a[2].off+8] = (8, K(w), 'f')
GLM = {'vp_gl': vp_gl}
def num(v):
    v = A.lift(v)
    return A.cval(v) if A.isc(v) else None
def near(a, b, tol=F(1, 10**9)):
    a = num(a)
    return a is not None and abs(F(a)-b) <= tol*(1+abs(b))
class Zero:
    """reports a division by zero"""
    def __enter__(s):
        s.hit = False; s.old = A.inv
        def inv(a):
            if A.isc(A.lift(a)) and A.cval(A.lift(a)) == 0: s.hit = True
            return s.old(a)
        A.inv = inv; return s
    def __exit__(s, *x): A.inv = s.old
def functions(c, m, full):
    for t, o in (('LINE', 10), ('TRIA3', 10 if full else 7), ('TET4', 10 if full else 5), ('QUAD4R', 1), ('QUAD4R', 2), ('QUAD4R', 4 if full else 3), ('HEX8R', 1), ('HEX8R', 2), ('HEX8R', 4 if full else 3)):
        for b, p in enumerate(basis(t, o)):
            for d in [-1] + list(range(ND[t])) + ([ND[t]] if t != 'TET4' and b < 5 else []):
                want = term(p if d in (-1, ND[t]) else der(p, d)); s = c.session([m])
                key = f'{t} mode {b} of order {o}' + (f' derivative {d}' if d >= 0 else '')
                if not c.holds('functions', s.call('eb', b, NM[t], *XYZ, d, o), key + ': end', W + 'evalBasis: ' + str(getattr(s, 'why', ''))): continue
                c.same('functions', key, s.ret, want, W + 'evalBasis', tol=1e-8)
                r0 = s.ret; s = c.session([m])
                for k in range(3): s.put('p', 8*k, XYZ[k], 8, 'f')
                if c.holds('functions', s.call('ep', b, NM[t], 'p', d, o), key + ' by point: end', W + 'evalBasis: ' + str(getattr(s, 'why', ''))): c.same('functions', key + ' by point', s.ret, want, W + 'evalBasis', tol=1e-8)
    for t, o in (('TRIA3', 7), ('TET4', 5), ('QUAD4R', 3), ('HEX8R', 2), ('LINE', 5)):   # on the boundary
        V = REF[t]; pts = {tuple(F(x) for x in v) for v in V} | {tuple(F(2*a+b, 3) for a, b in zip(u, v)) for u in V for v in V}
        bad = set()
        for d in range(-1, ND[t]):
            for b, p in enumerate(basis(t, o)):
                p = p if d < 0 else der(p, d); z = False
                for x in sorted(pts):
                    s = c.session([m])
                    with Zero() as zz: ok = s.call('eb', b, NM[t], *[K(v) for v in list(x) + [0]*(3-len(x))], d, o)
                    if zz.hit: z = True; continue
                    c.holds('boundary', ok and near(s.ret, at(p, x)), f'{t} mode {b} derivative {d} at {tuple(map(str, x))}', W + f'evalBasis: mode {b} of {t} is {num(s.ret) if ok else "?"} at {tuple(map(float, x))}, not {float(at(p, x))}')
                if z: bad.add(b)
        for b in range(nmd(t, o)):
            c.holds('boundary', b not in bad, f'{t}: division by zero in mode {b}', W + f'evalBasis divides by zero for mode {b} of {t} in points of the boundary')
def getpts(s, fn, *args):
    if not s.call(fn, *args, 'x', 'y', 'z', 'w'): return None
    n = A.cval(A.lift(s.ret))
    r = []
    for i in range(n): r.append([num(s.get(q, i, 'f', 64)) for q in 'xyz'] + [num(s.get('w', i, 'f', 64))])
    return r
def affine(t, rnd, flat=False):
    """image of the reference element: origin and edges"""
    q = lambda: F(rnd.randint(-40, 40), rnd.choice((2, 4, 8)))
    o = [q() for _ in range(3)]
    while True:
        if t == 'LINE': M = [[F(3), F(4), F(0)]] if rnd.random() < .5 and not flat else [[F(rnd.randint(1, 9), 2), F(0), F(0)]]; det = F(5) if M[0][1] else M[0][0]; return o, M, det
        if t == 'QUAD4R': M = [[abs(q())+1, F(0), F(0)], [F(0), abs(q())+1, F(0)]]; return o[:2] + [F(0)], M, M[0][0]*M[1][1]
        if t == 'TRIA3':
            M = [[q(), q(), F(0)], [q(), q(), F(0)]]; det = M[0][0]*M[1][1]-M[0][1]*M[1][0]
            if det > 1: return o[:2] + [F(0)], M, det
        elif t == 'HEX8R':
            M = [[abs(q())+1 if i == k else F(0) for k in range(3)] for i in range(3)]; return o, M, M[0][0]*M[1][1]*M[2][2]
        else:
            M = [[q() for _ in range(3)] for _ in range(3)]; a, b, d = M; det = a[0]*(b[1]*d[2]-b[2]*d[1])-a[1]*(b[0]*d[2]-b[2]*d[0])+a[2]*(b[0]*d[1]-b[1]*d[0])
            if det > 1: return o, M, det
def img(om, x): o, M = om[:2]; return [o[k] + sum(F(x[i])*M[i][k] for i in range(len(M))) for k in range(3)]
def exact(t, n):
    D = 2*n-1 if t not in ('TRIA3', 'TET4') else 2*n-2 if t == 'TRIA3' else 2*n-3
    for e in itertools.product(*[range(max(D, 0)+1)]*ND[t]):
        if t in ('TRIA3', 'TET4') and sum(e) > D: continue
        yield tuple(e) + (0,)*(3-len(e))
def quadrature(c, m, full):
    rnd = random.Random(c.seed)
    for t in NM:
        for n in range(1, (7 if full else 5) if ND[t] < 3 else (6 if full else 4)):
            s = c.session([m], models=GLM); ref = getpts(s, 'qpr', NM[t], n)
            if not c.holds('quadrature', ref is not None and len(ref) == n**ND[t], f'{t} order {n}: points', WQ + f'{t}: {len(ref) if ref is not None else getattr(s, "why", "?")} points for order {n}'): continue
            if not c.holds('quadrature', all(v is not None for p in ref for k, v in enumerate(p) if k < ND[t] or k == 3), f'{t} order {n}: values', WQ + f'{t}: points are not determined'): continue
            ins = all(0 < p[k] < 1 for p in ref for k in range(ND[t])) and (t not in ('TRIA3', 'TET4') or all(sum(p[:ND[t]]) < 1 for p in ref))
            c.holds('quadrature', ins and all(p[3] > 0 for p in ref), f'{t} order {n}: inside', WQ + f'{t}: points outside of the element or weights which are not positive')
            bad = [e for e in exact(t, n) if not near(K(sum(p[3]*math.prod(p[k]**e[k] for k in range(ND[t])) for p in ref)), integral(t, {e: F(1)}), F(1, 10**11))]
            c.holds('quadrature', not bad, f'{t} order {n}: exact', WQ + f'{t}: the rule of order {n} does not integrate the monomials {bad[:4]} exactly')
            for q in range(2):
                om = affine(t, rnd); s = c.session([m], models=GLM)
                for i, r in enumerate(REF[t]):
                    x = img(om, r)
                    for k in range(3): s.put('v', 8*(k*NV[t]+i), K(x[k]), 8, 'f')
                ph = getpts(s, 'qpt', NM[t], n, 'v')
                if not c.holds('quadrature', ph is not None and len(ph) == len(ref), f'{t} order {n}: points of an element {q}', WQ + f'{t}: no points for an element: {getattr(s, "why", "")}'): continue
                ok = all(near(K(a[3]), b[3]*om[2]) and all(near(K(a[k]), v) for k, v in enumerate(img(om, b[:ND[t]])) if k < (3 if t == 'LINE' else ND[t])) for a, b in zip(ph, ref))
                c.holds('quadrature', ok, f'{t} order {n}: element {q}', WQ + f'{t}: points and weights of an element are not those of the reference element mapped to it')
def tables(m, t, o, s, M=None):
    """the precomputed tables"""
    n = nmd(t, o)
    def tab(nm, vals):
        ob = I.Ptr(s.it.inputs.get(nm) or s.it.input_obj(nm), 0)
        for i, v in enumerate(vals): s.st.wr(ob.o).cells[ob.off+8*i] = (8, v, 'f')
        for g, v, kd in ((nm+'Raw', ob, 'ptr'), (nm+'Size', len(vals), 'i')):
            k = [x for x in m.globs if f'{len(g)}{g}E' in x]
            if k: s.st.wr(s.it.glob_obj(m.globs[k[0]])).cells[0] = (8, v, kd)
    fs = basis(t, o); mass = [integral(t, pm(f, f)) for f in fs]
    tab('g_mass', [K(mass[i]) if i == j else A.ZERO for i in range(n) for j in range(n)])
    return tab, fs, mass
def classes(c, m, full):
    rnd = random.Random(c.seed+1)
    for t, o in (('LINE', 3), ('QUAD4R', 2), ('TRIA3', 3), ('HEX8R', 2), ('TET4', 2)) + ((('LINE', 1), ('QUAD4R', 3), ('TRIA3', 4), ('TET4', 3)) if full else ()):
        n = nmd(t, o); s = c.session([m], models=GLM); tab, fs, mass = tables(m, t, o, s)
        if not c.holds('modal', s.call('mk', NM[t], o), f'{t} order {o}: set up', W + 'Basis: ' + str(getattr(s, 'why', ''))): continue
        mods = [A.var(f'm{i}') for i in range(n)]
        for i in range(n): s.put('mo', 8*i, mods[i], 8, 'f')
        pt = [F(1, 5), F(2, 7), F(1, 3)]
        for k in range(3): s.put('pt', 8*k, K(pt[k]), 8, 'f')
        f = s.fork
        if c.holds('modal', s.call('m2p', 'pt', 'mo'), f'{t} order {o}: point: end', W + 'modal2ptval: ' + str(getattr(s, 'why', ''))):
            c.same('modal', f'{t} order {o}: value of a point', s.ret, sum((K(at(p, pt))*v for p, v in zip(fs, mods)), A.ZERO), W + 'modal2ptval', tol=1e-9)
        for q in range(1, o+2):
            r = c.session([m], models=GLM); ref = getpts(r, 'qpr', NM[t], q)
            for i, x in enumerate(ref):
                if i > 3 and i % 5: continue
                if c.holds('modal', s.call('m2r', q, i, 'mo'), f'{t} order {o}: quadrature point {i} of {q}: end', W + 'modal2refPtVal: ' + str(getattr(s, 'why', ''))):
                    c.same('modal', f'{t} order {o}: value of quadrature point {i} of {q}', s.ret, sum((K(at(p, x[:ND[t]]))*v for p, v in zip(fs, mods)), A.ZERO), W + 'modal2refPtVal', tol=1e-9)
            if q < o and t not in ('LINE',): continue
            fv = [A.var(f'f{i}') for i in range(len(ref))]
            for i in range(len(ref)): s.put('fv', 8*i, fv[i], 8, 'f')
            if c.holds('modal', s.call('q2m', 'fv', q, 'ou'), f'{t} order {o}: projection of {q}: end', W + 'qpts2modal: ' + str(getattr(s, 'why', ''))):
                for b, p in enumerate(fs):
                    c.same('modal', f'{t} order {o}: mode {b} of a projection of order {q}', s.get('ou', b), sum((K(at(p, x[:ND[t]])*x[3]/mass[b])*v for x, v in zip(ref, fv)), A.ZERO), W + 'qpts2modal', tol=1e-9)
        for k in sorted({1, n-1, n} - {0}):
            for row in (1, 0):
                if c.holds('modal', s.call('mi', k, 'im', row), f'{t} order {o}: inverse of {k}: end', W + 'getMassInvDense: ' + str(getattr(s, 'why', ''))) and k == n:
                    c.holds('modal', all(near(s.get('im', i*k+j), 1/mass[i] if i == j else F(0)) for i in range(k) for j in range(k)), f'{t} order {o}: inverse mass matrix {row}', W + 'getMassInvDense: not the inverse of the mass matrix')
    # tables handed to the solvers
    for t, o in (('TET4', 2),) + ((('TRIA3', 3), ('HEX8R', 2), ('QUAD4R', 2)) if full else (('TRIA3', 2),)):
        mm = m if t == 'TET4' else c.driver(TXT, B.edge_flags('elastic', t, o, 64, 1), 'basis ' + t)
        if t == 'TET4': mm = c.driver(TXT, B.edge_flags('elastic', 'TET4', 2, 64, 1), 'basis TET4 2')
        n = nmd(t, o); nf = nmd(FACE[t], o); s = c.session([mm], models=GLM); tab, fs, mass = tables(mm, t, o, s)
        fN = {'TRIA3': 3*3*1, 'TET4': 4*4*3}.get(t); 
        size = {'g_stiffV': ND[t]*n*n, 'g_stiffT': ND[t]*n*n, 'g_fluxL': NF[t]*n*nf, 'g_fluxN': None, 'g_fluxT': NF[t]*n*nf}
        size['g_fluxN'] = {'LINE': 2, 'QUAD4R': 4, 'TRIA3': 3, 'HEX8R': 6, 'TET4': 12}[t]*n*nf
        for k, v in size.items(): tab(k, [A.var(f'{k}{i}') for i in range(v)])
        if not c.holds('tables', s.call('mk', NM[t], o), f'{t}: set up', W + 'Basis: ' + str(getattr(s, 'why', ''))): continue
        for tr in (0, 1):
            for fnn, w in (('gs', 64), ('gsf', 32)):
                if c.holds('tables', s.call(fnn, n, 'st%d%d' % (tr, w), tr), f'{t}: stiffness {tr} {w}: end', W + 'getStiffMm1Dense: ' + str(getattr(s, 'why', ''))):
                    nm = 'g_stiffT' if tr else 'g_stiffV'
                    c.holds('tables', all(A.equal(s.get('st%d%d' % (tr, w), i, 'f', w), A.var(f'{nm}{i}')) is None for i in range(size[nm])), f'{t}: stiffness {tr} {w}', W + f'getStiffMm1Dense: not the {"transposed " if tr else ""}stiffness matrices')
        if c.holds('tables', s.call('gf', 'fl', 'fn', 'ft'), f'{t}: flux: end', W + 'getFluxDense: ' + str(getattr(s, 'why', ''))):
            for nm, ob in (('g_fluxL', 'fl'), ('g_fluxN', 'fn'), ('g_fluxT', 'ft')):
                c.holds('tables', all(A.equal(s.get(ob, i), A.var(f'{nm}{i}')) is None for i in range(size[nm])), f'{t}: {nm}', W + f'getFluxDense: {nm} is not handed over')
def vec(s, fn, args, out, n):
    return [num(s.get(out, i)) for i in range(n)] if s.call(fn, *args) else None
def evaluation(c, m, full):
    for t, o in (('QUAD4R', 2), ('TRIA3', 2), ('HEX8R', 2), ('TET4', 2)) + ((('QUAD4R', 3), ('TRIA3', 4), ('TET4', 3)) if full else ()):
        d = ND[t]; fs = basis(t, o); n = nmd(t, o)
        r = c.session([m], models=GLM); fr = getpts(r, 'qpr', NM[FACE[t]], o); r = c.session([m], models=GLM); er = getpts(r, 'qpr', NM[t], o)
        s = c.session([m], models=GLM); nf = len(fr)
        if c.holds('evaluation', s.call(f'fa{t}{o}', 'p', 'w', 'b'), f'{t} order {o}: faces: end', WE + 'faces: ' + str(getattr(s, 'why', ''))):
            c.holds('evaluation', all(near(s.get('w', i), x[3]) for i, x in enumerate(fr)), f'{t} order {o}: weights of faces', WE + 'faces: weights are not those of the quadrature rule of a face')
            for f in range(NF[t]):
                for op in range(-1, OPT[t]):
                    pos = f if op < 0 else NF[t] + f*OPT[t] + op
                    okp = okb = True
                    for q, x in enumerate(fr):
                        h = c.session([m])
                        for k in range(d-1): h.put('x', 8*k, K(x[k]), 8, 'f')
                        if op >= 0:
                            h.call(f'fn{t}', 'x', 'n', op); h.call(f'fv{t}', f, 'n', 'o')
                        else: h.call(f'fv{t}', f, 'x', 'o')
                        want = [num(h.get('o', k)) for k in range(d)]; got = [num(s.get('p', (pos*nf+q)*d+k)) for k in range(d)]
                        okp &= None not in got and all(near(K(a), b) for a, b in zip(got, want))
                        okb &= all(near(s.get('b', (pos*nf+q)*n+i), at(p, want)) for i, p in enumerate(fs))
                    c.holds('evaluation', okp, f'{t} order {o}: points of face {f} {op}', WE + f'faces: points of face {f}{" as seen by the neighbour" if op >= 0 else ""}')
                    c.holds('evaluation', okb, f'{t} order {o}: basis of face {f} {op}', WE + f'faces: basis at the points of face {f}{" as seen by the neighbour" if op >= 0 else ""}')
        s = c.session([m], models=GLM)
        if c.holds('evaluation', s.call(f'el{t}{o}', 'p', 'w', 'b'), f'{t} order {o}: element: end', WE + 'element: ' + str(getattr(s, 'why', ''))):
            c.holds('evaluation', all(near(s.get('w', q), x[3]) and all(near(s.get('p', q*d+k), x[k]) for k in range(d)) for q, x in enumerate(er)), f'{t} order {o}: element', WE + 'element: points or weights')
            c.holds('evaluation', all(near(s.get('b', q*n+i), at(p, x[:d])) for q, x in enumerate(er) for i, p in enumerate(fs)), f'{t} order {o}: basis in the element', WE + 'element: basis at the points')
        s = c.session([m], models=GLM); lr = getpts(c.session([m], models=GLM), 'qpr', NM['LINE'], o)
        if c.holds('evaluation', s.call(f'li{t}{o}', 'p', 'w'), f'{t} order {o}: line: end', WE + 'line: ' + str(getattr(s, 'why', ''))):
            c.holds('evaluation', all(near(s.get('p', q), x[0]) and near(s.get('w', q), x[3]) for q, x in enumerate(lr)), f'{t} order {o}: line', WE + 'line: points or weights')
        s = c.session([m])
        for i in range(n): s.put('b', 8*i, A.var(f'b{i}'), 8, 'f')
        for i in range(3*n): s.put('d', 8*i, A.var(f'd{i}'), 8, 'f')
        if c.holds('evaluation', s.call(f'ev{t}{o}', 'b', 'd', 'o'), f'{t} order {o}: sum: end', WE + 'evalBasis: ' + str(getattr(s, 'why', ''))):
            for r in range(3): c.same('evaluation', f'{t} order {o}: sum of run {r}', s.get('o', r), sum((A.var(f'b{i}')*A.var(f'd{3*i+r}') for i in range(n)), A.ZERO), WE + 'evalBasis')
    s = c.session([m], models=GLM)
    if c.holds('evaluation', s.call('faLINE3', 'p', 'w', 'b'), 'LINE: faces: end', WE + 'faces: ' + str(getattr(s, 'why', ''))):
        c.holds('evaluation', near(s.get('w', 0), F(1)) and all(near(s.get('p', i), F(x)) for i, x in enumerate((0, 1, 1, 0))), 'LINE: faces', WE + 'faces of lines: points or weights')
        c.holds('evaluation', all(near(s.get('b', 3*i+k), at(line(k), (x,))) for i, x in enumerate((0, 1, 1, 0)) for k in range(3)), 'LINE: basis at faces', WE + 'faces of lines: basis')
def initial(c, full):
    m = c.driver(INI, B.edge_flags('elastic', 'TET4', 4, 64, 1), 'initial')
    rnd = random.Random(c.seed+2)
    for t, o in (('LINE', 3), ('QUAD4R', 2), ('TRIA3', 3), ('HEX8R', 2), ('TET4', 3)):
        for zero in (True,):
            n = nmd(t, o); d = ND[t]; fs = basis(t, o)
            deg = [e for e in itertools.product(range(o+1), repeat=d) if (sum(e) <= o if t in ('TRIA3', 'TET4') else True)]
            # polynomials of the quantities: [run][quantity]; quantities without a value stay zero
            f = [[None if zero and (r+q) % 2 else {tuple(e) + (0,)*(3-d): F(rnd.randint(-5, 5), 3) for e in rnd.sample(deg, min(4, len(deg)))} for q in range(2)] for r in range(2)]
            src = {}; bind = {}
            def mv(it, i, a, st): bind.setdefault(('v', a[0].o, a[0].off), {})[I.cstr_at(it, st, a[1]).decode()] = a[2]; return A.TRUE
            def mvec(it, i, a, st): bind.setdefault(('v', a[0].o, a[0].off), {})[I.cstr_at(it, st, a[1]).decode()] = (a[2], a[3]); return A.TRUE
            def mc(it, i, a, st): return A.TRUE
            def mr(it, i, a, st): bind[('t', a[0].o, a[0].off)] = (a[1].o, a[1].off)
            def mcomp(it, i, a, st): bind[('c', a[2].o, a[2].off)] = I.cstr_at(it, st, a[1]).decode(); return A.TRUE
            def mval(it, i, a, st):
                tx = bind.get(('c', a[0].o, a[0].off)); tb = bind.get(('v',) + bind.get(('t', a[0].o, a[0].off), (0, 0)))
                if tx is None or tb is None: raise I.Bottom('expression without text or symbols')
                if set(tb) - {'q'} != set('xyz'[:d]) or tb.get('q', (0, 0))[1] != 2: raise I.Bottom(f'symbols {sorted(tb)}')
                if tx not in src: raise I.Bottom(f'expression {tx!r}')
                x = [A.cval(A.lift(it.load(st, tb[k], it.mkty((8, 0, 'f'))))) for k in 'xyz'[:d]]
                for q, p in enumerate(src[tx]):
                    if p is not None: it.store(st, I.Ptr(tb['q'][0].o, tb['q'][0].off+8*q), K(at(p, x)), it.mkty((8, 0, 'f')))
                return A.ZERO
            mod = dict(GLM, vp_exprtk_var=mv, vp_exprtk_vec=mvec, vp_exprtk_consts=mc, vp_exprtk_reg=mr, vp_exprtk_compile=mcomp, vp_exprtk_value=mval)
            s = c.session([m], models=mod); tab, fs, mass = tables(m, t, o, s)
            if not c.holds('initial', s.call('mk', NM[t], o), f'{t}: set up', W + 'Basis: ' + str(getattr(s, 'why', ''))): continue
            for r in range(2):
                tx = f'q[0] := {r}; q[1] := f{r}' + ' ' * (20*r); src[tx] = f[r]
                for i, ch in enumerate(tx): s.put(f's{r}', i, ord(ch), 1, 'i')
                s.call('se', r, f's{r}', len(tx))
            els = [affine(t, rnd, True) for _ in range(4)]; v = 0; perm = list(range(4*NV[t])); rnd.shuffle(perm)
            for e, om in enumerate(els):
                for i, x in enumerate(REF[t]):
                    p = perm[v]; v += 1; s.put('ev', 8*(e*NV[t]+i), p, 8, 'i'); x = img(om, x)
                    for k in range(3): s.put('vc', 32*p+8*k, K(x[k]), 8, 'f')
            for i in range(4*2*n*2): s.put('do', 8*i, A.var(f'old{i}'), 8, 'f')
            if not c.holds('initial', s.call(f'ini{t}{o}', 1, 2, 'ev', 'vc', 'do'), f'{t}: end {zero}', WI + 'dg: ' + str(getattr(s, 'why', ''))): continue
            X = lambda om: [pa({(0, 0, 0): om[0][k]}, {tuple(int(i == j) for j in range(3)): om[1][i][k] for i in range(d)}) for k in range(3)]
            for e, om in enumerate(els):
                ok = True
                for q in range(2):
                    for r in range(2):
                        g = comp(f[r][q], X(om)) if f[r][q] is not None else {}
                        for b, p in enumerate(fs):
                            got = s.get('do', ((e*2+q)*n+b)*2+r)
                            if e in (1, 2): ok &= near(got, integral(t, pm(g, p))/mass[b], F(1, 10**7))
                            else: ok &= A.equal(got, A.var(f'old{((e*2+q)*n+b)*2+r}')) is None
                c.holds('initial', ok, f'{t}: element {e} {zero}', WI + (f'dg: {t}: degrees of freedom of an element are not the projection of the initial values' if e in (1, 2) else 'dg: degrees of freedom of an element outside of the range are changed'))
            # error norms
            g = [[{tuple(e) + (0,)*(3-d): F(rnd.randint(-5, 5), 4) for e in rnd.sample(deg, min(4, len(deg)))} for q in range(2)] for r in range(2)]; f = g
            for r, tx in enumerate(list(src)): src[tx] = f[r]
            dm = {}
            for e in range(4):
                for q in range(2):
                    for b in range(n):
                        for r in range(2): dm[e, q, b, r] = F(rnd.randint(-9, 9), 4); s.put('dd', 8*(((e*2+q)*n+b)*2+r), K(dm[e, q, b, r]), 8, 'f')
            h = c.session([QM[0]], models=GLM); ref = getpts(h, 'qpr', NM[t], o+1)
            if not c.holds('errors', s.call(f'err{t}{o}', 1, 2, 'ev', 'vc', 'dd', 'n1', 'n2', 'ni'), f'{t}: errors: end', WI + 'err: ' + str(getattr(s, 'why', ''))): continue
            for q in range(2):
                for r in range(2):
                    n1 = n2 = ni = F(0)
                    for e in (1, 2):
                        for x in ref:
                            df = abs(sum(dm[e, q, b, r]*at(p, x[:d]) for b, p in enumerate(fs)) - at(f[r][q], img(els[e], x[:d])))
                            n1 += df*x[3]*els[e][2]; n2 += df*df*x[3]*els[e][2]; ni = max(ni, df)
                    for nm, ob, w in (('L1', 'n1', n1), ('squared L2', 'n2', n2), ('Linf', 'ni', ni)):
                        c.holds('errors', near(s.get(ob, q*2+r), w, F(1, 10**7)), f'{t}: {nm} of quantity {q}, run {r}', WI + f'err: {t}: the {nm} error of quantity {q} and run {r} is {float(num(s.get(ob, q*2+r)) or 0)}, not {float(w)}')
QM = []
def body(c):
    c.rule('functions', 'every mode of every element type and order, and each derivative, is the orthogonal (Legendre, Dubiner) polynomial, as a polynomial in the point, in both ways of evaluation')
    c.rule('boundary', 'the functions and derivatives have the values of these polynomials in vertices and points of edges as well')
    c.rule('quadrature', 'rules have their number of points inside of the element, positive weights, are exact up to their degree, and points and weights of an element are those of the reference element mapped to it')
    c.rule('modal', 'point values, values of quadrature points, projections and the inverse mass matrix belong to the basis and its mass matrix')
    c.rule('tables', 'stiffness and flux matrices are handed over unchanged')
    c.rule('evaluation', 'points, weights and basis of faces (also as seen by the neighbour), elements and lines belong to the rules and the basis')
    c.rule('initial', 'the initial degrees of freedom of exactly the given elements are the L2 projection of the expression of their run, quantities which are not set are zero')
    c.rule('errors', 'L1, squared L2 and maximum errors are those of the difference to the reference of the run, summed over the given elements')
    full = c.tier != 'quick'
    m = c.driver(TXT, B.edge_flags('elastic', 'TET4', 4, 64, 1), 'basis'); QM.append(m)
    quadrature(c, m, full); classes(c, m, full); evaluation(c, m, full); functions(c, m, full); initial(c, full)
    return c.finish('Abstract interpretation of the basis, quadrature, initial values and error norms; basis functions are compared as polynomials in a symbolic point', ['the Gauss-Legendre nodes and weights of FastGL are right', 'the tables of EDGEpre hold the mass matrix of the basis'], min_obl=300)
if __name__ == '__main__': H.main('C03', body)
