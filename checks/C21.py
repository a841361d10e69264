import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
from fractions import Fraction as Q
import itertools, random
TXT = r'''
#include <new>
#include <limits>
#include "time/Cfl.h"
#include "time/Groups.h"
#include "models/Model.h"
#include "models/Constant.h"
#include "time/Cfl.cpp"
#include "time/Groups.cpp"
#include "models/Model.cpp"
#include "models/Constant.cpp"
using namespace edge_v;
struct Mod: public models::Model {
  double const *mn, *mx;
  void init( t_idx, double const (*)[3] ) {}
  void free() {}
  double getMinSpeed( t_idx p ) const { return mn[p]; }
  double getMaxSpeed( t_idx p ) const { return mx[p]; }
};
alignas(64) static char mo[sizeof(Mod)], cf[sizeof(time::Cfl)], gr[sizeof(time::Groups)], co[sizeof(models::Constant)];
#define G ((time::Groups*) gr)
extern "C" {
  void mkc( int ty, t_idx nVe, t_idx nEl, t_idx const *elVe, double const (*cr)[3], double const *dia, bool el, double const *mn, double const *mx ) {
    Mod *m = new (mo) Mod; m->mn = mn; m->mx = mx; new (cf) time::Cfl( (t_entityType) ty, nVe, nEl, elVe, cr, dia, el, *m ); }
  void cts( t_idx n, double *o ) { double const *t = ((time::Cfl*) cf)->getTimeSteps(); for( t_idx i = 0; i < n; i++ ) o[i] = t[i]; }
  void mkg( int ty, t_idx nEl, t_idx const *ad, unsigned short nR, double const *r, double dt, double const *ts ) { new (gr) time::Groups( (t_entityType) ty, nEl, ad, nR, r, dt, ts ); }
  int gn() { return G->nGroups(); }
  double gint( int i ) { return G->getTsIntervals()[i]; }
  int gtg( t_idx e ) { return G->getElTg()[e]; }
  t_idx gel( int i ) { return G->nGroupEls()[i]; }
  void grg( t_idx f, t_idx n, t_idx *o ) { G->nGroupEls( f, n, o ); }
  double gsp() { return G->getSpeedUp(); }
  void ave( unsigned short nv, t_idx ne, t_idx const *elVe, float const *v, float *o ) { Mod *m = new (mo) Mod; m->getElAve( nv, ne, elVe, v, o ); }
  double cst( double v, t_idx p, bool mx ) { models::Constant *c = new (co) models::Constant( v ); c->init( 3, nullptr ); return mx ? c->getMaxSpeed( p ) : c->getMinSpeed( p ); }
}
'''
CF, GR = 'tools/edge_v/src/time/Cfl.cpp', 'tools/edge_v/src/time/Groups.cpp'
TY = {'QUAD4R': (2, 4, 4), 'TRIA3': (3, 3, 3), 'HEX8R': (4, 8, 6), 'TET4': (5, 4, 4)}
MX = 2**64-1
def wide(s, name, i): v = s.int(name, i); return v
def groups(els, ad, bounds):
    """the greatest assignment below the intervals of the time steps for which adjacent elements are at most one group apart"""
    tg = [next(k for k in range(len(bounds)-1) if t < bounds[k+1]) for t in els]; pre = list(tg)
    ch = True
    while ch:
        ch = False
        for e, row in enumerate(ad):
            for a in row:
                if a is not None and tg[e] > tg[a]+1: tg[e] = tg[a]+1; ch = True
    return pre, tg
def body(c):
    fl = [B.v_flags(), B.v_flags(omp=True)]
    c.prefetch([(None, f, TXT) for f in fl[:1]])
    m = c.driver(TXT, fl[0], 'time steps and groups of EDGE-V'); V = A.var
    c.rule('cfl', 'the time step of an element is its insphere diameter over the mean of the largest wave speeds (element, or mean over its vertices), relative to the smallest of the mesh')
    c.rule('intervals', 'the intervals of the groups start at the fundamental time step and grow by the rates')
    c.rule('groups', 'the assignment is the greatest one that respects every time step and is at most one group apart for adjacent elements')
    c.rule('counts', 'numbers of elements and the speed-up are those of the assignment')
    c.rule('reject', 'non-positive speeds and invalid rates or fundamental time steps are rejected')
    c.rule('models', 'element averages of point data; constant velocity models')
    mn = lambda a, b: A.ite(A.lt(b, a), b, a)
    for nm, (ty, nv, nf) in TY.items():
        for el in (False, True):
            for ne in (1, 2, 3) if nm != 'HEX8R' else (1, 2):
                key = f'{nm}, {ne} elements, speeds at {"elements" if el else "vertices"}'; npt = nv+3
                pos = {f'd{e}' for e in range(ne)} | {f's{p}' for p in range(npt)}
                s = c.session([m], pos=pos); ids = [[(5*e+3*v) % npt for v in range(nv)] for e in range(ne)]
                for e in range(ne):
                    s.put('dia', 8*e, V(f'd{e}'), 8, 'f')
                    for v in range(nv): s.put('elVe', 8*(nv*e+v), ids[e][v], 8, 'i')
                for p in range(npt):
                    s.put('mn', 8*p, V(f'q{p}'), 8, 'f'); s.put('mx', 8*p, V(f's{p}'), 8, 'f')
                if not c.holds('cfl', s.call('mkc', ty, npt, ne, 'elVe', 'crd', 'dia', A.TRUE if el else A.FALSE, 'mn', 'mx') and s.call('cts', ne, 'out'), f'{key}: end', f'{CF}: {s.why if hasattr(s, "why") else ""}'): continue
                ab = [V(f'd{e}')/(V(f's{e}') if el else sum((V(f's{p}') for p in ids[e]), A.ZERO)/A.const(nv)) for e in range(ne)]
                w = ab[0]
                for x in ab[1:]: w = mn(w, x)
                for e in range(ne): c.same('cfl', f'{key}: element {e}', s.get('out', e), ab[e]/w, f'{CF} setTimeSteps', pos=pos)
    # rejected speeds
    for what, sp, dia, want in (('positive speed', Q(3), Q(1), True), ('no speed', Q(0), Q(1), False), ('negative speed', Q(-1), Q(1), False), ('zero diameter', Q(1), Q(0), False), ('negative diameter', Q(2), Q(-1), False)):
        for k in range(2):
            s = c.session([m])
            for e in range(2): s.put('dia', 8*e, A.const(dia if e == k else Q(2)), 8, 'f'); s.put('mx', 8*e, A.const(sp if e == k else Q(1)), 8, 'f')
            c.holds('reject', s.call('mkc', 3, 2, 2, 'elVe', 'crd', 'dia', A.TRUE, 'mn', 'mx') == want, f'{what} in element {k}', f'{CF} setTimeSteps: {"accepted" if want is False else "rejected"}')
    # groups
    rnd = random.Random(7); cases = []
    chain = lambda n, nf: [[(e-1 if f == 1 and e > 0 else e+1 if f == 0 and e+1 < n else None) for f in range(nf)] for e in range(n)]
    for nm, (ty, nv, nf) in TY.items():
        big = 12 if c.tier == 'quick' else 60
        for k in range(big):
            n = 1+k % 7; nr = k % 5; rates = [[Q(2), Q(3, 2), Q(5, 4), Q(2), Q(9, 8)][(j+k) % 5] for j in range(nr)]; dt = [Q(1), Q(1, 2), Q(3, 4), Q(51, 100)][k % 4]
            b = [dt]
            for r in rates: b.append(b[-1]*r)
            pick = [x for x in b if x >= 1]+[x-Q(1, 64) for x in b if x-Q(1, 64) >= 1]+[x+Q(1, 64) for x in b if x+Q(1, 64) >= 1]+[Q(1), Q(100), Q(7, 5), Q(40)]
            ts = [rnd.choice(pick) for _ in range(n)]; ts[rnd.randrange(n)] = Q(1)
            if k % 3 == 0: ad = chain(n, nf)
            else:
                ad = [[None]*nf for _ in range(n)]
                for _ in range(3*n):
                    x, y = rnd.randrange(n), rnd.randrange(n)
                    fx = [f for f in range(nf) if ad[x][f] is None]; fy = [f for f in range(nf) if ad[y][f] is None]
                    if x != y and fx and fy and y not in ad[x]: ad[x][rnd.choice(fx)] = y; ad[y][rnd.choice(fy)] = x
            cases.append((nm, ty, nf, ad, rates, dt, ts))
        # steepest descents: one element of the smallest step next to large ones
        for n in (3, 5, 6): cases.append((nm, ty, nf, chain(n, nf), [Q(2)]*4, Q(1), [Q(1)]+[Q(100)]*(n-1))); cases.append((nm, ty, nf, chain(n, nf), [Q(2)]*4, Q(1), [Q(100)]*(n-1)+[Q(1)]))
        cases.append((nm, ty, nf, [[1, 2]+[None]*(nf-2), [None]*(nf-1)+[0], [0]+[None]*(nf-1)], [Q(2)]*4, Q(1), [Q(100), Q(1), Q(5)]))
        cases.append((nm, ty, nf, [[2, 1]+[None]*(nf-2), [None]*(nf-1)+[0], [0]+[None]*(nf-1)], [Q(2)]*4, Q(1), [Q(100), Q(1), Q(5)]))
    for k, (nm, ty, nf, ad, rates, dt, ts) in enumerate(cases):
        s = c.session([m]); n = len(ts); key = f'{nm}, case {k}'; b = [dt]
        for r in rates: b.append(b[-1]*r)
        for e, row in enumerate(ad):
            s.put('ts', 8*e, A.const(ts[e]), 8, 'f')
            for f, a in enumerate(row): s.put('ad', 8*(nf*e+f), -1 if a is None else a, 8, 'i')
        for j, r in enumerate(rates): s.put('ra', 8*j, A.const(r), 8, 'f')
        if not c.holds('groups', s.call('mkg', ty, n, 'ad', len(rates), 'ra', A.const(dt), 'ts'), f'{key}: end', f'{GR}: {getattr(s, "why", "")}'): continue
        pre, tg = groups(ts, ad, b[:1]+b[1:]+[Q(10)**300])
        got = [s.ret if s.call('gtg', e) else None for e in range(n)]
        c.holds('groups', got == tg, f'{key}: assignment', f'{GR}: groups {got} instead of {tg} for time steps {[str(x) for x in ts]}, intervals {[str(x) for x in b]}, adjacency {ad}')
        c.holds('intervals', s.call('gn') and s.ret == len(rates)+1, f'{key}: number of groups', f'{GR}: {s.ret} groups')
        for j, x in enumerate(b): c.same('intervals', f'{key}: begin of group {j}', A.lift(s.ret) if s.call('gint', j) else A.ZERO, A.const(x), GR)
        c.holds('intervals', s.call('gint', len(b)) and A.isc(A.lift(s.ret)) and A.lift(s.ret).a[0] > 10**300, f'{key}: end of the last group', f'{GR}: the last interval is bounded by {s.ret}')
        cnt = [s.ret if s.call('gel', j) else None for j in range(len(b))]
        c.holds('counts', cnt == [tg.count(j) for j in range(len(b))], f'{key}: elements', f'{GR}: {cnt} elements for groups {tg}')
        for f, z in ((0, n), (1, n-1), (n//2, n-n//2), (0, 0)):
            if z >= 0 and s.call('grg', f, z, 'rng'): c.holds('counts', [s.int('rng', j) for j in range(len(b))] == [tg[f:f+z].count(j) for j in range(len(b))], f'{key}: elements of {z} starting at {f}', f'{GR} nGroupEls: wrong numbers')
        if s.call('gsp'): c.same('counts', f'{key}: speed-up', A.lift(s.ret), A.const(Q(n)/sum(1/b[g] for g in tg)), GR)
    for what, rates, dt, want in (('rates', [Q(2), Q(3, 2)], Q(1), True), ('rate one', [Q(2), Q(1)], Q(1), False), ('rate below one', [Q(1, 2)], Q(1), False), ('rate above two', [Q(2), Q(2)+Q(1, 8)], Q(1), False), ('first rate above two', [Q(3), Q(2)], Q(1), False), ('no fundamental time step', [Q(2)], Q(0), False), ('negative fundamental time step', [Q(2)], Q(-1), False), ('fundamental time step above the smallest one', [Q(2)], Q(1)+Q(1, 64), False)):
        s = c.session([m]); s.put('ts', 0, A.const(Q(1)), 8, 'f')
        for f in range(3): s.put('ad', 8*f, -1, 8, 'i')
        for j, r in enumerate(rates): s.put('ra', 8*j, A.const(r), 8, 'f')
        c.holds('reject', s.call('mkg', 3, 1, 'ad', len(rates), 'ra', A.const(dt), 'ts') == want, what, f'{GR}: {"accepted" if not want else "rejected"}')
    for nm, (ty, nv, nf) in TY.items():
        s = c.session([m]); ids = [[(5*e+3*v) % 9 for v in range(nv)] for e in range(3)]
        for e in range(3):
            for v in range(nv): s.put('elVe', 8*(nv*e+v), ids[e][v], 8, 'i')
        for p in range(9): s.put('ve', 4*p, V(f'v{p}'), 4, 'f')
        if c.holds('models', s.call('ave', nv, 3, 'elVe', ('ve', 4), ('el', 4)), f'{nm}: averages', 'tools/edge_v/src/models/Model.cpp'):
            for e in range(3): c.same('models', f'{nm}: average of element {e}', s.get('el', e, 'f', 32), sum((V(f'v{p}') for p in ids[e]), A.ZERO)/A.const(nv), 'tools/edge_v/src/models/Model.cpp getElAve')
    s = c.session([m])
    for p in (0, 2):
        for mx in (A.TRUE, A.FALSE): c.same('models', f'constant {p} {mx is A.TRUE}', A.lift(s.ret) if s.call('cst', V('v'), p, mx) else A.ZERO, V('v'), 'tools/edge_v/src/models/Constant.cpp')
    return c.finish('time steps are compared as functions of diameters and wave speeds; assignments to time groups are interpreted over adjacency patterns and time steps at, below and above the limits of the intervals', ['exact arithmetic (rounding not modelled)'], 300)
if __name__ == '__main__': H.main('C21', body)
