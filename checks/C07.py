import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
V = A.var
CPP = r'''
#include <limits>
#include <algorithm>
#include "impl/swe/solvers/Fwave.hpp"
#include "impl/swe/solvers/FiniteVolume.hpp"
using namespace edge::swe::solvers;
struct Fa { double area; double outNormal[3]; int_spType spType; };
struct El { double volume; double inDia; };
template<t_entityType E, unsigned short R> struct X {
  typedef FiniteVolume<E,R> F; static const unsigned short Q = C_ENT[E].N_DIM + 1, N = C_ENT[E].N_FACES;
  static void n(long f, long s, long const (*faEl)[2], Fa const *fa, double const (*d)[Q][1][R], double const (*b)[1][1], double (*o)[2][2][R]) { F::nusN(f, s, faEl, fa, d, b, o); }
  static void u(long f, long s, double dt, long const (*faEl)[2], long const (*elFa)[N], Fa const *fa, El const *el, double const (*nu)[2][2][R], double (*d)[Q][1][R]) { F::update(f, s, dt, faEl, elFa, fa, el, nu, d); }
};
extern "C" {
  void fw1(double *hL, double *hR, double *uL, double *uR, double bL, double bR, double (*oL)[1], double (*oR)[1], double g) { Fwave<1>::nusN(hL, hR, uL, uR, bL, bR, oL, oR, g); }
  void fwd(double *hL, double *hR, double *uL, double *uR, double bL, double bR, double (*oL)[1], double (*oR)[1]) { Fwave<1>::nusN(hL, hR, uL, uR, bL, bR, oL, oR); }
  void fw3(double *hL, double *hR, double *uL, double *uR, double bL, double bR, double (*oL)[3], double (*oR)[3], double g) { Fwave<3>::nusN(hL, hR, uL, uR, bL, bR, oL, oR, g); }
  double cfl1(double h, double hu, double d, double g, double c) { return FiniteVolume<LINE,1>::computeCflTimeStep(h, hu, d, g, c); }
  double cfl2(double h, double hu, double d, double g, double c) { return FiniteVolume<QUAD4R,1>::computeCflTimeStep(h, hu, d, g, c); }
  void st1(El *e, double (*d)[2][1][1], double *o) { FiniteVolume<LINE,1>::getTimeStepStatistics(2L, e, d, o[0], o[1], o[2]); }
  void st2(El *e, double (*d)[3][1][2], double *o) { FiniteVolume<QUAD4R,2>::getTimeStepStatistics(1L, e, d, o[0], o[1], o[2]); }
#define ENT(E,R,T) \
  void nus_##T(long f, long s, long const (*faEl)[2], Fa const *fa, double const (*d)[X<E,R>::Q][1][R], double const (*b)[1][1], double (*o)[2][2][R]) { X<E,R>::n(f, s, faEl, fa, d, b, o); } \
  void upd_##T(long f, long s, double dt, long const (*faEl)[2], long const (*elFa)[X<E,R>::N], Fa const *fa, El const *el, double const (*nu)[2][2][R], double (*d)[X<E,R>::Q][1][R]) { X<E,R>::u(f, s, dt, faEl, elFa, fa, el, nu, d); }
  ENT(LINE,1,l1) ENT(LINE,2,l2) ENT(QUAD4R,1,q1) ENT(TRIA3,2,t2) ENT(TRIA3,1,t1)
  long sp[] = { REFLECTING, OUTFLOW };
}
'''
def fwave(hL, hR, mL, mR, bL, bR, g):
    """net-updates of the f-wave solver with Einfeldt speeds: flux jump plus bathymetry source, decomposed into two waves"""
    uL, uR = mL/hL, mR/hR
    sL, sR = A.sqrt(hL), A.sqrt(hR)
    ur = (sL*uL + sR*uR)/(sL + sR); cr = A.sqrt(g*(hL+hR)*A.const(A.Fraction(1, 2)))
    mn = lambda a, b: A.ite(A.lt(b, a), b, a)
    mx = lambda a, b: A.ite(A.lt(a, b), b, a)
    l0, l1 = mn(uL - A.sqrt(g*hL), ur - cr), mx(uR + A.sqrt(g*hR), ur + cr)
    h = A.const(A.Fraction(1, 2))
    f0 = mR - mL
    f1 = mR*uR + h*g*hR*hR - mL*uL - h*g*hL*hL + h*g*(hL+hR)*(bR-bL)
    b0, b1 = (l1*f0 - f1)/(l1-l0), (f1 - l0*f0)/(l1-l0)
    c0, c1 = A.lt(l0, A.ZERO), A.gt(l1, A.ZERO)
    L = [A.ite(c0, b0, A.ZERO) + A.ite(c1, A.ZERO, b1), A.ite(c0, b0*l0, A.ZERO) + A.ite(c1, A.ZERO, b1*l1)]
    R = [A.ite(c0, A.ZERO, b0) + A.ite(c1, b1, A.ZERO), A.ite(c0, A.ZERO, b0*l0) + A.ite(c1, b1*l1, A.ZERO)]
    return L, R, (f0, f1), (l0, l1)
def body(c):
    fl = B.edge_flags('swe', 'QUAD4R', 1, 64, 1)
    mods = [c.driver(CPP, fl, 'impl/swe/solvers')]
    pos = {'hL', 'hR', 'g', 'h'}
    W = 'src/impl/swe/solvers/Fwave.hpp Fwave::nusN'
    def pre(**kw):
        def setup(it, st):
            for nm, vals in kw.items():
                for i, v in enumerate(vals): st.wr(it.inputs[nm]).cells[8*i] = (8, v, 'f')
            return st
        return setup
    def run(hL, hR, mL, mR, bL, bR, g):
        r = c.run(mods, 'fw1', ['a', 'b', 'c', 'd', bL, bR, 'l', 'r', g], pos=pos, setup=pre(a=[hL], b=[hR], c=[mL], d=[mR]))
        return r.vec('l', 2), r.vec('r', 2)
    hL, hR, mL, mR, bL, bR, g = [V(x) for x in ('hL', 'hR', 'mL', 'mR', 'bL', 'bR', 'g')]
    L, R = run(hL, hR, mL, mR, bL, bR, g)
    eL, eR, fj, lam = fwave(hL, hR, mL, mR, bL, bR, g)
    c.rule('conservation', 'left and right net-updates add up to the jump of the physical flux plus the bathymetry source')
    for q, nm in enumerate(('mass', 'momentum')): c.same('conservation', nm, L[q]+R[q], fj[q], W, pos=pos)
    c.rule('f-wave', 'net-updates are those of the f-wave solver with Einfeldt speeds: each wave updates only the side it travels into')
    for q in range(2):
        c.same('f-wave', f'left {q}', L[q], eL[q], W, pos=pos); c.same('f-wave', f'right {q}', R[q], eR[q], W, pos=pos)
    c.rule('lake-at-rest', 'still water over any bathymetry is not changed')
    l, r = run(hL, hR, A.ZERO, A.ZERO, bL, bL+hL-hR, g)
    for q in range(2): c.same('lake-at-rest', f'left {q}', l[q], 0, W, pos=pos); c.same('lake-at-rest', f'right {q}', r[q], 0, W, pos=pos)
    c.rule('constant', 'equal states on both sides are not changed')
    l, r = run(hL, hL, mL, mL, bL, bL, g)
    for q in range(2): c.same('constant', f'left {q}', l[q], 0, W, pos=pos); c.same('constant', f'right {q}', r[q], 0, W, pos=pos)
    c.rule('mirror', 'mirroring the problem mirrors the net-updates')
    l, r = run(hR, hL, A.neg(mR), A.neg(mL), bR, bL, g)
    # (on the measure-zero sets where a wave speed vanishes both assignments are admitted by the f-wave rule above)
    strict = lambda e: any(v == 0 for k, v in e.items() if k[0] == 'sgn')
    for a, b, nm in ((l, R, 'left'), (r, L, 'right')):
        c.same('mirror', nm+' mass', a[0], b[0], W, pos=pos, prune=strict); c.same('mirror', nm+' momentum', a[1], A.neg(b[1]), W, pos=pos, prune=strict)
    # default gravity
    c.rule('gravity', 'every part of the solver uses the same gravity; its default is 9.80665')
    rd = c.run(mods, 'fwd', ['a', 'b', 'c', 'd', bL, bR, 'l', 'r'], pos=pos, setup=pre(a=[hL], b=[hR], c=[mL], d=[mR]))
    gd = A.const(A.Fraction(9.80665))
    eL, eR, _, _ = fwave(hL, hR, mL, mR, bL, bR, gd)
    for q in range(2):
        c.same('gravity', f'left {q}', rd.f64('l', q), eL[q], W, pos=pos); c.same('gravity', f'right {q}', rd.f64('r', q), eR[q], W, pos=pos)
    c.rule('runs', 'fused simulations do not influence each other: each equals the single one')
    P3 = {f'{n}[{i}]' for n in 'ab' for i in range(3)} | {'g'}
    r3 = c.run(mods, 'fw3', ['a', 'b', 'c', 'd', bL, bR, 'l', 'r', g], pos=P3)
    for i in range(3):
        eL3, eR3, _, _ = fwave(V(f'a[{i}]'), V(f'b[{i}]'), V(f'c[{i}]'), V(f'd[{i}]'), bL, bR, g)
        for q in range(2):
            c.same('runs', f'f-wave run {i} left {q}', r3.f64('l', q*3+i), eL3[q], W, pos=P3); c.same('runs', f'f-wave run {i} right {q}', r3.f64('r', q*3+i), eR3[q], W, pos=P3)
    # ---- time step
    c.rule('cfl', 'the stable step of a wet cell is cfl * inscribed diameter / (|u| + sqrt(g h)) / dimensions; dry cells do not limit it')
    h, hu, d, cf = V('h'), V('hu'), V('d'), V('cf')
    WF = 'src/impl/swe/solvers/FiniteVolume.hpp '
    MAX = A.const(A.Fraction(sys.float_info.max))
    for dim in (1, 2):
        for wet in (True, False):
            p = {'h', 'g', 'd', 'cf'} if wet else {'g', 'd', 'cf'}
            hh = h if wet else A.neg(h)
            r = I.term(c.run(mods, f'cfl{dim}', [hh, hu, d, g, cf], pos=p | {'h'}).ret)
            c.same('cfl', f'{dim}D wet={wet}', r, cf*d/(A.abs_(hu/h) + A.sqrt(g*h))/dim if wet else MAX, WF+'computeCflTimeStep', pos=p | {'h'})
        r0 = I.term(c.run(mods, f'cfl{dim}', [A.ZERO, hu, d, g, cf], pos={'g', 'd', 'cf'}).ret)
        c.same('cfl', f'{dim}D empty', r0, MAX, WF+'computeCflTimeStep')
    # statistics: two wet line elements / one wet quad with two fused runs
    def ts(hh, mom, dia, dim): return A.const(A.Fraction(0.9))*dia/(mom/hh + A.sqrt(gd*hh))/dim
    P = {f'd[{i}]' for i in range(6)} | {f'e[{i}]' for i in range(4)}
    r = c.run(mods, 'st1', ['e', 'd', 'o'], pos=P)
    a, b = [ts(V(f'd[{2*k}]'), A.abs_(V(f'd[{2*k+1}]')), V(f'e[{2*k+1}]'), 1) for k in range(2)]
    mn = lambda a, b: A.ite(A.lt(b, a), b, a)
    mx = lambda a, b: A.ite(A.lt(a, b), b, a)
    nomax = None
    for i, (nm, e) in enumerate((('min', mn(mn(MAX, a), b)), ('average', (a+b)*A.const(A.Fraction(1, 2))), ('max', mx(mx(A.ZERO, a), b)))):
        got = r.f64('o', i)
        # steps are far below the largest number
        bounded = lambda e: any(k[0] == 'sgn' and bigsign(k, v) for k, v in e.items())
        c.same('cfl', f'statistics line {nm}', got, e, WF+'getTimeStepStatistics', pos=P, prune=bounded)
    r = c.run(mods, 'st2', ['e', 'd', 'o'], pos=P)
    mom = lambda k: A.sqrt(V(f'd[{2+k}]')*V(f'd[{2+k}]') + V(f'd[{4+k}]')*V(f'd[{4+k}]'))
    P2 = {'d[0]', 'd[1]', 'e[0]', 'e[1]'}
    P2 = P  # momenta positive: the norm is symmetric in their signs
    a, b = [ts(V(f'd[{k}]'), mom(k), V('e[1]'), 2) for k in range(2)]
    e = mn(a, b)
    for i, nm in enumerate(('min', 'average', 'max')):
        c.same('cfl', f'statistics quad {nm}', r.f64('o', i), e, WF+'getTimeStepStatistics', pos=P2, prune=bounded)
    # ---- faces
    sp = I.Interp(mods)
    o = sp.glob_obj(mods[0].globs['sp']); RFL, OUT = [sp.load(I.State(), I.Ptr(o, 8*i), sp.mkty((8, 0, 'i'))) for i in range(2)]
    c.rule('face', 'a face solves the normal problem of its two elements; reflecting walls mirror the normal momentum, outflow copies the state, dry (b >= 0) neighbours act as walls and dry elements get no update')
    WN = WF+'nusN'
    for ent, dim, R in (('l1', 1, 1), ('l2', 1, 2), ('q1', 2, 1), ('t2', 2, 2)):
        Q = dim+1
        for bc in ('none', 'reflecting', 'outflow', 'right dry', 'left dry', 'both dry'):
            bl, br = A.neg(V('dl')), A.neg(V('dr'))
            if bc in ('left dry', 'both dry'): bl = V('dl')
            if bc in ('right dry', 'both dry'): br = V('dr')
            P = {'dl', 'dr'} | {f'w{e}{r}' for e in range(2) for r in range(R)}
            def setup(it, st):
                def put(o, off, v, w=8, k='f'): st.wr(it.inputs[o]).cells[off] = (w, v, k)
                # faces 3 and 4, elements 5 (left) and 2 (right) of face 3; face 4 swaps them
                for f, (a, b) in ((3, (5, 2)), (4, (2, 5))):
                    wall = bc in ('reflecting', 'outflow')
                    put('faEl', 16*f, a, 8, 'i'); put('faEl', 16*f+8, -1 if wall else b, 8, 'i')
                    for k in range(dim): put('fa', 40*f+8+8*k, V(f'n{k}') if f == 3 else A.neg(V(f'n{k}')))
                    put('fa', 40*f+32, {'reflecting': RFL, 'outflow': OUT}.get(bc, 0), 8, 'i')
                for e, el in ((0, 5), (1, 2)):
                    put('b', 8*el, bl if e == 0 else br)
                    for r in range(R):
                        put('d', 8*(el*Q*R+r), V(f'w{e}{r}'))
                        for k in range(dim): put('d', 8*((el*Q+1+k)*R+r), V(f'm{e}{k}{r}'))
                return st
            res = c.run(mods, 'nus_'+ent, [3, 2, ('faEl', 8), 'fa', 'd', 'b', 'o'], pos=P, setup=setup)
            for f, sw in ((3, 0), (4, 1)):
                for r in range(R):
                    sg = -1 if sw else 1
                    mom = [sum((V(f'n{k}')*V(f'm{e}{k}{r}') for k in range(dim)), A.ZERO)*sg for e in range(2)]
                    hh = [V(f'w{e}{r}') for e in range(2)]; bb = [bl, br]
                    if sw: mom.reverse(); hh.reverse(); bb.reverse()
                    if bc in ('reflecting', 'outflow'):
                        hh[1] = hh[0]; bb[1] = bb[0]; mom[1] = A.neg(mom[0]) if bc == 'reflecting' else mom[0]
                    dryL, dryR = (bc in ('left dry', 'both dry')), (bc in ('right dry', 'both dry'))
                    if sw: dryL, dryR = dryR, dryL
                    if dryL and not dryR: hh[0], bb[0], mom[0] = hh[1], bb[1], A.neg(mom[1])
                    if dryR and not dryL: hh[1], bb[1], mom[1] = hh[0], bb[0], A.neg(mom[0])
                    q_ = c.run(mods, 'fwd', ['a', 'b', 'c', 'd', bb[0], bb[1], 'l', 'r'], pos=P, setup=pre(a=[hh[0]], b=[hh[1]], c=[mom[0]], d=[mom[1]]))
                    eL, eR = q_.vec('l', 2), q_.vec('r', 2)
                    if dryL: eL = [A.ZERO]*2
                    if dryR: eR = [A.ZERO]*2
                    for q in range(2):
                        for sd, e in ((0, eL), (1, eR)):
                            c.same('face', f'{ent} {bc} face {f} side {sd} quantity {q} run {r}', res.f64('o', ((f*2+sd)*2+q)*R+r), e[q], WN, pos=P)
    # walls are impermeable: boundary flux of mass = m + update = 0
    c.rule('wall', 'no mass crosses a reflecting wall')
    l, r = run(hL, hL, mL, A.neg(mL), bL, bL, g)
    # mirrored states have opposite speeds, the slower of which is negative
    c.same('wall', 'mass flux', l[0] + mL, 0, W, pos=pos, prune=lambda e: impossible(e, hL, mL, g, pos))
    # ---- update
    c.rule('update', 'each element changes by -dt/volume times area times the net-updates of its faces, on its side of the face, momentum along the normal')
    WU = WF+'update'
    for ent, dim, R, NF in (('l1', 1, 1, 2), ('q1', 2, 1, 4), ('t2', 2, 2, 3)):
        Q = dim+1; el0 = 4
        fas = [7, 3, 9, 5][:NF]
        def setup(it, st):
            def put(o, off, v, w=8, k='f'): st.wr(it.inputs[o]).cells[off] = (w, v, k)
            for e in range(2):
                for a in range(NF):
                    f = fas[a] + 20*e
                    put('elFa', 8*((el0+e)*NF+a), f, 8, 'i')
                    left = (a + e) % 2 == 0
                    put('faEl', 16*f, el0+e if left else 77, 8, 'i'); put('faEl', 16*f+8, 77 if left else el0+e, 8, 'i')
                    put('fa', 40*f, V(f'A{f}'))
                    for k in range(dim): put('fa', 40*f+8+8*k, V(f'N{f}{k}'))
                put('el', 16*(el0+e), V(f'vol{e}'))
            return st
        res = c.run(mods, 'upd_'+ent, [el0, 2, V('dt'), ('faEl', 8), ('elFa', 8), 'fa', 'el', 'nu', 'd'], pos={'vol0', 'vol1'}, setup=setup)
        for e in range(2):
            for r in range(R):
                for q in range(Q):
                    acc = A.ZERO
                    for a in range(NF):
                        f = fas[a] + 20*e; sd = 0 if (a + e) % 2 == 0 else 1
                        nu = V(f'nu[{((f*2+sd)*2+min(q,1))*R+r}]')
                        acc = acc + V(f'A{f}')*nu*(V(f'N{f}{q-1}') if q else A.ONE)
                    i = ((el0+e)*Q+q)*R+r
                    c.same('update', f'{ent} element {e} quantity {q} run {r}', res.f64('d', i), V(f'd[{i}]') - V('dt')/V(f'vol{e}')*acc, WU)
        for i in list(range(0, el0*Q*R)) + list(range((el0+2)*Q*R, (el0+3)*Q*R)):
            c.same('update', f'{ent} untouched {i}', res.f64('d', i), V(f'd[{i}]'), WU)
    return c.finish('the f-wave solver, boundary handling, cell update and CFL condition of the shallow water implementation are evaluated with all states unknown and compared with the governing equations',
                    ['real arithmetic', 'water columns of wet cells are positive'], min_obl=150)
BIG = 10**250
def bigsign(k, v):
    """a case that claims a time step exceeds the largest representable number (all quantities are positive here)"""
    p = dict(k[1]); m = max(abs(x) for x in p.values())
    rest = [x for x in p.values() if abs(x)*BIG > m]
    return len(rest) < len(p) and len({x > 0 for x in rest}) == 1 and (rest[0] > 0) != (v > 0)
def impossible(e, hL, mL, g, pos):
    return False
if __name__ == '__main__': H.main('C07', body)
