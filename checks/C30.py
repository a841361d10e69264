import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
V = A.var
CPP = r'''
#include <cmath>
#include <algorithm>
#include <cstddef>
#include "constants.hpp"
#include "impl/seismic/solvers/FrictionLaws.hpp"
using namespace edge::seismic::solvers;
template<int D, int R> struct S {
  struct FD { t_LinSlipWeakGlobal<double, R> *gl; t_LinSlipWeakFace<double> *fa; t_LinSlipWeakSubFace<double, D, R> (*sf)[3]; };
};
#define F(D, R, Q) \
  extern "C" void p##D##R(unsigned short sf, double dt, double const (*ms)[R], t_LinSlipWeakGlobal<double, R> *gl, t_LinSlipWeakFace<double> *fa, t_LinSlipWeakSubFace<double, D, R> (*s)[3], double (*l)[R], double (*r)[R], bool *per) { \
    S<D, R>::FD d = {gl, fa, s}; FrictionLaws<D, R>::perturb(sf, dt, ms, &d, l, r, per); } \
  extern "C" { unsigned long o##D##R[] = { sizeof(t_LinSlipWeakSubFace<double, D, R>), O(D, R, sn0), O(D, R, co0), O(D, R, ss0), O(D, R, ss0A), O(D, R, muf), O(D, R, st), O(D, R, tr), O(D, R, sr), O(D, R, dd), offsetof(T_G(R), mus), offsetof(T_G(R), mud), offsetof(T_G(R), dcInv) }; }
#define COMMA ,
#define T_G(R) t_LinSlipWeakGlobal<double COMMA R>
#define O(D, R, m) offsetof(t_LinSlipWeakSubFace<double COMMA D COMMA R>, m)
F(2, 1, 5) F(2, 2, 5) F(3, 1, 9) F(3, 2, 9)
extern "C" { unsigned long oF[] = { offsetof(t_LinSlipWeakFace<double>, lEqM), offsetof(t_LinSlipWeakFace<double>, csDmuM), offsetof(t_LinSlipWeakFace<double>, csDmuP) }; }
'''
IB = r'''
#include <cmath>
#include <limits>
#include <algorithm>
#include <sstream>
#include <fstream>
#include <iostream>
#include <cstddef>
#include "constants.hpp"
#include "io/logging.h"
#define private public
#include "impl/seismic/common.hpp"
#include "sc/ibnd/InternalBoundary.type"
#include "impl/seismic/solvers/InternalBoundary.hpp"
#undef private
using namespace edge::seismic::solvers;
const t_entityType EL = T_SDISC.ELEMENT;
typedef InternalBoundarySolvers<EL, 2> S;
const int Q = N_QUANTITIES, D = N_DIM, NV = C_ENT[EL].N_VERTICES, NF = C_ENT[EL].N_FACES, NS = CE_N_SUB_FACES(EL, 2);
typedef std::size_t U;
struct Fa { double outNormal[3], tangent0[3], tangent1[3], area; U spType; };
struct Ele { double volume; };
struct Bg { double lam, mu, rho; };
struct K { void operator()(double const *a, double const *b, double *o) const {
  for (int i = 0; i < Q; i++) for (int j = 0; j < NS*2; j++) { double s = 0; for (int k = 0; k < Q; k++) s += a[i*Q+k]*b[k*NS*2+j]; o[i*NS*2+j] = s; } } };
struct MM { K m_kernels[1][6]; };
struct Solv { // some friction law: perturbs the two sides differently
  static void perturb(unsigned short sf, double dt, double const (*ms)[2], double *fd, double (*l)[2], double (*r)[2], bool *per) {
    for (int q = 0; q < Q; q++) for (int c = 0; c < 2; c++) { l[q][c] = ms[q][c] + fd[0]; r[q][c] = ms[q][c]*fd[1+sf]; }
    per[0] = sf % 2; per[1] = !per[0]; } };
extern "C" {
  void jl(double a, double b, double c, double d, double e, double f, double (*o)[Q]) { S::solvMsJumpL(a, b, c, d, e, f, o); }
  void jr(double a, double b, double c, double d, double e, double f, double (*o)[Q]) { S::solvMsJumpR(a, b, c, d, e, f, o); }
#if PP_N_DIM == 2
  void fx(double *n, double *, double *, double l, double m, double r, double (*o)[Q]) { S::solvMsFlux(n[0], n[1], l, m, r, o); }
  void tr(double *n, double *, double *, double (*o)[Q], double (*i)[Q]) { edge::seismic::common::setupTrafo2d(n[0], n[1], o); edge::seismic::common::setupTrafoInv2d(n[0], n[1], i); }
#else
  void fx(double *n, double *s, double *t, double l, double m, double r, double (*o)[Q]) { S::solvMsFlux(n[0], n[1], n[2], s[0], s[1], s[2], t[0], t[1], t[2], l, m, r, o); }
  void tr(double *n, double *s, double *t, double (*o)[Q], double (*i)[Q]) { edge::seismic::common::setupTrafo3d(n[0], n[1], n[2], s[0], s[1], s[2], t[0], t[1], t[2], o); edge::seismic::common::setupTrafoInv3d(n[0], n[1], n[2], s[0], s[1], s[2], t[0], t[1], t[2], i); }
#endif
  void in(U n, U sp, U const (*fe)[2], U const (*ev)[NV], Fa const *f, Ele const *e, Bg const *b, double (*o)[4][Q][Q], double (*c)[D]) { S::init(n, sp, fe, ev, f, e, b, o, c); }
  void nu(double (*t)[Q], double (*j)[Q], double (*fl)[Q], double (*fr)[Q], double (*l)[NS][2], double (*r)[NS][2], double (*ol)[NS][2], double (*orr)[NS][2], bool (*per)[2], double dt, double *fd) {
    MM mm; InternalBoundary<EL, Q, 2, 2>::netUpdates<double, MM, Solv, double>(t, j, fl, fr, l, r, ol, orr, per, mm, dt, fd); }
  unsigned long lay[] = { sizeof(Fa), offsetof(Fa, outNormal), offsetof(Fa, tangent0), offsetof(Fa, tangent1), offsetof(Fa, area), offsetof(Fa, spType), (unsigned long)NS, CE_N_SUB_CELLS(EL, 2) };
}
'''
def glob(mods, nm, n, k='i'):
    it = I.Interp(mods); o = it.glob_obj(mods[0].globs[nm])
    return [it.load(I.State(), I.Ptr(o, 8*i), it.mkty((8, 0, k))) for i in range(n)]
W = 'src/impl/seismic/solvers/FrictionLaws.hpp FrictionLaws::perturb'
def body(c):
    c.rule('strength', 'strength of the fault = -(mu_f * total normal stress + cohesion), none in tension')
    c.rule('failure', 'the fault slips exactly where the total shear stress exceeds the strength; locked, it does not change the state')
    c.rule('traction', 'a slipping fault carries its strength in the direction of the total shear stress; both sides share it')
    c.rule('velocity', 'the jump in traction changes the fault-parallel velocities by csDmu of the minus and of the plus side, with opposite signs; nothing else changes')
    c.rule('slip', 'slip rate = plus minus minus velocity; slip accumulates |slip rate| * dt')
    c.rule('friction', 'mu_f falls linearly from mu_s to mu_d over the critical slip distance, and stays at mu_d')
    c.rule('isolation', 'only the sub-face asked for changes')
    fl = B.edge_flags('elastic', 'TRIA3', 2, 64, 1)
    mods = [c.driver(CPP, fl, 'friction laws')]
    oL, oM, oP = glob(mods, 'oF', 3)
    n = 0
    def scen(D, R, sf, lEqM, nm, vals):
        """vals[run] = dict(sn0, co0, ss0 tuple, muf, dd tuple, mus, mud, dcInv, ms list)"""
        sz, sn, co, ss, sA, mf, st_, tr, sr, dd, gs, gd, gc = glob(mods, f'o{D}{R}', 13)
        Q = 5 if D == 2 else 9; SH = (2,) if D == 2 else (3, 5); VE = (4,) if D == 2 else (7, 8)
        def setup(it, st):
            def put(o, off, v, w=8, k='f'):
                st.wr(it.inputs[o]).cells[off] = (w, v, k)
            b = sf*sz
            put('fa', oL, int(lEqM), 1, 'i'); put('fa', oM, V('cM')); put('fa', oP, V('cP'))
            for r in range(R):
                x = vals[r]
                for g, k in ((gs, 'mus'), (gd, 'mud'), (gc, 'dcInv')): put('gl', g+8*r, x[k])
                put('s', b+sn+8*r, x['sn0']); put('s', b+co+8*r, x['co0']); put('s', b+mf+8*r, x['muf'])
                for d in range(D-1):
                    put('s', b+ss+8*(d*R+r), x['ss0'][d]); put('s', b+dd+8*(d*R+r), x['dd'][d])
                put('s', b+sA+8*r, A.sqrt(sum((a*a for a in x['ss0']), A.ZERO)))
                for q in range(Q): put('ms', 8*(q*R+r), x['ms'][q])
            return st
        pos = {'cM', 'cP', 'dt'} | {f'{k}{r}' for k in ('dc', 'dro') for r in range(R)}
        r_ = c.run(mods, f'p{D}{R}', [sf, V('dt'), ('ms', 8), 'gl', 'fa', 's', ('l', 8), ('r', 8), ('per', 1)], pos=pos, setup=setup)
        g = lambda o, off, w=64, k='f': r_.get(o, off*8//w, k, w)
        for r in range(R):
            x = vals[r]; key = f'{D}D, {R} runs, run {r}, sub-face {sf}, left is {"minus" if lEqM else "plus"}, {nm}'
            kw = dict(pos=pos)
            raw = x['muf']*(x['sn0']+x['ms'][0]) + x['co0']
            S = A.ite(A.lt(raw, A.ZERO), A.neg(raw), A.ZERO)
            tot = [x['ss0'][d]+x['ms'][SH[d]] for d in range(D-1)]
            mag = A.abs_(tot[0]) if D == 2 else A.sqrt(tot[0]*tot[0]+tot[1]*tot[1])
            fail = A.gt(mag, S)
            b = sf*sz
            c.same('strength', key, g('s', b+st_+8*r), S, W, **kw)
            c.same('failure', key, I.term(r_.get('per', r, 'i', 8)), A.ite(fail, A.ONE, A.ZERO), W, **kw)
            M, P = ('l', 'r') if lEqM else ('r', 'l')
            da, sra, dda = [], [], []
            for d in range(D-1):
                t = A.ite(fail, (A.ite(A.gt(tot[0], A.ZERO), S, A.neg(S)) if D == 2 else tot[d]*S/mag), tot[d])
                c.same('traction', f'{key} output {d}', g('s', b+tr+8*(d*R+r)), t, W, **kw)
                dl = t - tot[d]
                da.append(dl)
                for s_, sg in ((M, -1), (P, 1)):
                    c.same('traction', f'{key} {"minus" if s_==M else "plus"} side {d}', r_.f64(s_, SH[d]*R+r), t-x['ss0'][d], W, **kw)
                    c.same('velocity', f'{key} {"minus" if s_==M else "plus"} side {d}', r_.f64(s_, VE[d]*R+r), x['ms'][VE[d]] + A.const(sg)*V('cM' if s_ == M else 'cP')*dl, W, **kw)
                rate = (V('cM')+V('cP'))*dl
                nd = x['dd'][d] + A.abs_(rate)*V('dt')
                c.same('slip', f'{key} rate {d}', g('s', b+sr+8*(d*R+r)), rate, W, **kw)
                c.same('slip', f'{key} slip {d}', g('s', b+dd+8*(d*R+r)), nd, W, **kw)
                dda.append(nd)
            for q in range(Q):
                if q in SH+VE: continue
                for s_ in 'lr': c.same('velocity', f'{key} {s_} other quantity {q}', r_.f64(s_, q*R+r), x['ms'][q], W, **kw)
            dist = dda[0] if D == 2 else A.sqrt(dda[0]*dda[0]+dda[1]*dda[1])
            lin = x['mus'] - (x['mus']-x['mud'])*x['dcInv']*dist
            c.same('friction', key, g('s', b+mf+8*r), A.ite(A.lt(x['mud'], lin), lin, x['mud']), W, **kw)
            # inputs
            c.same('isolation', f'{key} initial normal stress', g('s', b+sn+8*r), x['sn0'], W, **kw)
            for d in range(D-1): c.same('isolation', f'{key} initial shear stress {d}', g('s', b+ss+8*(d*R+r)), x['ss0'][d], W, **kw)
        for off in list(r_.st.get(r_.it.inputs['s']).cells):
            if isinstance(off, int): c.holds('isolation', b <= off < b+sz, f'{D}D {R} {sf} {nm} cell {off}', f'{W}: another sub-face is written at byte {off}')
    K = lambda x: A.const(A.Fraction(x))
    def sym(D, r, **fix):
        x = dict(sn0=V(f'sn{r}'), co0=V(f'co{r}'), muf=V(f'mf{r}'), mus=V(f'mud{r}')+V(f'dro{r}'), mud=V(f'mud{r}'), dcInv=V(f'dc{r}'),
                 ss0=tuple(V(f'ss{r}{d}') for d in range(D-1)), dd=tuple(V(f'dd{r}{d}') for d in range(D-1)), ms=[V(f'm{r}{q}') for q in range(5 if D == 2 else 9)])
        for k, v in fix.items(): x[k] = v
        return x
    for lEqM in (True, False):
        for sf in range(3): scen(2, 1, sf, lEqM, 'unknown state', [sym(2, 0)])
        scen(2, 2, 1, lEqM, 'unknown state', [sym(2, 0), sym(2, 1)])
        scen(3, 1, 1, lEqM, 'unknown state', [sym(3, 0)])
        scen(3, 2, 2, lEqM, 'unknown state', [sym(3, 0), sym(3, 1)])
    c.rule('middle state', 'the jump solvers keep the waves of their side (left-going of the left, right-going of the right material) and drop those of the other side')
    c.rule('flux', 'the flux of the middle state is A_x q in face-aligned coordinates, rotated back')
    c.rule('faces', 'each fault face gets rotation, jump and flux solvers of its own materials and extents, in order; with a preferred direction, normals and signs follow it')
    c.rule('update', 'a net-update is -+dt * flux solver * perturbed middle state of its own side, sub-face and run')
    FLS = {el: B.edge_flags('elastic', el, 2, 64, 1) for el in ('TRIA3', 'QUAD4R', 'TET4', 'HEX8R')}
    c.prefetch([(None, f, IB) for f in FLS.values()])
    for el, fl in FLS.items(): boundary(c, el, [c.driver(IB, fl, f'internal boundary {el}')])
    return c.finish('the linear slip weakening law is evaluated for unknown stresses, strengths, slips and parameters in 2D and 3D and compared with its equations in every case (locked, slipping, tension, either direction); the middle-state solvers, their set-up and the net-updates of fault faces are evaluated with unknown materials and values',
                    ['real arithmetic'], min_obl=800)
WI = 'src/impl/seismic/solvers/InternalBoundary.hpp'
def boundary(c, el, mods):
    D = 2 if el in ('TRIA3', 'QUAD4R') else 3; Q = 5 if D == 2 else 9; nS = 3 if D == 2 else 6
    sz, oN, oT0, oT1, oA, oSp, NS, NC = glob(mods, 'lay', 8)
    mat = {s: {k: V(k+s) for k in ('lam', 'mu', 'rho')} for s in 'LR'}
    pos = {k+s for s in 'LR' for k in ('lam', 'mu', 'rho')} | {'area', 'vol0', 'vol1', 'area1', 'area2'}
    def waves(m, sg):
        '''eigenvectors of waves of speed sg*c'''
        cp, cs = A.sqrt((m['lam']+2*m['mu'])/m['rho']), A.sqrt(m['mu']/m['rho'])
        out = []
        for k in range(D):
            w = [A.ZERO]*Q; w[nS+k] = A.ONE; g = A.const(-sg)
            if k == 0:
                w[0] = g*(m['lam']+2*m['mu'])/cp
                for i in range(1, D): w[i] = g*m['lam']/cp
            else: w[(2,)[k-1] if D == 2 else (3, 5)[k-1]] = g*m['mu']/cs
            out.append(w)
        return out
    def still():
        out = []
        for i in ((1,) if D == 2 else (1, 2, 4)):
            w = [A.ZERO]*Q; w[i] = A.ONE; out.append(w)
        return out
    first = el in ('TRIA3', 'TET4')
    def jump(fn, a, b):
        r = c.run(mods, fn, [x for k in ('lam', 'mu', 'rho') for x in (a[k], b[k])]+['o'], pos=pos); return r.mat('o', Q, Q)
    if first:
        for fn, keep, drop, sg in (('jl', waves(mat['L'], -1), waves(mat['R'], 1), 1), ('jr', waves(mat['R'], 1), waves(mat['L'], -1), -1)):
            m = jump(fn, mat['L'], mat['R'])
            for nm, ws, f in (('kept', keep, sg), ('dropped', drop, 0), ('still', still(), 0)):
                for k, w in enumerate(ws):
                    for i, v in enumerate(H.matmul(m, [[x] for x in w])):
                        c.same('middle state', f'{D}D {fn} {nm} wave {k} quantity {i}', v[0], w[i]*f, f'{WI} solvMsJump{fn[1].upper()}', pos=pos)
    def axes(n, s, t):
        def setup(it, st):
            for o, v in (('n', n), ('s', s), ('t', t)):
                for d in range(D): st.wr(it.inputs[o]).cells[8*d] = (8, A.lift(v[d]), 'f')
            return st
        return setup
    from checks.C05 import jac
    def flux(n, s, t, m):
        r = c.run(mods, 'tr', ['n', 's', 't', 'o', 'i'], pos=pos, setup=axes(n, s, t))
        return H.matmul(r.mat('o', Q, Q), jac(D, m['rho'], m['lam'], m['mu'])[0]), r.mat('i', Q, Q)
    def sv(x): return [V(f'{x}{d}') for d in range(D)]
    def un(x):
        '''unit vector (2D) for any angle but pi'''
        if D == 3: return sv(x)
        p = V(f'p{x}'); d = A.ONE + p*p
        return [(A.ONE-p*p)/d, 2*p/d]
    if first:
        r = c.run(mods, 'fx', ['n', 's', 't', mat['L']['lam'], mat['L']['mu'], mat['L']['rho'], 'o'], pos=pos, setup=axes(un('n'), sv('s'), sv('t')))
        c.samemat('flux', f'{D}D', r.mat('o', Q, Q), flux(un('n'), sv('s'), sv('t'), mat['L'])[0], f'{WI} solvMsFlux', pos=pos)
    # ---- set-up
    F = A.Fraction; k_ = lambda v: [A.const(F(x)) for x in v]
    MAX = -1   # numeric_limits<size_t>::max()
    def scen(nm, normals, crds, els=((0, 1), (0, 1), (1, 0))):
        '''three faces, the first is not part of the boundary'''
        T0 = {i: sv(f's{i}') for i in range(3)}; T1 = {i: sv(f't{i}') for i in range(3)}
        def setup(it, st):
            def put(o, off, v, w=8, k='f'): st.wr(it.inputs[o]).cells[off] = (w, v, k)
            for f in range(3):
                put('f', f*sz+oA, V(f'area{f}')); put('f', f*sz+oSp, (5, 6, 7)[f], 8, 'i')
                for d in range(D):
                    put('f', f*sz+oN+8*d, A.lift(normals[f][d])); put('f', f*sz+oT0+8*d, T0[f][d]); put('f', f*sz+oT1+8*d, T1[f][d])
                for sd in range(2): put('fe', 16*f+8*sd, MAX if els[f][sd] is None else els[f][sd], 8, 'i')
            for e, s in enumerate('LR'):
                put('e', 8*e, V(f'vol{e}'))
                for i, q in enumerate(('lam', 'mu', 'rho')): put('b', 24*e+8*i, mat[s][q])
            if crds:
                for i in range(D):
                    for d in range(D): put('c', 8*(i*D+d), crds[i][d])
            return st
        r = c.run(mods, 'in', [3, 6, ('fe', 8), ('ev', 8), 'f', 'e', 'b', 'o', 'c' if crds else None], pos=pos, setup=setup)
        for sp, f in enumerate((1, 2)):
            n = normals[f]; a, b = [next(x for x in p if x is not None) for p in (els[f], els[f][::-1])]
            pref = True; ax = (n, T0[f], T1[f])
            if crds:
                dot = sum((A.lift(x)*y for x, y in zip(n, crds[0])), A.ZERO); pref = dot.a[0] > 0
                if not pref: n = [A.neg(A.lift(x)) for x in n]
                ax = (n,)
                if D == 3:
                    # rotation of the reference normal onto n
                    e0 = crds[0]; cr = [e0[1]*n[2]-e0[2]*n[1], e0[2]*n[0]-e0[0]*n[2], e0[0]*n[1]-e0[1]*n[0]]; cs = sum((x*y for x, y in zip(e0, n)), A.ZERO)
                    for v in crds[1:]:
                        dk = sum((x*y for x, y in zip(cr, v)), A.ZERO); cx = [cr[1]*v[2]-cr[2]*v[1], cr[2]*v[0]-cr[0]*v[2], cr[0]*v[1]-cr[1]*v[0]]
                        ax += ([v[i]*cs + cx[i] + cr[i]*dk/(A.ONE+cs) for i in range(3)],)
                else: ax += (n, n)
            sg = 1 if pref else -1
            W = f'{WI} InternalBoundarySolvers::init'; o = sp*4*Q*Q
            m = [mat['LR'[a]], mat['LR'[b]]]
            J = jump('jl', m[0], m[1]) if pref else jump('jr', m[1], m[0])
            fa, inv = flux(*ax, m[0]); fb, _ = flux(*ax, m[1])
            c.samemat('faces', f'{el} {nm} face {f} rotation', r.mat('o', Q, Q, off=o), inv, W, pos=pos)
            c.samemat('faces', f'{el} {nm} face {f} jump', r.mat('o', Q, Q, off=o+Q*Q), [[sg*x for x in y] for y in J], W, pos=pos)
            for sd, fx in enumerate((fa, fb)):
                sc = A.const(F(sg*NC, NS))*V(f'area{f}')/V(f'vol{(a, b)[sd]}')
                c.samemat('faces', f'{el} {nm} face {f} flux {sd}', r.mat('o', Q, Q, off=o+(2+sd)*Q*Q), [[sc*x for x in y] for y in fx], W, pos=pos)
    scen('mesh normals', [un(f'n{i}') for i in range(3)], None)
    scen('one-sided', [un(f'n{i}') for i in range(3)], None, els=((0, 1), (0, None), (None, 1)))
    if D == 2: scen('preferred direction', [k_((1, 0)), k_(('3/5', '4/5')), k_(('-3/5', '4/5'))], [k_((1, 0)), k_((0, 1))])
    else: scen('preferred direction', [k_((1, 0, 0)), k_(('3/5', '4/5', 0)), k_(('-2/3', '2/3', '1/3'))], [k_(('2/3', '-1/3', '2/3')), k_(('2/3', '2/3', '-1/3')), k_(('-1/3', '2/3', '2/3'))])
    # ---- net-updates
    r = c.run(mods, 'nu', ['t', 'j', 'fl', 'fr', 'l', 'r', 'ol', 'or', ('per', 1), V('dt'), 'fd'])
    P = 2*NS
    T, J = H.inmat('t', Q, Q), H.inmat('j', Q, Q)
    for sf in range(NS):
        for ru in range(2):
            col = lambda x: [[V(f'{x}[{q*P+sf*2+ru}]')] for q in range(Q)]
            qn = [V(f'ql{q}') for q in range(Q)]
            l, rr = H.matmul(T, col('l')), H.matmul(T, col('r'))
            # J (r - l) is linear; keep the terms as the product of the rotated jump
            ms = [l[q][0] + sum((J[q][k]*(rr[k][0]-l[k][0]) for k in range(Q)), A.ZERO) for q in range(Q)]
            mL = [[x + V('fd[0]')] for x in ms]; mR = [[x*V(f'fd[{1+sf}]')] for x in ms]
            if D == 3 and (sf, ru) not in ((0, 1), (NS-1, 0)): continue
            for o, f, m, sg in (('ol', 'fl', mL, -1), ('or', 'fr', mR, 1)):
                if D == 3:
                    # one row each
                    q = (sf+ru) % Q
                    c.same('update', f'{el} {o} sub-face {sf} run {ru} quantity {q}', r.f64(o, q*P+sf*2+ru), sum((A.const(sg)*V('dt')*V(f'{f}[{q*Q+k}]')*m[k][0] for k in range(Q)), A.ZERO), f'{WI} netUpdates'); continue
                e = H.matmul(H.inmat(f, Q, Q), m)
                for q in range(Q): c.same('update', f'{el} {o} sub-face {sf} run {ru} quantity {q}', r.f64(o, q*P+sf*2+ru), A.const(sg)*V('dt')*e[q][0], f'{WI} netUpdates')
            c.same('update', f'{el} perturbed {sf} {ru}', I.term(r.get('per', sf*2+ru, 'i', 8)), A.const((sf+ru) % 2), f'{WI} netUpdates')
if __name__ == '__main__': H.main('C30', body)
