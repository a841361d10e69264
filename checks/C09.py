import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
V = A.var; K = A.const; F = A.Fraction
TAB = r'''
#include "dg/Basis.h"
#define NFAC (C_ENT[T_SDISC.ELEMENT].N_FACES)
namespace edge { namespace pre { namespace dg {
  double const *g_massRaw = nullptr, *g_stiffVRaw = nullptr, *g_stiffTRaw = nullptr, *g_fluxLRaw = nullptr, *g_fluxNRaw = nullptr, *g_fluxTRaw = nullptr;
  extern std::size_t const g_massSize = N_ELEMENT_MODES*N_ELEMENT_MODES, g_stiffVSize = N_DIM*N_ELEMENT_MODES*N_ELEMENT_MODES, g_stiffTSize = N_DIM*N_ELEMENT_MODES*N_ELEMENT_MODES,
    g_fluxLSize = NFAC*N_ELEMENT_MODES*N_FACE_MODES, g_fluxNSize = N_FLUXN_MATRICES*N_ELEMENT_MODES*N_FACE_MODES, g_fluxTSize = NFAC*N_ELEMENT_MODES*N_FACE_MODES;
} } }
typedef real_base R; const unsigned short MD = N_ELEMENT_MODES, MF = N_FACE_MODES, CR = N_CRUNS, NF = NFAC;
extern "C" { unsigned long lay[] = { sizeof(edge::dg::Basis), __builtin_offsetof(edge::dg::Basis, m_entType), N_DIM, MD, MF, CR, NF, N_FLUXN_MATRICES, sizeof(R),
    CE_N_ELEMENT_MODES_CK(T_SDISC.ELEMENT, ORDER, 1), CE_N_ELEMENT_MODES_CK(T_SDISC.ELEMENT, ORDER, 2), CE_N_ELEMENT_MODES_CK(T_SDISC.ELEMENT, ORDER, 3) };
  extern const unsigned long basis_size = sizeof(edge::dg::Basis); }
#define TABLES(v, t) edge::pre::dg::g_stiffVRaw = v; edge::pre::dg::g_stiffTRaw = t;
#define FLUXES(l, n, t) edge::pre::dg::g_fluxLRaw = l; edge::pre::dg::g_fluxNRaw = n; edge::pre::dg::g_fluxTRaw = t;
'''
SEIS = TAB + r'''
#include "impl/seismic/kernels/TimePredVanilla.hpp"
#include "impl/seismic/kernels/VolIntVanilla.hpp"
#include "impl/seismic/kernels/SurfIntVanilla.hpp"
#define RM N_RELAXATION_MECHANISMS
const unsigned short QE = CE_N_QTS_E(N_DIM), QM = CE_N_QTS_M(N_DIM), SE = CE_N_ENS_STAR_E_DE(N_DIM), SA = CE_N_ENS_STAR_A_DE(N_DIM), SR = CE_N_ENS_SRC_A_DE(N_DIM), FE = CE_N_ENS_FS_E_DE(N_DIM), FS = CE_N_ENS_FS_A_DE(N_DIM);
using namespace edge::seismic::kernels;
typedef TimePredVanilla<R, RM, T_SDISC.ELEMENT, ORDER, ORDER, CR> TP; typedef VolIntVanilla<R, RM, T_SDISC.ELEMENT, ORDER, CR> VI; typedef SurfIntVanilla<R, RM, T_SDISC.ELEMENT, ORDER, CR> SI;
typedef R E_[QE][MD][CR]; typedef R A_[QM][MD][CR];
extern "C" {
  void ck(double const *v, double const *t, R const *rf, R dt, R const (*se)[SE], R const (*sa)[SA], R const (*src)[SR], E_ const *de, A_ const *da, E_ *scr, E_ *oe, A_ (*oa)[ORDER], E_ *te, A_ *ta) {
    TABLES(v, t) edge::data::Dynamic d; TP k(rf, d); k.ck(dt, se, sa, src, *de, da, *scr, oe, oa, *te, ta); }
  void eval(unsigned short n, R const *p, E_ const *de, E_ *o) { TP::evalTimePrediction(n, p, de, o); }
  void integ(R dt, E_ const *de, E_ *o) { TP::integrate(dt, de, *o); }
  void vol(double const *v, double const *t, R const *rf, R const (*se)[SE], R const (*sa)[SA], R const (*src)[SR], E_ const *te, A_ const *ta, E_ *de, A_ *da, E_ *scr) {
    TABLES(v, t) edge::data::Dynamic d; VI k(rf, d); k.apply(se, sa, src, *te, ta, *de, da, *scr); }
  void loc(double const *l, double const *n, double const *t, R const *rf, R const (*fe)[FE], R const (*fa)[FS], E_ const *te, E_ *de, A_ *da, R (*scr)[QE][MF][CR]) {
    FLUXES(l, n, t) edge::data::Dynamic d; SI k(rf, d); k.local(fe, fa, *te, *de, da, scr, nullptr, nullptr); }
  void nei(double const *l, double const *n, double const *t, R const *rf, unsigned short f, unsigned short vi, unsigned short fi, R const *fe, R const *fa, E_ const *te, R const (*tf)[MF][CR], E_ *de, A_ *da, R (*scr)[QE][MF][CR]) {
    FLUXES(l, n, t) edge::data::Dynamic d; SI k(rf, d); k.neigh(f, vi, fi, fe, fa, *te, tf, *de, *da, scr, nullptr); }
  void fint(double const *l, double const *n, double const *t, R const *rf, unsigned short f, unsigned short vi, unsigned short fi, E_ const *te, R (*o)[MF][CR]) {
    FLUXES(l, n, t) edge::data::Dynamic d; SI k(rf, d); k.neighFluxInt(f, vi, fi, *te, o, nullptr); }
  void scat(R const *rf, double const *l, double const *n, double const *t, A_ const *up, A_ *da) { FLUXES(l, n, t) edge::data::Dynamic d; SI k(rf, d); k.scatterUpdateA(*up, da); }
}
'''
ADV = TAB + r'''
#include "linalg/Matrix.h"
#include "impl/advection/kernels/TimePred.hpp"
#include "impl/advection/kernels/VolInt.hpp"
#include "impl/advection/kernels/SurfInt.hpp"
using namespace edge::advection::kernels;
typedef TimePred<R, T_SDISC.ELEMENT, ORDER, ORDER, CR> TP; typedef VolInt<R, T_SDISC.ELEMENT, ORDER, CR> VI; typedef SurfInt<R, T_SDISC.ELEMENT, ORDER, CR> SI;
typedef R E_[1][MD][CR];
extern "C" {
  void ck(double const *v, double const *t, R dt, R const *se, E_ const *de, E_ *oe, E_ *te) { TABLES(v, t) edge::data::Dynamic d; TP k(d); k.ck(dt, se, (*de)[0], (R (*)[MD][CR]) oe, (*te)[0]); }
  void integ(R dt, E_ *de, E_ *o) { TP::integrate(dt, (R (*)[MD][CR]) de, (*o)[0]); }
  void vol(double const *v, double const *t, R const *se, E_ const *te, E_ *de) { TABLES(v, t) edge::data::Dynamic d; VI k(d); k.apply(se, *te, *de); }
  void loc(double const *l, double const *n, double const *t, R const *fe, E_ const *te, E_ *de) { FLUXES(l, n, t) edge::data::Dynamic d; SI k(d); k.local(fe, *te, *de); }
  void nei(double const *l, double const *n, double const *t, unsigned short f, unsigned short vi, unsigned short fi, R fe, E_ const *te, E_ *de) { FLUXES(l, n, t) edge::data::Dynamic d; SI k(d); k.neigh(f, vi, fi, fe, *te, *de); }
}
'''
DEG = {'LINE': [1, 2, 3, 4], 'TRIA3': [1, 3, 6, 10], 'TET4': [1, 4, 10, 20]}
def hierarchical(el): return el in ('TRIA3', 'TET4')
def deg(el, m): return next(i for i, n in enumerate(DEG[el]) if m < n)
def body(c):
    # equations, element, order, precision, fused, sparse Jacobians (to keep deep recursions small)
    S = [('elastic', 'TRIA3', 3, 64, 1, 0), ('elastic', 'TRIA3', 4, 32, 1, 1), ('elastic', 'TET4', 2, 64, 1, 0), ('elastic', 'TET4', 3, 32, 1, 1), ('elastic', 'QUAD4R', 2, 64, 2, 1), ('elastic', 'HEX8R', 2, 64, 1, 1), ('elastic', 'TRIA3', 1, 64, 1, 0),
         ('viscoelastic2', 'TRIA3', 2, 64, 2, 0), ('viscoelastic1', 'TRIA3', 3, 64, 1, 1), ('viscoelastic2', 'TET4', 2, 32, 1, 1)]
    Ad = [('advection', 'LINE', 3, 32, 1, 0), ('advection', 'LINE', 4, 64, 2, 0), ('advection', 'TRIA3', 3, 64, 2, 0), ('advection', 'TET4', 3, 64, 1, 0), ('advection', 'QUAD4R', 2, 64, 1, 0), ('advection', 'HEX8R', 2, 64, 2, 0), ('advection', 'TRIA3', 4, 64, 1, 0)]
    if c.tier == 'thorough':
        S += [('elastic', 'TRIA3', 4, 64, 2, 1), ('elastic', 'TET4', 4, 64, 1, 1), ('viscoelastic3', 'TRIA3', 3, 64, 1, 1), ('viscoelastic2', 'QUAD4R', 2, 64, 1, 1)]
        Ad += [('advection', 'TET4', 4, 64, 1, 0), ('advection', 'LINE', 5, 64, 1, 0)]
    fl = {k: B.edge_flags(*k[:5]) for k in S + Ad}
    txt = {k: ADV if k[0] == 'advection' else SEIS for k in S + Ad}
    c.prefetch([(None, fl[k], txt[k]) for k in S + Ad])
    c.rule('derivatives', 'the time derivatives follow from the equations: minus the transposed stiffness matrices times the Jacobians, plus the reactive source')
    c.rule('relaxation', 'the predictor relaxes the memory variables as the corrector does')
    c.rule('integral', 'the time integrated DOFs are the integral of the Taylor series over the time step')
    c.rule('evaluation', 'the prediction at a point in time is the Taylor series at this point')
    c.rule('volume', 'the volume kernel adds stiffness matrices times Jacobians, sources and relaxation, and nothing else')
    c.rule('local', 'the local surface kernel adds, per face, the local flux matrix, the solver and the transposed flux matrix of this face')
    c.rule('neighbour', 'the neighbouring surface kernel uses the flux matrix of the given vertex and face relation (the own one at boundaries) and the transposed one of the face')
    for k in S + Ad: config(c, k, c.driver(txt[k], fl[k], ' '.join(map(str, k[:5]))))
    return c.finish('Kernels and operator set-up with unknown DOFs, Jacobians, solvers, stiffness and flux matrices; listed elements, orders, fused runs and mechanisms.',
                    ['real arithmetic', 'the stiffness matrices of triangles and tetrahedra are hierarchical (C25)', 'the libxsmm variants are not analysed: the library is not present'], min_obl=2000)
def config(c, k, m):
    eq, el, O, prec, _, sparse = k
    it = I.Interp([m]); o = it.glob_obj(m.globs['lay'])
    bsz, bent, dim, md, mf, cr, nf, nfn, w, ck1, ck2, ck3 = [it.load(I.State(), I.Ptr(o, 8*i), it.mkty((8, 0, 'i'))) for i in range(12)]
    adv = eq == 'advection'; rm = int(eq[12:]) if eq.startswith('visco') else 0
    qe = 1 if adv else {2: 5, 3: 9}[dim]; qm = 0 if adv else {2: 3, 3: 6}[dim]
    ckn = lambda d: md if d == 0 else (ck1, ck2, ck3)[d-1]
    T = f'{eq} {el} order {O} {cr} runs'
    def basis(it_, i, a, st):
        p = a[0]
        for off in range(0, bsz, 8): st.wr(p.o).cells[p.off+off] = (8, 0, 'i')
        st.wr(p.o).cells[p.off+bent] = (4, a[1], 'i')
        return None
    def alloc(it_, i, a, st): return I.m_alloc(it_, i, [a[1]], st)
    models = {'_ZN4edge2dg5BasisC2E12t_entityTypet': basis, '_ZN4edge2dg5BasisC1E12t_entityTypet': basis, '_ZN4edge4data7Dynamic8allocateEmmbb': alloc, '_ZN4edge4data7DynamicD1Ev': lambda *a: None, '_ZN4edge4data7DynamicD2Ev': lambda *a: None}
    used = set()
    for nm in models: used |= {nm} & set(m.fns)
    c.need(adv or True, '')
    # operators: stiffness with the structure of a hierarchical basis, flux matrices dense
    def stiff(nm, d, i, j):
        """row i (old mode), column j (new mode)"""
        if hierarchical(el):
            if nm == 'v' and deg(el, i) >= deg(el, j): return A.ZERO
            if nm == 't' and deg(el, i) <= deg(el, j): return A.ZERO
        return V(f'{nm}{d}_{i}_{j}')
    ST = {nm: [[[stiff(nm, d, i, j) for j in range(md)] for i in range(md)] for d in range(dim)] for nm in 'vt'}
    star = lambda d, q, p: V(f'se{d}_{q}_{p}') if not sparse or p in ((q+1+d) % qe,) else A.ZERO
    SE = [[[star(d, q, p) for p in range(qe)] for q in range(qe)] for d in range(dim)]
    SA = [[[V(f'sa{d}_{q}_{p}') if not sparse or p == (q+d) % dim else A.ZERO for p in range(dim)] for q in range(qm)] for d in range(dim)]
    SR = [[[V(f'sr{r}_{q}_{p}') if not sparse or p == (q+1) % qm else A.ZERO for p in range(qm)] for q in range(qm)] for r in range(rm)]
    rf = [V(f'rf{r}') for r in range(rm)]
    def put(it_, st, nm, off, v, sz): st.wr(it_.inputs[nm]).cells[off] = (sz, v, 'f')
    def setup(it_, st):
        for nm in 'vt':
            if nm in it_.inputs:
                for d in range(dim):
                    for i in range(md):
                        for j in range(md): put(it_, st, nm, 8*((d*md+i)*md+j), ST[nm][d][i][j], 8)
        if 'se' in it_.inputs:
            for d in range(dim):
                for q in range(qe):
                    for p in range(qe): put(it_, st, 'se', w*((d*qe+q)*qe+p), SE[d][q][p], w)
        if 'sa' in it_.inputs and rm:
            for d in range(dim):
                for q in range(qm):
                    for p in range(dim): put(it_, st, 'sa', w*((d*qm+q)*dim+p), SA[d][q][p], w)
            for r in range(rm):
                for q in range(qm):
                    for p in range(qm): put(it_, st, 'src', w*((r*qm+q)*qm+p), SR[r][q][p], w)
        if 'rf' in it_.inputs:
            for r in range(rm): put(it_, st, 'rf', w*r, rf[r], w)
        return st
    ix = lambda q, b, x: (q*md+b)*cr+x
    arr = lambda nm, n, lead=0: (lambda q, b, x, l=0: V(f'{nm}[{(l*n+q)*md*cr + b*cr + x}]'))
    W = 'src/impl/advection/kernels/' if adv else 'src/impl/seismic/kernels/'
    WT = W + ('TimePred.hpp' if adv else 'TimePredVanilla.hpp') + ' ck'
    def e(name): return (name, w)
    def fget(r, nm, i): return (r.f32 if w == 4 else r.f64)(nm, i)
    dofE = arr('de', qe); dofA = arr('da', qm)
    sm = lambda g: A.add_many(list(g)) if hasattr(A, 'add_many') else sum(g, A.ZERO)
    def mulE(X, tab):
        """sum over dimensions of Jacobian * (X * stiffness)"""
        s = [[[A.ZERO]*cr for _ in range(md)] for _ in range(qe)]
        for d in range(dim):
            XK = [[[sm(X[q][i][x]*ST[tab][d][i][j] for i in range(md) if ST[tab][d][i][j] is not A.ZERO) for x in range(cr)] for j in range(md)] for q in range(qe)]
            for q in range(qe):
                for j in range(md):
                    for x in range(cr): s[q][j][x] = s[q][j][x] + sm(SE[d][q][p]*XK[p][j][x] for p in range(qe) if SE[d][q][p] is not A.ZERO)
        return s
    def mulA(X, tab):
        s = [[[A.ZERO]*cr for _ in range(md)] for _ in range(qm)]
        for d in range(dim):
            XK = [[[sm(X[qm+q][i][x]*ST[tab][d][i][j] for i in range(md) if ST[tab][d][i][j] is not A.ZERO) for x in range(cr)] for j in range(md)] for q in range(dim)]
            for q in range(qm):
                for j in range(md):
                    for x in range(cr): s[q][j][x] = s[q][j][x] + sm(SA[d][q][p]*XK[p][j][x] for p in range(dim) if SA[d][q][p] is not A.ZERO)
        return s
    # ---- time prediction
    if adv: r = c.run([m], 'ck', ['v', 't', V('dt'), e('se'), e('de'), e('oe'), e('te')], setup=setup, models=models)
    else: r = c.run([m], 'ck', ['v', 't', e('rf'), V('dt'), e('se'), e('sa'), e('src'), e('de'), e('da'), e('scr'), e('oe'), e('oa'), e('te'), e('ta')], setup=setup, models=models)
    D = [[[[dofE(q, b, x) for x in range(cr)] for b in range(md)] for q in range(qe)]]
    DA = [[[[[dofA(q, b, x, l) for x in range(cr)] for b in range(md)] for q in range(qm)]] for l in range(rm)]
    RQ = [(q, b, x) for q in range(qe) for b in range(md) for x in range(cr)]
    RA = [(l, q, b, x) for l in range(rm) for q in range(qm) for b in range(md) for x in range(cr)]
    sign = -1; relaxed = set()
    ok = True
    for de in range(1, O):
        s = mulE(D[de-1], 't'); nx = [[[A.neg(v) for v in row] for row in q] for q in s]
        for l in range(rm):
            for q in range(qm):
                for b in range(md):
                    for x in range(cr): nx[q][b][x] = nx[q][b][x] + sm(SR[l][q][p]*DA[l][de-1][p][b][x] for p in range(qm) if SR[l][q][p] is not A.ZERO)
        D.append(nx)
        sa = mulA(D[de-1], 't') if rm else None
        for l in range(rm):
            if de == 1:
                # which way do the memory variables relax?
                got = fget(r, 'oa', (((l*O+1)*qm)*md)*cr); a0, p0 = sa[0][0][0], DA[l][0][0][0][0]
                if A.equal(got, rf[l]*(A.neg(a0) - p0)) is None: relaxed.add(-1)
                elif A.equal(got, rf[l]*(A.neg(a0) + p0)) is None: relaxed.add(1)
            sg = max(relaxed) if relaxed else -1
            DA[l].append([[[rf[l]*(A.neg(sa[q][b][x]) + sg*DA[l][de-1][q][b][x]) for x in range(cr)] for b in range(md)] for q in range(qm)])
        for q, b, x in RQ:
            if rm == 0 and b >= ckn(de):
                continue
            if not ok or not c.same('derivatives', f'{T} derivative {de} quantity {q} mode {b} run {x}', fget(r, 'oe', de*qe*md*cr + ix(q, b, x)), D[de][q][b][x], WT): ok = False; break
        for l, q, b, x in RA:
            if not ok or not c.same('derivatives', f'{T} mechanism {l} derivative {de} quantity {q} mode {b} run {x}', fget(r, 'oa', ((l*O+de)*qm*md*cr) + ix(q, b, x)), DA[l][de][q][b][x], WT): ok = False; break
    for q, b, x in RQ: ok = ok and c.same('derivatives', f'{T} derivative 0 quantity {q} mode {b} run {x}', fget(r, 'oe', ix(q, b, x)), D[0][q][b][x], WT)
    if rm and O > 1:
        c.holds('relaxation', relaxed == {-1}, 'memory variables are predicted to grow', f'{WT}: ({T}) the derivatives of the memory variables are frequency * (strain rate + memory variable); the equations, and the volume kernel, have frequency * (strain rate - memory variable)')
    fact = [F(1)]
    for i in range(1, O+1): fact.append(fact[-1]*i)
    dt = V('dt'); pw = [K(F(1))]
    for i in range(O+1): pw.append(pw[-1]*dt)
    taylor = lambda D_, q, b, x, n=O: sm(D_[de][q][b][x]*pw[de+1]*K(1/fact[de+1]) for de in range(n))
    for q, b, x in RQ:
        if not ok or not c.same('integral', f'{T} quantity {q} mode {b} run {x}', fget(r, 'te', ix(q, b, x)), taylor(D, q, b, x), WT): ok = False; break
    for l, q, b, x in RA:
        if not ok or not c.same('integral', f'{T} mechanism {l} quantity {q} mode {b} run {x}', fget(r, 'ta', (l*qm+q)*md*cr+b*cr+x), taylor(DA[l], q, b, x), WT): ok = False; break
    # ---- evaluation and integration of given derivatives: unknown where the recursion leaves entries, anything elsewhere
    dv = lambda de, q, b, x: V(f'dd[{de*qe*md*cr + ix(q, b, x)}]')
    live = lambda de, b: rm > 0 or b < ckn(de)
    zero = [(de, q, b, x) for de in range(O) for q, b, x in RQ if not live(de, b)]
    def s2(it_, st):
        for de, q, b, x in zero: put(it_, st, 'dd', w*(de*qe*md*cr + ix(q, b, x)), A.ZERO, w)
        return st
    dvz = lambda de, q, b, x: dv(de, q, b, x) if live(de, b) else A.ZERO
    r = c.run([m], 'integ', [V('dt'), e('dd'), e('o')], setup=s2, models=models)
    for q, b, x in RQ:
        if not c.same('integral', f'{T} integrate quantity {q} mode {b} run {x}', fget(r, 'o', ix(q, b, x)), sm(dvz(de, q, b, x)*pw[de+1]*K(1/fact[de+1]) for de in range(O)), W+'TimePred.hpp integrate'): break
    if not adv:
        r = c.run([m], 'eval', [2, e('p'), e('dd'), e('o')], setup=s2, models=models)
        for n in range(2):
            t = V(f'p[{n}]'); tp = [K(F(1))]
            for i in range(O): tp.append(tp[-1]*t)
            for q, b, x in RQ:
                if not c.same('evaluation', f'{T} point {n} quantity {q} mode {b} run {x}', fget(r, 'o', n*qe*md*cr + ix(q, b, x)), sm(dvz(de, q, b, x)*tp[de]*K(1/fact[de]) for de in range(O)), W+'TimePred.hpp evalTimePrediction'): break
    # ---- volume
    te = [[[V(f'te[{ix(q, b, x)}]') for x in range(cr)] for b in range(md)] for q in range(qe)]
    ta = [[[[V(f'ta[{(l*qm+q)*md*cr+b*cr+x}]') for x in range(cr)] for b in range(md)] for q in range(qm)] for l in range(rm)]
    WV = W + ('VolInt.hpp' if adv else 'VolIntVanilla.hpp') + ' apply'
    if adv: r = c.run([m], 'vol', ['v', 't', e('se'), e('te'), e('de')], setup=setup, models=models)
    else: r = c.run([m], 'vol', ['v', 't', e('rf'), e('se'), e('sa'), e('src'), e('te'), e('ta'), e('de'), e('da'), e('scr')], setup=setup, models=models)
    s = mulE(te, 'v')
    for q, b, x in RQ:
        ex = dofE(q, b, x) + s[q][b][x]
        if q < qm:
            for l in range(rm): ex = ex + sm(SR[l][q][p]*ta[l][p][b][x] for p in range(qm) if SR[l][q][p] is not A.ZERO)
        if not c.same('volume', f'{T} quantity {q} mode {b} run {x}', fget(r, 'de', ix(q, b, x)), ex, WV): break
    if rm:
        sa = mulA(te, 'v')
        for l, q, b, x in RA:
            if not c.same('volume', f'{T} mechanism {l} quantity {q} mode {b} run {x}', fget(r, 'da', (l*qm+q)*md*cr+b*cr+x), dofA(q, b, x, l) + rf[l]*(sa[q][b][x] - ta[l][q][b][x]), WV): break
    # ---- surface
    L = [[[V(f'l[{(f*md+i)*mf+j}]') for j in range(mf)] for i in range(md)] for f in range(nf)]
    N = [[[V(f'n[{(f*md+i)*mf+j}]') for j in range(mf)] for i in range(md)] for f in range(nfn)]
    TT = [[[V(f't[{(f*mf+i)*md+j}]') for j in range(md)] for i in range(mf)] for f in range(nf)]
    # solvers: one non-zero per row (its column rotates), which tells rows, columns and faces apart
    col = lambda f, q: (q+f+1) % qe
    FS = {f: [[V(f'fe{f}_{q}') if p == col(f, q) else A.ZERO for p in range(qe)] for q in range(qe)] for f in range(nf)}
    FA_ = {f: [[V(f'fa{f}_{q}') if p == col(f, q+1) else A.ZERO for p in range(qe)] for q in range(qm)] for f in range(nf)}
    def s3(fs):
        def g(it_, st):
            for n, f in enumerate(fs):
                for q in range(qe):
                    for p in range(qe):
                        if adv: put(it_, st, 'fe', w*n, FS[f][0][0], w)
                        else: put(it_, st, 'fe', w*((n*qe+q)*qe+p), FS[f][q][p], w)
                if rm:
                    for q in range(qm):
                        for p in range(qe): put(it_, st, 'fa', w*((n*qm+q)*qe+p), FA_[f][q][p], w)
            if 'rf' in it_.inputs:
                for r_ in range(rm): put(it_, st, 'rf', w*r_, rf[r_], w)
            return st
        return g
    WS = W + ('SurfInt.hpp' if adv else 'SurfIntVanilla.hpp')
    if adv: r = c.run([m], 'loc', ['l', 'n', 't', e('fe'), e('te'), e('de')], setup=s3(range(nf)), models=models)
    else: r = c.run([m], 'loc', ['l', 'n', 't', e('rf'), e('fe'), e('fa'), e('te'), e('de'), e('da'), e('scr')], setup=s3(range(nf)), models=models)
    def surf(Fm, X, FSm, nr, Tm):
        """X * Fm, times solver, times transposed"""
        XF = [[[sm(X[q][i][x]*Fm[i][j] for i in range(md)) for x in range(cr)] for j in range(mf)] for q in range(qe)]
        return times(XF, FSm, nr, Tm)
    def times(XF, FSm, nr, Tm):
        Y = [[[sm(FSm[q][p]*XF[p][j][x] for p in range(qe) if FSm[q][p] is not A.ZERO) for x in range(cr)] for j in range(mf)] for q in range(nr)]
        return [[[sm(Y[q][j][x]*Tm[j][b] for j in range(mf)) for x in range(cr)] for b in range(md)] for q in range(nr)]
    ups = [surf(L[f], te, FS[f], qe, TT[f]) for f in range(nf)]
    for q, b, x in RQ:
        if not c.same('local', f'{T} quantity {q} mode {b} run {x}', fget(r, 'de', ix(q, b, x)), dofE(q, b, x) + sm(u[q][b][x] for u in ups), WS+' local'): break
    if rm:
        ups = [surf(L[f], te, FA_[f], qm, TT[f]) for f in range(nf)]
        for l, q, b, x in RA:
            if not c.same('local', f'{T} mechanism {l} quantity {q} mode {b} run {x}', fget(r, 'da', (l*qm+q)*md*cr+b*cr+x), dofA(q, b, x, l) + rf[l]*sm(u[q][b][x] for u in ups), WS+' local'): break
    nvi = nfn//nf
    cases = [(f, None, None) for f in range(nf)] + [((vi+fi) % nf, vi, fi) for vi in range(nvi) for fi in range(nf)]
    for f, vi, fi in cases:
        M = L[f] if vi is None else N[vi*nf+fi]
        key = f'{T} face {f} ' + ('boundary' if vi is None else f'neighbour vertex {vi} face {fi}')
        a = [f, -1 if vi is None else vi, -1 if fi is None else fi]
        up = surf(M, te, FS[f], qe, TT[f]); upA = surf(M, te, FA_[f], qm, TT[f]) if rm else None
        for pre in ((False,) if adv or (f, vi) not in ((1, None), (0, 0), (2, 1)) else (False, True)):
            if adv: r = c.run([m], 'nei', ['l', 'n', 't'] + a + [FS[f][0][0], e('te'), e('de')], models=models)
            else: r = c.run([m], 'nei', ['l', 'n', 't', e('rf')] + a + [e('fe'), e('fa'), e('te'), e('tf') if pre else None, e('de'), e('da'), e('scr')], setup=s3([f]), models=models)
            if pre:
                tf = [[[V(f'tf[{(q*mf+j)*cr+x}]') for x in range(cr)] for j in range(mf)] for q in range(qe)]
                up = times(tf, FS[f], qe, TT[f]); upA = times(tf, FA_[f], qm, TT[f]) if rm else None
            for q, b, x in RQ:
                if not c.same('neighbour', f'{key}{" precomputed" if pre else ""} quantity {q} mode {b} run {x}', fget(r, 'de', ix(q, b, x)), dofE(q, b, x) + up[q][b][x], WS+' neigh'): break
            if rm:
                for l, q, b, x in RA:
                    if l == 0 and not c.same('neighbour', f'{key} anelastic quantity {q} mode {b} run {x}', fget(r, 'da', ix(q, b, x)), dofA(q, b, x) + upA[q][b][x], WS+' neigh'): break
        if not adv:
            r = c.run([m], 'fint', ['l', 'n', 't', e('rf')] + a + [e('te'), e('o')], setup=s3([]), models=models)
            for q in range(qe):
                for j in range(mf):
                    for x in range(cr): c.same('neighbour', f'{key} face integral quantity {q} mode {j} run {x}', fget(r, 'o', (q*mf+j)*cr+x), sm(te[q][i][x]*M[i][j] for i in range(md)), WS+' neighFluxInt')
    if rm:
        r = c.run([m], 'scat', [e('rf'), 'l', 'n', 't', e('up'), e('da')], setup=s3([]), models=models)
        for l, q, b, x in RA:
            if not c.same('neighbour', f'{T} scatter mechanism {l} quantity {q} mode {b} run {x}', fget(r, 'da', (l*qm+q)*md*cr+b*cr+x), dofA(q, b, x, l) + rf[l]*V(f'up[{ix(q, b, x)}]'), W+'SurfInt.hpp scatterUpdateA'): break
if __name__ == '__main__': H.main('C09', body)
