import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
from checks.C05 import jac
import random
V = A.var; F = A.Fraction
CPP = r'''
#include <cmath>
#include <limits>
#include <algorithm>
#include <cstddef>
#include "constants.hpp"
#include "io/logging.h"
#include "data/Dynamic.h"
#include "linalg/Matrix.h"
#include "linalg/Geom.hpp"
#include "impl/seismic/common.hpp"
#include "sc/Detections.hpp"
#include "sc/Kernels.hpp"
#include "sc/SubGrid.hpp"
#include "sc/ibnd/SuperCell.hpp"
#include "impl/seismic/sc/Llf.hpp"
const t_entityType EL = T_SDISC.ELEMENT;
typedef std::size_t U; typedef unsigned short H;
const int O = 2, Q = N_QUANTITIES, D = N_DIM, R = 2, NV = C_ENT[EL].N_VERTICES, NF = C_ENT[EL].N_FACES, FV = C_ENT[EL].N_FACE_VERTICES,
          SF = CE_N_SUB_FACES(EL, O), SC = CE_N_SUB_CELLS(EL, O), MD = CE_N_ELEMENT_MODES(EL, O), SV = CE_N_SUB_VERTICES(EL, O), FS = CE_N_SUB_VERTICES(C_ENT[EL].TYPE_FACES, O), TY = EL != TET4 ? NF : 6;
struct K { int k, n; void operator()(double const *a, double const *b, double *o) const {
  for (int q = 0; q < 2; q++) for (int j = 0; j < n; j++) for (int r = 0; r < R; r++) { double s = 0; for (int i = 0; i < k; i++) s += a[(q*k+i)*R+r]*b[i*n+j]; o[(q*n+j)*R+r] = s; } } };
struct MM { K m_kernels[1][4] = {{{MD, SC}, {MD, SF}, {SC, MD}, {SF, MD}}}; };
typedef edge::sc::Detections<EL, 2, R> De; typedef edge::sc::Kernels<EL, O, 2, R> Ke; typedef edge::sc::SubGrid<EL, O> Sg;
typedef edge::seismic::sc::Llf<double, EL, O, R> L;
struct Fa { double outNormal[3], tangent0[3], tangent1[3], area; }; struct Ele { double volume; }; struct Ve { double coords[3]; }; struct Bg { double lam, mu, rho; };
extern "C" {
  void dv(double (*c)[2][R], double (*a)[2][2][R], double (*n)[2][R], H k, U *el, bool *o) { De::dmpVe(c, a, n, k, el, o); }
  void df(double (*c)[2][R], double (*a)[2][2][R], double (*n)[2][R], U *el, bool *o) { De::dmpFa(c, a, n, el, o); }
  void sca(double (*d)[MD][R], double (*m)[SC], double (*o)[SC][R]) { Ke::scatter(MM(), d, m, o); }
  void scf(double (*d)[MD][R], double (*m)[SF], double (*o)[SF][R]) { Ke::scatterFa(MM(), d, m, o); }
  void scr(double (*d)[MD][R], double (*m)[SC], double (*s)[SC][R], bool *a, double (*o)[SC][R]) { Ke::scatterReplace(MM(), d, m, s, a, o); }
  void srf(double (*d)[MD][R], double (*m)[SF], double (*s)[SF][R], bool *a, double (*o)[SF][R]) { Ke::scatterReplaceFa(MM(), d, m, s, a, o); }
  void gat(double (*s)[SC][R], double (*m)[MD], double (*o)[MD][R]) { Ke::gather(MM(), s, m, o); }
  void sfi(double (*s)[SF][R], double (*m)[MD], double (*o)[MD][R]) { Ke::sfInt(MM(), s, m, o); }
  void gsd(double (*s)[SC][R], H (*fs)[SF], H (*re)[SF], H *v, double *o, H on, bool *a) {
    double (*p[NF])[2][SF][R]; for (int f = 0; f < NF; f++) p[f] = (on >> f) & 1 ? (double (*)[2][SF][R]) (o + f*2*SF*R) : nullptr;
    Ke::gatherSurfDofs(s, fs, re, v, p, a); }
  void ext(double (*s)[SC][R], double (*a)[R], double (*b)[R]) { Ke::scExtrema(s, a, b); }
  void dge(double (*d)[MD][R], double (*m)[SC], double (*s)[SC][R], double (*a)[R], double (*b)[R]) { Ke::dgExtrema(MM(), d, m, s, a, b); }
  U pts(double *p, U (*sv)[NV], Ve *v) { return Sg::ptSc(p, sv, v); }
  void fsg(H (*s)[NV], H (*a)[SF][FV], H (*b)[FS]) { Sg::faSg(s, a, b); }
  void apf(H *st, double (*d)[SC][R]) { edge::sc::ibnd::t_stCol<EL, O> c; for (int i = 0; i < c.TL_N_ST; i++) for (int j = 0; j < 2; j++) c.sc[i][j] = st[2*i+j];
    edge::sc::ibnd::SuperCell<EL, O, 2, R>::applyFa(c, d); }
  void lin(U f, U n, U *lp, U (*ev)[NV], U (*ef)[NF], U (*ee)[NF], Ve *v, Fa *fa, Ele *e, Bg *b, double *cen, double *vis) {
    L l; l.m_cen = (double (*)[TY+NF][Q][Q]) cen; l.m_vis = (double (*)[TY+NF]) vis; l.init(f, n, lp, ev, ef, ee, v, fa, e, b); }
  void lts(double dt, U lp, H (*sc)[NF], H (*ty)[NF], bool *nu, double (*d)[SC+NF*SF][R], double (*o)[SC][R], double *cen, double *vis) {
    L l; l.m_cen = (double (*)[TY+NF][Q][Q]) cen; l.m_vis = (double (*)[TY+NF]) vis; l.tsSc(dt, lp, sc, ty, nu, d, o); }
  void lnu(double dt, U lp, H fa, double (*d)[Q][SF][R], double (*o)[SF][R], double *cen, double *vis) {
    L l; l.m_cen = (double (*)[TY+NF][Q][Q]) cen; l.m_vis = (double (*)[TY+NF]) vis; l.nuFaSf(dt, lp, fa, d, o); }
#if PP_N_DIM == 3
  void sfa(H t, double *v, double *n, double *a, double *b, double *ar) { edge::linalg::Geom::sfAdd(TET4, t, v, n, a, b, *ar); }
  void tr(double *n, double *s, double *t, double (*o)[Q], double (*i)[Q]) { edge::seismic::common::setupTrafo3d(n[0], n[1], n[2], s[0], s[1], s[2], t[0], t[1], t[2], o); edge::seismic::common::setupTrafoInv3d(n[0], n[1], n[2], s[0], s[1], s[2], t[0], t[1], t[2], i); }
#endif
  U lay[] = { (U)SF, (U)SC, (U)MD, (U)SV, (U)FS, (U)TY, sizeof(Fa), edge::sc::ibnd::t_stCol<EL, O>::TL_N_ST };
}
'''
def glob(mods, nm, n, k='i'):
    it = I.Interp(mods); o = it.glob_obj(mods[0].globs[nm])
    return [it.load(I.State(), I.Ptr(o, 8*i), it.mkty((8, 0, k))) for i in range(n)]
ELS = {'TRIA3': (2, 3, 3, 2), 'QUAD4R': (2, 4, 4, 2), 'TET4': (3, 4, 4, 3), 'HEX8R': (3, 6, 8, 4)}
def body(c):
    c.rule('admissible', 'a candidate is admissible iff its extrema do not leave those of its neighbourhood (own included, missing ignored) by more than max(1e-4, 1e-3*range), per run')
    c.rule('project', 'scatter, gather and surface integral apply their matrices per quantity and run')
    c.rule('replace', 'where the previous solution was not admissible the stored sub-cells replace the projection, per run')
    c.rule('surface', 'sub-cells at the surface are stored as seen by the neighbour, for required faces and non-admissible runs only')
    c.rule('extrema', 'extrema are the minimum and maximum over all sub-cells, per quantity and run')
    c.rule('closest', 'the sub-cell of a point is the one with the smallest summed squared vertex distance')
    c.rule('face grid', 'the grid of a face lists each of its sub-vertices once; its sub-faces keep their vertices')
    c.rule('average', 'super-cells average their two sub-cells and touch nothing else')
    c.rule('llf setup', 'the LLF solvers are -A_n/2 and -max(vp)/2 of own and adjacent material, scaled by sub-face area over sub-cell volume')
    c.rule('llf step', 'a sub-cell changes by the LLF fluxes through its faces, or by the net-updates given for a DG-face')
    c.rule('llf face', 'the net-updates of a DG-face are the LLF fluxes of its sub-faces')
    fls = {el: B.edge_flags('elastic', el, 2, 64, 2) for el in ELS}
    c.prefetch([(None, f, CPP) for f in fls.values()])
    for el in ELS: element(c, el, [c.driver(CPP, fls[el], f'sub-cells {el}')])
    return c.finish('the sub-cell limiter: detection, projection kernels, sub-grid queries, super-cells and the local Lax-Friedrichs solver are evaluated for all element types with unknown degrees of freedom, operators and materials',
                    ['real arithmetic', 'the matrix kernels multiply as documented'], min_obl=1000)
def element(c, el, mods):
    D, nf, nv, fv = ELS[el]; Q = 5 if D == 2 else 9; R = 2
    SF, SC, MD, SV, FS, TY, sfa, nst = glob(mods, 'lay', 8)
    rnd = random.Random(el)
    def filler(**kw):
        def setup(it, st):
            for o, (sz, kd, vals) in kw.items():
                for i, v in (vals.items() if isinstance(vals, dict) else enumerate(vals)): st.wr(it.inputs[o]).cells[i*sz] = (sz, A.lift(v) if kd == 'f' else v, kd)
            return st
        return setup
    # ---- detections
    eps, eps0 = F(0.001), F(0.0001)
    W = 'src/sc/Detections.hpp Detections::dmp'
    def fr(): return F(rnd.randrange(-4000, 4000), 100)
    for fn in ('dv', 'df'):
        for t in range(10):
            nel = nf if fn == 'df' else rnd.randrange(0, 7)
            nb = [rnd.randrange(9) for _ in range(nel)]
            if fn == 'df': nb = [-1 if rnd.random() < .3 else x for x in nb]
            small = t % 3 == 0
            val = (lambda: F(rnd.randrange(-9, 9), 1000)) if small else fr
            cur = {}; ad = {}
            for q in range(2):
                for r in range(R):
                    a, b = sorted((val(), val())); cur[0, q, r], cur[1, q, r] = a, b
                    for e in range(9):
                        a, b = sorted((val(), val())); ad[e, 0, q, r], ad[e, 1, q, r] = a, b
            can = {(x, q, r): V(f'n{x}{q}{r}') for x in range(2) for q in range(2) for r in range(R)}
            ix = lambda x, q, r: (x*2+q)*R+r
            rr = c.run(mods, fn, ['c', 'a', 'n'] + ([nel] if fn == 'dv' else []) + [('el', 8), ('o', 1)],
                       setup=filler(c=(8, 'f', {ix(*k): v for k, v in cur.items()}), a=(8, 'f', {k[0]*4*R+ix(*k[1:]): v for k, v in ad.items()}), n=(8, 'f', {ix(*k): v for k, v in can.items()}), el=(8, 'i', nb)))
            for r in range(R):
                ok = A.TRUE; e = A.ONE
                for q in range(2):
                    lo = min([cur[0, q, r]]+[ad[x, 0, q, r] for x in nb if x >= 0]); hi = max([cur[1, q, r]]+[ad[x, 1, q, r] for x in nb if x >= 0])
                    d = max(eps0, eps*(hi-lo))
                    e = A.ite(A.lt(can[0, q, r], A.const(lo-d)), A.ZERO, e); e = A.ite(A.gt(can[1, q, r], A.const(hi+d)), A.ZERO, e)
                c.same('admissible', f'{el} {"vertex" if fn == "dv" else "face"} neighbours {t} run {r}', I.term(rr.get('o', r, 'i', 8)), e, W+('Ve' if fn == 'dv' else 'Fa'))
    # ---- kernels
    W = 'src/sc/Kernels.hpp Kernels::'
    def proj(d, m, k, n, q, j, r): return sum((V(f'{d}[{(q*k+i)*R+r}]')*V(f'{m}[{i*n+j}]') for i in range(k)), A.ZERO)
    for fn, k, n, nm in (('sca', MD, SC, 'scatter'), ('scf', MD, SF, 'scatterFa'), ('gat', SC, MD, 'gather'), ('sfi', SF, MD, 'sfInt')):
        rr = c.run(mods, fn, ['d', 'm', 'o'])
        for q in range(2):
            for j in range(0, n, 1+n//12):
                for r in range(R): c.same('project', f'{el} {nm} quantity {q} column {j} run {r}', rr.f64('o', (q*n+j)*R+r), proj('d', 'm', k, n, q, j, r), W+nm)
    for fn, n, nm in (('scr', SC, 'scatterReplace'), ('srf', SF, 'scatterReplaceFa')):
        for adm in ((0, 1), (1, 0), None):
            if adm is None and fn == 'scr': continue
            rr = c.run(mods, fn, ['d', 'm', 's', ('a', 1) if adm else None, 'o'], setup=filler(**({'a': (1, 'i', adm)} if adm else {})))
            for q in range(2):
                for j in range(0, n, 1+n//12):
                    for r in range(R):
                        e = proj('d', 'm', MD, n, q, j, r) if not adm or adm[r] else V(f's[{(q*n+j)*R+r}]')
                        c.same('replace', f'{el} {nm} admissible {adm} quantity {q} sub-cell {j} run {r}', rr.f64('o', (q*n+j)*R+r), e, W+nm)
    fs = [[rnd.randrange(SC) for _ in range(SF)] for _ in range(nf)]; re = [rnd.sample(range(SF), SF) for _ in range(fv)]
    for t in range(4):
        vid = [rnd.randrange(fv) for _ in range(nf)]; on = rnd.randrange(1, 2**nf); adm = (t & 1, t >> 1)
        rr = c.run(mods, 'gsd', ['s', ('fs', 2), ('re', 2), ('v', 2), 'o', on, ('a', 1)], setup=filler(fs=(2, 'i', sum(fs, [])), re=(2, 'i', sum(re, [])), v=(2, 'i', vid), a=(1, 'i', adm)))
        for f in range(nf):
            for q in range(2):
                for s in range(SF):
                    for r in range(R):
                        i = ((f*2+q)*SF+s)*R+r
                        e = V(f's[{(q*SC+fs[f][re[vid[f]][s]])*R+r}]') if (on >> f) & 1 and not adm[r] else V(f'o[{i}]')
                        c.same('surface', f'{el} case {t} face {f} quantity {q} sub-face {s} run {r}', rr.f64('o', i), e, W+'gatherSurfDofs')
    for t in range(min(SC, 12)):
        vals = [F(rnd.randrange(-500, 500), 8) for _ in range(2*SC*R)]
        p = [[(rnd.randrange(SC) if t else 0, rnd.randrange(SC) if t > 1 else SC-1) for r in range(R)] for q in range(2)]
        for q in range(2):
            for r in range(R): vals[(q*SC+p[q][r][0])*R+r] = F(-900+q*10+r); vals[(q*SC+p[q][r][1])*R+r] = F(900-q*10-r)
        if t % 3 == 1: vals = [abs(x)+1 for x in vals]
        if t % 3 == 2: vals = [-abs(x)-1 for x in vals]
        rr = c.run(mods, 'ext', ['s', 'a', 'b'], setup=filler(s=(8, 'f', vals)))
        for q in range(2):
            for r in range(R):
                l = [vals[(q*SC+j)*R+r] for j in range(SC)]
                for nm, e, o in (('minimum', min(l), 'a'), ('maximum', max(l), 'b')): c.same('extrema', f'{el} {nm} case {t} quantity {q} run {r}', rr.f64(o, q*R+r), A.const(e), W+'scExtrema')
    dg = [F(rnd.randrange(-90, 90), 4) for _ in range(2*MD*R)]; mt = [F(rnd.randrange(-90, 90), 8) for _ in range(MD*SC)]
    rr = c.run(mods, 'dge', ['d', 'm', 's', 'a', 'b'], setup=filler(d=(8, 'f', dg), m=(8, 'f', mt)))
    for q in range(2):
        for r in range(R):
            l = [sum(dg[(q*MD+i)*R+r]*mt[i*SC+j] for i in range(MD)) for j in range(SC)]
            for j in range(SC): c.same('project', f'{el} dgExtrema sub-cell {q} {j} {r}', rr.f64('s', (q*SC+j)*R+r), A.const(l[j]), W+'dgExtrema')
            c.same('extrema', f'{el} dg minimum {q} {r}', rr.f64('a', q*R+r), A.const(min(l)), W+'dgExtrema'); c.same('extrema', f'{el} dg maximum {q} {r}', rr.f64('b', q*R+r), A.const(max(l)), W+'dgExtrema')
    # ---- sub-grid
    W = 'src/sc/SubGrid.hpp SubGrid::'
    for t in range(10):
        g = 3 if t % 2 else 64      # close by, and spread
        co = [[F(rnd.randrange(-g, g), 8) for _ in range(3)] for _ in range(SV)]
        sv = [rnd.sample(range(SV), nv) for _ in range(SC)]; pt = [F(rnd.randrange(-g, g), 8) for _ in range(D)]
        rr = c.run(mods, 'pts', ['p', ('sv', 8), 'v'], setup=filler(p=(8, 'f', pt), sv=(8, 'i', sum(sv, [])), v=(8, 'f', sum(co, []))))
        ds = [sum((co[v][d]-pt[d])**2 for v in x for d in range(D)) for x in sv]
        g = int(rr.ret.a[0]) if isinstance(rr.ret, A.T) and A.isc(rr.ret) else rr.ret
        c.holds('closest', isinstance(g, int) and 0 <= g < SC and ds[g] == min(ds), f'{el} case {t}', f'{W}ptSc: sub-cell {g} instead of {ds.index(min(ds))}')
    m = 3
    for t in range(2):
        rv = [rnd.sample(range(SV), FS) for _ in range(nf)]    # ids of the sub-vertices of each face
        if D == 2: sub = [(i, i+1) for i in range(m)]
        elif el == 'HEX8R': sub = [(i+4*j, i+1+4*j, i+1+4*j+4, i+4*j+4) for j in range(m) for i in range(m)]
        else:
            idx = {}; 
            for j in range(m+1):
                for i in range(m+1-j): idx[i, j] = len(idx)
            sub = [(idx[i, j], idx[i+1, j], idx[i, j+1]) for j in range(m) for i in range(m-j)] + [(idx[i+1, j], idx[i+1, j+1], idx[i, j+1]) for j in range(m-1) for i in range(m-1-j)]
        c.need(len(sub) == SF and len({x for s in sub for x in s}) == FS, 'sub-grid of a face')
        tab = [0]*(SC+nf*SF)*nv; sbs = []
        for f in range(nf):
            ss = list(sub); rnd.shuffle(ss)
            ss = [tuple(rv[f][x] for x in s) for s in ss]; sbs.append(ss)
            for i, s in enumerate(ss):
                for k, x in enumerate(s): tab[(SC+f*SF+i)*nv+k] = x
        rr = c.run(mods, 'fsg', [('s', 2), ('a', 2), ('b', 2)], setup=filler(s=(2, 'i', tab)))
        gi = lambda o, i: int(I.term(rr.get(o, i, 'i', 16)).a[0]) if A.isc(I.term(rr.get(o, i, 'i', 16))) else None
        for f in range(nf):
            l = [gi('b', f*FS+i) for i in range(FS)]
            c.holds('face grid', sorted(x for x in l if x is not None) == sorted(rv[f]), f'{el} {t} face {f} vertices', f'{W}faSg: vertices {l} instead of {sorted(rv[f])}')
            for i, s in enumerate(sbs[f]):
                g = [gi('a', (f*SF+i)*fv+k) for k in range(fv)]
                got = [l[x] if x is not None and 0 <= x < FS else None for x in g]
                want = list(s)
                if el == 'HEX8R': want[0], want[1] = want[1], want[0]
                c.holds('face grid', got == want, f'{el} {t} face {f} sub-face {i}', f'{W}faSg: sub-face {got} instead of {want}')
    # ---- super-cells
    st = rnd.sample(range(SC), 2*nst)
    rr = c.run(mods, 'apf', [('st', 2), 'd'], setup=filler(st=(2, 'i', st)))
    for q in range(2):
        for s in range(SC):
            for r in range(R):
                e = V(f'd[{(q*SC+s)*R+r}]')
                if s in st: e = (e + V(f'd[{(q*SC+st[st.index(s) ^ 1])*R+r}]'))*A.const(F(1, 2))
                c.same('average', f'{el} quantity {q} sub-cell {s} run {r}', rr.f64('d', (q*SC+s)*R+r), e, 'src/sc/ibnd/SuperCell.hpp SuperCell::applyFa')
    # ---- local Lax-Friedrichs
    W = 'src/impl/seismic/sc/Llf.hpp Llf::'
    mat = [{k: V(f'{k}{e}') for k in ('lam', 'mu', 'rho')} for e in range(3)]
    pos = {f'{k}{e}' for e in range(3) for k in ('lam', 'mu', 'rho')} | {f'vol{e}' for e in range(3)} | {f'area{f}' for f in range(3*nf)}
    if D == 2: fr_ = [((F(3, 5), F(4, 5)),), ((F(-5, 13), F(12, 13)),), ((F(0), F(-1)),), ((F(8, 17), F(-15, 17)),)]
    else:
        b = [((1, 2, 2), (2, 1, -2), (2, -2, 1)), ((2, 1, 2), (-2, 2, 1), (-1, -2, 2)), ((-2, 2, 1), (1, 2, -2), (-2, -1, -2)), ((3, 0, 0), (0, 3, 0), (0, 0, 3)), ((0, 0, -3), (3, 0, 0), (0, 3, 0)), ((2, -2, 1), (1, 2, 2), (-2, -1, 2))]
        fr_ = [tuple(tuple(F(x, 3) for x in v) for v in s) for s in b]
    # three elements; limited-plus elements 1 and 2 are the dense elements 1 and 0
    elFaEl = [[(1, 2, -1)[(f+e) % 3] if (1, 2, -1)[(f+e) % 3] != e else 0 if e else -1 for f in range(nf)] for e in range(3)]
    elFa = [[e*nf+f for f in range(nf)] for e in range(3)]
    fa = {}
    for e in range(3):
        for f in range(nf):
            x = fr_[(f+e) % len(fr_)]; o = (e*nf+f)*sfa//8
            for k, v in enumerate(x):
                for d in range(D): fa[o+3*k+d] = v[d]
            if D == 2:
                for k in (1, 2):
                    for d in range(2): fa[o+3*k+d] = F(7)
            fa[o+9] = V(f'area{e*nf+f}')
    tet = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)] if el == 'TET4' else [(0, 0, 0)]*nv
    ve = [F(x) for p in tet for x in p]
    rr = c.run(mods, 'lin', [1, 2, ('lp', 8), ('ev', 8), ('ef', 8), ('ee', 8), 'v', 'fa', 'e', 'b', 'cen', 'vis'], pos=pos,
               setup=filler(lp=(8, 'i', [2, 1, 0]), ev=(8, 'i', list(range(nv))*3), ef=(8, 'i', sum(elFa, [])), ee=(8, 'i', sum(elFaEl, [])), v=(8, 'f', ve), fa=(8, 'f', fa), e=(8, 'f', [V(f'vol{e}') for e in range(3)]), b=(8, 'f', [mat[e][k] for e in range(3) for k in ('lam', 'mu', 'rho')])))
    for lp, e in ((1, 1), (2, 0)):
        base = lp*(TY+nf)
        vp = [A.sqrt((x['lam']+2*x['mu'])/x['rho']) for x in mat]
        for ty in range(TY):
            if ty < nf:
                ad = elFaEl[e][ty]; ad = e if ad < 0 else ad; n = fr_[(ty+e) % len(fr_)][0]; sg = -1 if e > ad else 1
                area = V(f'area{e*nf+ty}')
                An = lambda x: [[sum((A.const(n[d]*sg)*jac(D, x['rho'], x['lam'], x['mu'])[d][i][j] for d in range(D)), A.ZERO) for j in range(Q)] for i in range(Q)]
            else:
                g = c.run(mods, 'sfa', [ty-nf, 'v', 'n', 's', 't', 'ar'], setup=filler(v=(8, 'f', [F(tet[k][d]) for d in range(3) for k in range(4)])))
                x3 = lambda o: [g.f64(o, d) for d in range(3)]
                area = g.f64('ar', 0)
                tt = c.run(mods, 'tr', ['n', 's', 't', 'o', 'i'], setup=filler(n=(8, 'f', x3('n')), s=(8, 'f', x3('s')), t=(8, 'f', x3('t'))))
                An = lambda x: H.matmul(H.matmul(tt.mat('o', Q, Q), jac(D, x['rho'], x['lam'], x['mu'])[0]), tt.mat('i', Q, Q))
                ad = e
            sc = area*A.const(F(SC, SF))/V(f'vol{e}')*A.const(F(-1, 2))
            for slot, x, v in ((ty, mat[e], vp[e]),) + (((TY+ty, mat[ad], A.ite(A.lt(vp[e], vp[ad]), vp[ad], vp[e]) if ad != e else vp[e]),) if ty < nf else ()):
                c.samemat('llf setup', f'{el} element {e} solver {slot}', rr.mat('cen', Q, Q, off=(base+slot)*Q*Q), [[y*sc for y in z] for z in An(x)], W+'init', pos=pos)
                c.same('llf setup', f'{el} element {e} viscosity {slot}', rr.f64('vis', base+slot), v*sc, W+'init', pos=pos)
    nt = 2*nf+2*TY
    scs = [rnd.randrange(SC) for _ in range(SC*nf)]; tys = [(i*5+rnd.randrange(2)) % nt for i in range(SC*nf)]
    nu = [f % 3 == 1 for f in range(nf)]
    # ghost cells behind DG-faces
    for i, t in enumerate(tys):
        if t < nf: scs[i] = SC + t*SF + rnd.randrange(SF)
    rr = c.run(mods, 'lts', [V('dt'), 1, ('sc', 2), ('ty', 2), ('nu', 1), 'd', 'o', 'cen', 'vis'], setup=filler(sc=(2, 'i', scs), ty=(2, 'i', tys), nu=(1, 'i', [int(x) for x in nu])), max_steps=30_000_000)
    base = TY+nf; N = SC+nf*SF
    for s in range(SC):
        for q in ((0, Q-1, s % Q) if D == 2 else (s % Q,)):
            r = (s+q) % R
            own = lambda k: V(f'd[{(k*N+s)*R+r}]')
            e = own(q)
            for f in range(nf):
                a, t = scs[s*nf+f], tys[s*nf+f]
                adj = lambda k: V(f'd[{(k*N+a)*R+r}]')
                if t < nf and nu[t]: e = e + adj(q); continue
                if t < 2*nf: i0, i1, left = t % nf, TY + t % nf, t < nf
                else: i0 = i1 = (t-2*nf) % TY; left = t-2*nf < TY
                e = e + V('dt')*V(f'vis[{base+i1}]')*(own(q)-adj(q))
                for k in range(Q):
                    for i, u in ((i0, own(k)), (i1, adj(k))): e = e + (1 if left else -1)*V('dt')*V(f'cen[{((base+i)*Q+q)*Q+k}]')*u
            c.same('llf step', f'{el} sub-cell {s} quantity {q} run {r}', rr.f64('o', (q*SC+s)*R+r), e, W+'tsSc')
    for f in range(nf):
        rr = c.run(mods, 'lnu', [V('dt'), 1, f, 'd', 'o', 'cen', 'vis'])
        for s in range(SF):
            for q in range(Q):
                r = (s+q+f) % R
                u = lambda sd, k: V(f'd[{((sd*Q+k)*SF+s)*R+r}]')
                e = V(f'vis[{base+TY+f}]')*(u(0, q)-u(1, q))
                for k in range(Q): e = e + V(f'cen[{((base+f)*Q+q)*Q+k}]')*u(0, k) + V(f'cen[{((base+TY+f)*Q+q)*Q+k}]')*u(1, k)
                c.same('llf face', f'{el} face {f} sub-face {s} quantity {q}', rr.f64('o', (q*SF+s)*R+r), V('dt')*e, W+'nuFaSf')
if __name__ == '__main__': H.main('C31', body)
