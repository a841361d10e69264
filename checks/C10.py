import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import C09
V = A.var
LAY = r'''
#include <cstddef>
#include <climits>
extern "C" unsigned long lt[] = { sizeof(t_elementChars), offsetof(t_elementChars, spType), sizeof(t_faceChars), offsetof(t_faceChars, spType), sizeof(int_el), EL_INT_EQ, FREE, OUTFLOW, RECEIVER,
  (unsigned long) C_LTS_EL[0], (unsigned long) C_LTS_EL[1], (unsigned long) C_LTS_EL[2] };
extern "C" long long ad[] = { C_LTS_AD[0][0], C_LTS_AD[0][1], C_LTS_AD[0][2], C_LTS_AD[1][0], C_LTS_AD[1][1], C_LTS_AD[1][2], C_LTS_AD[2][0], C_LTS_AD[2][1], C_LTS_AD[2][2],
  C_LTS_AD[3][0], C_LTS_AD[3][1], C_LTS_AD[3][2], C_LTS_AD[4][0], C_LTS_AD[4][1], C_LTS_AD[4][2], C_LTS_AD[5][0], C_LTS_AD[5][1], C_LTS_AD[5][2] };
'''
SEIS = C09.TAB + r'''
#include "data/EntityLayout.type"
#include "impl/seismic/solvers/AderDg.hpp"
#include "io/Receivers.h"
#include "parallel/global.h"
#define RM N_RELAXATION_MECHANISMS
#define FREE FREE_SURFACE
''' + LAY + r'''
const unsigned short QE = CE_N_QTS_E(N_DIM), QM = CE_N_QTS_M(N_DIM), SE = CE_N_ENS_STAR_E_DE(N_DIM), SA = CE_N_ENS_STAR_A_DE(N_DIM), SR = CE_N_ENS_SRC_A_DE(N_DIM), FE = CE_N_ENS_FS_E_DE(N_DIM), FS = CE_N_ENS_FS_A_DE(N_DIM);
using namespace edge::seismic;
typedef kernels::Kernels<R, RM, T_SDISC.ELEMENT, ORDER, ORDER, CR> KS; typedef solvers::AderDg<R, RM, T_SDISC.ELEMENT, ORDER, ORDER, CR, false> S;
typedef R E_[QE][MD][CR]; typedef R A_[QM][MD][CR];
t_scratchMem edge_sm; t_scratchMem *edge::parallel::g_scratchMem = nullptr;
alignas(64) static char buf[sizeof(S)];
#define PAR double const *v, double const *t, double const *l, double const *n, double const *tt, R const *rf, R (*se)[N_DIM][SE], R (*sa)[N_DIM][SA], R (*src)[SR], R (*fe)[NF][FE], R (*fa)[NF][FS]
#define INIT TABLES(v, t) FLUXES(l, n, tt) edge::data::Dynamic d; edge::parallel::g_scratchMem = &edge_sm; S *s = (S*) buf; s->m_kernels = new KS(rf, d); s->m_starE = se; s->m_starA = sa; s->m_srcA = src; s->m_fsE[0] = s->m_fsE[1] = fe; s->m_fsA[0] = s->m_fsA[1] = fa;
#define TD R (**td[3])[MD][CR]; R (*pt[3][5])[MD][CR]; for( int i = 0; i < 5; i++ ) { pt[0][i] = t0[i]; pt[1][i] = t1[i]; pt[2][i] = t2[i]; } for( int i = 0; i < 3; i++ ) td[i] = pt[i];
extern "C" {
  void lloc(PAR, int_el f, int_el ne, bool first, double time, double dt, int_el sp, t_elementChars const *ec, unsigned short const (*vi)[NF], E_ *de, R (*da)[MD][CR], E_ *t0, E_ *t1, E_ *t2, R (**send)[MF][CR], edge::io::Receivers *r) {
    INIT TD s->m_fsE[1] = nullptr; s->m_fsA[1] = nullptr; s->local(f, ne, first, time, dt, sp, ec, vi, de, da, td, send, *r); }
  void lnei(PAR, int_el f, int_el ne, bool first, t_faceChars const *fc, t_elementChars const *ec, int_el const (*elFa)[NF], int_el const (*elFaEl)[NF], unsigned short const (*fi)[NF], unsigned short const (*vi)[NF], E_ *t0, E_ *t1, E_ *t2, E_ *de, R (*da)[MD][CR], R const (**recv)[MF][CR]) {
    INIT TD s->m_fsE[0] = nullptr; s->m_fsA[0] = nullptr; s->neigh(f, ne, first, fc, ec, elFa, elFaEl, fi, vi, td, de, da, recv); }
  void rloc(PAR, R dt, R tp, E_ *de, A_ *da, E_ *te, E_ *th, E_ *ev) { INIT KS &k = *s->m_kernels; static E_ scr, der[ORDER]; static A_ derA[RM+1][ORDER], ta[RM+1]; 
    k.m_time.ck(dt, se[0], RM ? sa[0] : nullptr, src, *de, da, scr, der, derA, *te, ta); k.m_time.integrate(R(0.5*dt), der, *th); k.m_time.evalTimePrediction(1, &tp, der, ev);
    k.m_volInt.apply(se[0], RM ? sa[0] : nullptr, src, *te, ta, *de, da, scr); k.m_surfInt.local(fe[0], RM ? fa[0] : nullptr, *te, *de, da, edge_sm.tResSurf, nullptr, nullptr); }
  void rfint(PAR, unsigned short vid, unsigned short fid, E_ *te, R (*o)[MF][CR]) { INIT s->m_kernels->m_surfInt.neighFluxInt(USHRT_MAX, vid, fid, *te, o); }
  void rnei(PAR, unsigned short f, unsigned short vid, unsigned short fid, E_ *te, R const (*tf)[MF][CR], E_ *de, A_ *da) { INIT static A_ up; for( int i = 0; i < QM*MD*CR; i++ ) up[0][0][i] = 0;
    s->m_kernels->m_surfInt.neigh(f, vid, fid, fe[0][f], RM ? fa[0][f] : nullptr, *te, tf, *de, up, edge_sm.tResSurf, nullptr); if( RM ) s->m_kernels->m_surfInt.scatterUpdateA(up, da); }
}
'''
ADV = C09.TAB + r'''
#include <cmath>
#include "data/EntityLayout.type"
#include "impl/advection/solvers/AderDg.hpp"
#define FREE OUTFLOW
''' + LAY + r'''
typedef edge::advection::solvers::AderDg<R, T_SDISC.ELEMENT, ORDER, ORDER, CR> S;
typedef R E_[1][MD][CR];
#define QE 1
#define PAR double const *v, double const *t, double const *l, double const *n, double const *tt, R (*se)[N_DIM], R (*fe)[2*NF]
#define INIT TABLES(v, t) FLUXES(l, n, tt) edge::data::Dynamic d; S s(d);
#define TD R (**td[3])[MD][CR]; R (*pt[3][5])[MD][CR]; for( int i = 0; i < 5; i++ ) { pt[0][i] = t0[i]; pt[1][i] = t1[i]; pt[2][i] = t2[i]; } for( int i = 0; i < 3; i++ ) td[i] = pt[i];
extern "C" {
  void lloc(PAR, int_el f, int_el ne, bool first, double dt, t_elementChars const *ec, E_ *de, E_ *t0, E_ *t1, E_ *t2, R (**send)[MD][CR]) { INIT TD s.local(f, ne, first, dt, ec, se, fe, de, td, send); }
  void lnei(PAR, int_el f, int_el ne, bool first, t_faceChars const *fc, t_elementChars const *ec, int_el const (*elFa)[NF], int_el const (*elFaEl)[NF], unsigned short const (*fi)[NF], unsigned short const (*vi)[NF], E_ *t0, E_ *t1, E_ *t2, E_ *de, R const (**recv)[MD][CR]) {
    INIT TD s.neigh(f, ne, first, fc, ec, fe, elFa, elFaEl, fi, vi, td, de, recv); }
  void rloc(PAR, R dt, E_ *de, E_ *te, E_ *th) { INIT static E_ der[ORDER]; s.m_time->ck(dt, se[0], (*de)[0], (R (*)[MD][CR]) der, (*te)[0]); s.m_time->integrate(R(0.5*dt), (R (*)[MD][CR]) der, (*th)[0]); s.m_volInt->apply(se[0], *te, *de); s.m_surfInt->local(fe[0], *te, *de); }
  void rnei(PAR, unsigned short f, unsigned short vid, unsigned short fid, E_ *te, E_ *de) { INIT s.m_surfInt->neigh(f, vid, fid, fe[0][NF+f], *te, *de); }
}
'''
def body(c):
    S = [('elastic', 'TRIA3', 2, 64, 1), ('elastic', 'TRIA3', 2, 32, 2), ('viscoelastic2', 'TRIA3', 2, 64, 1), ('elastic', 'TET4', 2, 64, 1), ('elastic', 'QUAD4R', 1, 64, 1)]
    Ad = [('advection', 'LINE', 3, 32, 1), ('advection', 'TRIA3', 2, 64, 2), ('advection', 'TET4', 2, 64, 1), ('advection', 'HEX8R', 1, 64, 1)]
    if c.tier == 'thorough': S += [('viscoelastic2', 'TET4', 2, 64, 1), ('elastic', 'TRIA3', 3, 64, 1), ('elastic', 'HEX8R', 1, 64, 2)]; Ad += [('advection', 'TRIA3', 3, 64, 1)]
    ex = ('-DPP_USE_MPI', f'-I{B.VERIF}/stubs_mpi')
    fl = {k: B.edge_flags(*k, extra=ex) for k in S + Ad}; fn = {k: B.edge_flags(*k) for k in S + Ad}
    txt = {k: ADV if k[0] == 'advection' else SEIS for k in S + Ad}
    X = 'src/mesh/EdgeV.cpp'
    c.prefetch([(None, fl[k], txt[k]) for k in S + Ad] + [(None, fn[k], txt[k]) for k in (S[0], Ad[0])])
    c.rule('offered', 'every element offers the integral over its own step, the sum over two steps for larger neighbours and the one over half a step for smaller ones')
    c.rule('sent', 'a partition-boundary face is sent the integral(s) which the receiving element needs, each over its own time step, and nothing when the step is not complete')
    c.rule('own', 'the local step updates every element of the range by prediction, volume and local surface contributions of its own operators, and no other element')
    c.rule('receivers', 'receivers get the time prediction at their output times inside the step, in the order of the sparse receiver elements')
    c.rule('consumed', 'the neighbouring contribution of a face is the integral of the neighbour over the time step of the element')
    c.rule('boundary', 'boundary faces use own data and the own flux matrix (or no data), as the boundary condition has it')
    c.rule('types', 'the time stepping types are pairwise distinct bits')
    for k in S + Ad:
        config(c, k, c.driver(txt[k], fl[k], ' '.join(map(str, k)) + ' MPI'), True)
        if k in (S[0], Ad[0]): config(c, k, c.driver(txt[k], fn[k], ' '.join(map(str, k))), False)
    return c.finish('Local and neighbouring steps of both DG solvers with unknown data and operators, for all relations of time steps, sub-steps, boundary conditions and partition faces.',
                    ['real arithmetic', 'the kernels are decided by C09', 'neighbouring time steps differ by a factor of two at most'], min_obl=2000)
def config(c, k, m, mpi):
    eq, el, O, prec, _ = k
    it = I.Interp([m])
    def gl(nm, n): o = it.glob_obj(m.globs[nm]); return [it.load(I.State(), I.Ptr(o, 8*i), it.mkty((8, 0, 'i'))) for i in range(n)]
    bsz, bent, dim, md, mf, cr, nf, nfn, w = gl('lay', 9)
    sec, oec, sfc, ofc, ie, _, FREE, OUT, REC, ELE, ELL, ELG = gl('lt', 12); ad = gl('ad', 18)
    adv = eq == 'advection'; rm = int(eq[12:]) if eq.startswith('visco') else 0
    qe = 1 if adv else {2: 5, 3: 9}[dim]; qm = 0 if adv else {2: 3, 3: 6}[dim]
    T = f'{eq} {el} order {O} {cr} runs{"" if mpi else " (shared memory)"}'
    bits = ad + [ELE, ELL, ELG]
    c.holds('types', len(set(bits)) == 21 and all(b > 0 and b & (b-1) == 0 and b != REC and b & (FREE | OUT) == 0 for b in bits), T, 'src/dg/const_ader.inc: LTS types overlap')
    def basis(it_, i, a, st):
        p = a[0]
        for off in range(0, bsz, 8): st.wr(p.o).cells[p.off+off] = (8, 0, 'i')
        st.wr(p.o).cells[p.off+bent] = (4, a[1], 'i')
    recs = []
    def rtime(it_, i, a, st):
        recs.append(('time', a[1], a[2], a[3]))
        n = sum(1 for r in recs if r[0] == 'time' and r[1] == a[1])
        return V(f'rt{len(recs)}') if n <= 2 else A.const(-1)
    def rwrite(it_, i, a, st):
        recs.append(('write', a[1], [I.term(it_.load(st, I.Ptr(a[2].o, a[2].off + w*j), it_.mkty((w, 0, 'f')))) for j in range(qe*md*cr)]))
    models = {'_ZN4edge2dg5BasisC2E12t_entityTypet': basis, '_ZN4edge2dg5BasisC1E12t_entityTypet': basis, '_ZN4edge4data7Dynamic8allocateEmmbb': lambda it_, i, a, st: I.m_alloc(it_, i, [a[1]], st),
              '_ZN4edge4data7DynamicD1Ev': lambda *a: None, '_ZN4edge4data7DynamicD2Ev': lambda *a: None}
    for nm in m.fns:
        if 'Receivers14getRecvTimeRel' in nm: models[nm] = rtime
        if 'Receivers12writeRecvAll' in nm: models[nm] = rwrite
    sz = qe*md*cr; szF = (md if adv else mf)*cr*qe; szA = rm*qm*md*cr
    e = lambda nm: (nm, w)
    W = f'src/impl/{"advection" if adv else "seismic"}/solvers/AderDg.hpp '
    OPS = ['v', 't', 'l', 'n', 'tt'] + ([e('se'), e('fe')] if adv else [e('rf'), e('se'), e('sa'), e('src'), e('fe'), e('fa')])
    ens, enf = (dim, 2*nf) if adv else (dim*qe*qe, nf*qe*qe)
    ops = [('se', ens), ('fe', enf)] + ([('sa', dim*qm*dim), ('src', rm*qm*qm), ('fa', nf*qm*qe)] if rm else [])
    H = {'TRIA3': [1, 3, 6], 'TET4': [1, 4, 10]}
    def cell(st, it_, nm, off, v, s=8, kd='f'): st.wr(it_.inputs[nm]).cells[off] = (s, v, kd)
    names = {'se': {}, 'fe': {}, 'sa': {}, 'src': {}, 'fa': {}}
    def sparse(nm, x):
        """keep operators thin: they are opaque here"""
        if adv: return True
        if nm == 'se': q, p = divmod(x % (qe*qe), qe); return p == (q+1) % qe
        if nm == 'fe': q, p = divmod(x % (qe*qe), qe); return p == (q+2) % qe
        if nm == 'fa': q, p = divmod(x % (qm*qe), qe); return p == (q+2) % qe
        if nm == 'sa': q, p = divmod(x % (qm*dim), dim); return p == q % dim
        if nm == 'src': q, p = divmod(x % (qm*qm), qm); return p == q
    def prep(elm):
        """operators of all elements, or those of one of them for the reference"""
        def g(st, it_):
            for nm, n in ops:
                for s, x in ([(y, y) for y in range(4*n)] if elm is None else [(y, elm*n+y) for y in range(n)]):
                    cell(st, it_, nm, w*s, V(f'{nm}[{x}]') if sparse(nm, x % n) else A.ZERO, w)
            if el in H:
                for nm, up in (('v', True), ('t', False)):
                    for d in range(dim):
                        for i in range(md):
                            for j in range(md):
                                di, dj = (next(a for a, n in enumerate(H[el]) if x < n) for x in (i, j))
                                if (di >= dj) if up else (di <= dj): cell(st, it_, nm, 8*((d*md+i)*md+j), A.ZERO)
        return g
    get = lambda r, nm, i: (r.f32 if w == 4 else r.f64)(nm, i)
    nvi = nfn//nf
    def place(st, it_, nm, vals):
        for j, v in enumerate(vals): cell(st, it_, nm, w*j, v, w)
    def rloc(x, tp):
        def s(it_, st):
            prep(x)(st, it_); place(st, it_, 'de', [V(f'de[{x*sz+j}]') for j in range(sz)])
            if rm: place(st, it_, 'da', [V(f'da[{x*szA+j}]') for j in range(szA)])
            return st
        r = c.run([m], 'rloc', OPS + [V('dt')] + ([] if adv else [tp]) + [e('de')] + ([] if adv else [e('da')]) + [e('te'), e('th')] + ([] if adv else [e('ev')]), setup=s, models=models)
        g = lambda nm, n: [get(r, nm, j) for j in range(n)]
        return g('te', sz), g('th', sz), g('de', sz), g('da', szA) if rm else [], None if adv else g('ev', sz)
    fic = {}
    def rfint(te, vid, fid):
        if adv: return te
        key = (tuple(te), vid, fid)
        if key not in fic:
            def s(it_, st): place(st, it_, 'te', te); return st
            r = c.run([m], 'rfint', OPS + [vid, fid, e('te'), e('o')], setup=s, models=models)
            fic[key] = [get(r, 'o', j) for j in range(szF)]
        return fic[key]
    def cmp(rule, key, got, exp, where):
        for j, (a, b) in enumerate(zip(got, exp)):
            if not c.same(rule, f'{T}: {key} [{j}]', a, b, where): return False
        return True
    # ---- local step: range [1,3) of four elements
    refs = {}
    rels = [(0, 1, 2), (1, 2, 0), (2, 0, 1), (2, 2, 2)]
    for run, (rel, (lt, gt, rec), first) in enumerate([(rels[0], (1, 1, 1), 1), (rels[1], (1, 1, 0), 0), (rels[2], (0, 1, 1), 1), (rels[0], (1, 0, 0), 0), (rels[1], (0, 0, 1), 0), (rels[3], (0, 1, 0), 0)]):
        fl1 = sum(ad[3*f+rel[f % 3]] for f in range(nf)) + (ELL if lt else 0) + (ELG if gt else 0) + ELE + (REC if rec else 0)
        fl2 = sum(ad[3*f] for f in range(nf)) + (ELL if not lt else 0) + ELE + REC
        spt = [0, fl1, fl2, 0]
        snd = {(1, f) for f in range(nf)} | {(2, 0)} if mpi else set()
        vid = lambda x, f: (x+f) % nvi
        def s(it_, st):
            prep(None)(st, it_)
            for x in range(4):
                cell(st, it_, 'ec', x*sec+oec, spt[x], 8, 'i')
                for f in range(nf):
                    if not adv: cell(st, it_, 'vi', 2*(x*nf+f), vid(x, f), 2, 'i')
                    p = it_.input_obj(f'snd{x}_{f}') if (x, f) in snd else None
                    if p is not None: p.meta['esz'] = w
                    cell(st, it_, 'send', 8*(x*nf+f), I.Ptr(p, 0) if p is not None else I.NULL, 8, 'p')
            return st
        del recs[:]
        args = OPS + [1, 2, A.TRUE if first else A.FALSE] + ([V('dt'), 'ec'] if adv else [V('time'), V('dt'), 5, 'ec', ('vi', 2)]) + [e('de')] + ([] if adv else [e('da')]) + [e('t0'), e('t1'), e('t2'), ('send', 8)] + ([] if adv else ['rv'])
        r = c.run([m], 'lloc', args, setup=s, models=models, pos={'dt', 'time'} | {f'rt{j}' for j in range(20)})
        rr = list(recs)
        tm = [x for x in rr if x[0] == 'time']
        tag = f'step {run}'
        L = W + 'local'
        evs = {}
        if not adv:
            # receivers: sparse ids count the receiver elements, starting with the given one
            exp_ids = []; sp = 5
            for x in (1, 2):
                if spt[x] & REC: exp_ids += [sp]*3; sp += 1
            c.holds('receivers', [x[1] for x in tm] == exp_ids, f'{T}: {tag} ids', f'{L}: receivers asked for are {[x[1] for x in tm]}, expected {exp_ids}')
            for x in tm:
                c.same('receivers', f'{T}: {tag} time', I.term(x[2]), V('time'), L); c.same('receivers', f'{T}: {tag} step', I.term(x[3]), V('dt'), L)
        for x in range(4):
            own = lambda nm, n: [get(r, nm, x*n+j) for j in range(n)]
            old = lambda nm, n: [V(f'{nm}[{x*n+j}]') for j in range(n)]
            if x in (1, 2):
                if x not in refs: refs[x] = rloc(x, V('tp'))
                te, th, de, da, ev = refs[x]
                cmp('own', f'{tag} element {x} DOFs', own('de', sz), de, L)
                if rm: cmp('own', f'{tag} element {x} memory variables', own('da', szA), da, L)
                lt_, gt_ = spt[x] & ELL, spt[x] & ELG
                t1 = [a if first else a+b for a, b in zip(te, old('t1', sz))] if lt_ else old('t1', sz)
                t2 = th if gt_ else old('t2', sz)
                cmp('offered', f'{tag} element {x} step', own('t0', sz), te, L)
                cmp('offered', f'{tag} element {x} sum', own('t1', sz), t1, L)
                cmp('offered', f'{tag} element {x} half step', own('t2', sz), t2, L)
                for f in range(nf):
                    if (x, f) not in snd: continue
                    rl = rel[f % 3] if x == 1 else 0
                    if rl == 0: ex = rfint(te, vid(x, f), f); n = 1
                    elif rl == 1: ex = rfint(t1, vid(x, f), f) if not first else [V(f'snd{x}_{f}[{j}]') for j in range(szF)]
                    else:
                        a, b = rfint(t2, vid(x, f), f), rfint(te, vid(x, f), f)
                        ex = a + [u-v for u, v in zip(b, a)]
                    got = [get(r, f'snd{x}_{f}', j) for j in range(2*szF)]
                    ex = ex + [V(f'snd{x}_{f}[{j}]') for j in range(len(ex), 2*szF)]
                    cmp('sent', f'{tag} element {x} face {f} relation {"=<>"[rl]}', got, ex, L)
                if not adv and spt[x] & REC:
                    sp = 5 + (1 if x == 2 and spt[1] & REC else 0)
                    for i, y in enumerate(rr):
                        if y[0] == 'write' and y[1] == sp:
                            t = V(f'rt{i}')
                            cmp('receivers', f'{tag} element {x} write {i}', y[2], [A.subst(v, {V('tp'): t}) for v in ev], L)
                    c.holds('receivers', sum(1 for y in rr if y[0] == 'write' and y[1] == sp) == 2, f'{T}: {tag} element {x} writes', f'{L}: two outputs inside the time step expected')
            else:
                for nm, n in (('de', sz), ('t0', sz), ('t1', sz), ('t2', sz)) + ((('da', szA),) if rm else ()): cmp('own', f'{tag} untouched element {x} {nm}', own(nm, n), old(nm, n), L)
    # ---- neighbouring step: elements [1,3) of five; faces of element 1 in all roles
    N = W + 'neigh'
    kinds = ['=', '<', '>']
    def rnei(x, f, vi, fi, te, tf, de, da):
        def s(it_, st):
            prep(x)(st, it_); place(st, it_, 'te', te or []); place(st, it_, 'de', de)
            if rm: place(st, it_, 'da', da)
            if tf: place(st, it_, 'tf', tf)
            return st
        r = c.run([m], 'rnei', OPS + [f, vi, fi, e('te')] + ([] if adv else [e('tf') if tf else None]) + [e('de')] + ([] if adv else [e('da')]), setup=s, models=models)
        return [get(r, 'de', j) for j in range(sz)], [get(r, 'da', j) for j in range(szA)] if rm else []
    for run in range(12 if mpi else 6):
        first = run % 2
        rel = rels[(run//2) % 3]; remote = set()
        bnd = {}
        if mpi and run >= 6: remote = {(1, f) for f in range(nf) if (f+run) % 2 or run >= 10}
        if run % 6 in (2, 5): bnd = {(1, 0): 'out', (2, nf-1): 'free'}
        if run % 6 == 3: bnd = {(1, nf-1): 'free', (2, 0): 'out'}
        if run % 6 == 4: bnd = {(2, f): 'out' for f in range(nf)}
        remote -= set(bnd)
        relOf = lambda x, f: 0 if (x, f) in bnd else (rel[f % 3] if x == 1 else rel[(f+1) % 3])
        neOf = lambda x, f: {1: [0, 3, 4, 2, 0, 3], 2: [4, 1, 0, 3, 4, 1]}[x][f]
        vid = lambda x, f: (2*x+f+run) % nvi; fid = lambda x, f: (x+2*f+run) % nf
        def s(it_, st):
            prep(None)(st, it_)
            for x in range(5):
                cell(st, it_, 'ec', x*sec+oec, sum(ad[3*f+relOf(x, f)] for f in range(nf)) + ELE if x in (1, 2) else 0, 8, 'i')
                for f in range(nf):
                    b = bnd.get((x, f))
                    cell(st, it_, 'elFa', ie*(x*nf+f), x*nf+f, ie, 'i')
                    cell(st, it_, 'fc', (x*nf+f)*sfc+ofc, {None: 0, 'out': OUT, 'free': FREE}[b], 8, 'i')
                    cell(st, it_, 'elFaEl', ie*(x*nf+f), -1 if b or (x, f) in remote else (neOf(x, f) if x in (1, 2) else 0), ie, 'i')
                    cell(st, it_, 'fi', 2*(x*nf+f), -1 if b else fid(x, f), 2, 'i'); cell(st, it_, 'vi', 2*(x*nf+f), -1 if b else vid(x, f), 2, 'i')
                    p = None
                    if (x, f) in remote: p = it_.input_obj(f'rcv{x}_{f}'); p.meta['esz'] = w
                    if mpi: cell(st, it_, 'recv', 8*(x*nf+f), I.Ptr(p, 0) if p is not None else I.NULL, 8, 'p')
            return st
        args = OPS + [1, 2, A.TRUE if first else A.FALSE, 'fc', 'ec', ('elFa', ie), ('elFaEl', ie), ('fi', 2), ('vi', 2), e('t0'), e('t1'), e('t2'), e('de')] + ([] if adv else [e('da')]) + [('recv', 8) if mpi else None]
        r = c.run([m], 'lnei', args, setup=s, models=models)
        for x in range(5):
            own = lambda nm, n: [get(r, nm, x*n+j) for j in range(n)]
            old = lambda nm, n, y=None: [V(f'{nm}[{(x if y is None else y)*n+j}]') for j in range(n)]
            de, da = old('de', sz), old('da', szA) if rm else []
            if x in (1, 2):
                for f in range(nf):
                    b = bnd.get((x, f)); te = tf = None; vi, fi = vid(x, f), fid(x, f)
                    if b and adv or b == 'free': te = old('t0', sz); vi = fi = -1
                    elif b == 'out': continue
                    elif (x, f) in remote:
                        o = szF if relOf(x, f) == 1 and not first else 0
                        tf = [V(f'rcv{x}_{f}[{o+j}]') for j in range(szF)]
                        if adv: te, tf = tf, None
                    else:
                        y = neOf(x, f); rl = relOf(x, f)
                        te = old('t0', sz, y) if rl == 0 else old('t1', sz, y) if rl == 2 else old('t2', sz, y) if first else [a-b_ for a, b_ in zip(old('t0', sz, y), old('t2', sz, y))]
                    de, da = rnei(x, f, vi, fi, te, tf, de, da)
            rule = 'boundary' if any(k_[0] == x for k_ in bnd) else 'consumed'
            cmp(rule, f'neighbouring step {run} element {x} DOFs', own('de', sz), de, N)
            if rm: cmp(rule, f'neighbouring step {run} element {x} memory variables', own('da', szA), da, N)
if __name__ == '__main__': H.main('C10', body)
