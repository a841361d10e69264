import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
V = A.var
CPP = r'''
#include <limits>
#include <cmath>
#include "constants.hpp"
#include "data/EntityLayout.type"
#include "linalg/Matrix.h"
#include "linalg/Mappings.hpp"
#include "impl/advection/solvers/common.hpp"
#include <cstddef>
using C = edge::advection::solvers::common;
const unsigned short NF = C_ENT[T_SDISC.ELEMENT].N_FACES, NV = C_ENT[T_SDISC.ELEMENT].N_VERTICES;
typedef std::size_t U;
extern "C" {
  void su(U nIn, U nSe, U nFa, U nCo, unsigned short const *rf, U const *re, U const (*elVe)[NV], U const (*faEl)[2], U const (*elFa)[NF], U const (*elFaEl)[NF], t_vertexChars const *vc, t_faceChars const *fc, t_bgPars const (*bg)[1], t_bgPars const *bgr, double (*o)[NF*2]) {
    C::setupSolvers<double>(nIn, nSe, nFa, nCo, rf, re, elVe, faEl, elFa, elFaEl, vc, fc, bg, bgr, o); }
  double dt(double d, t_bgPars const *b, double c) { return C::computeTimeStep(d, *b, c); }
  void st(t_elementChars const *e, t_bgPars const (*b)[1], double *o) { C::getTimeStepStatistics(2, e, b, o[0], o[1], o[2]); }
  unsigned long lay[] = { sizeof(t_vertexChars), offsetof(t_vertexChars, coords), sizeof(t_faceChars), offsetof(t_faceChars, area), offsetof(t_faceChars, outNormal), offsetof(t_faceChars, spType), sizeof(t_bgPars), sizeof(t_elementChars), offsetof(t_elementChars, inDia), PERIODIC, OUTFLOW };
  double scfl = SCALE_CFL;
}
'''
ELS = {'LINE': (1, 2, 2, [(0,), (1,)]), 'QUAD4R': (2, 4, 4, [(0, 0), (1, 0), (1, 1), (0, 1)]), 'TRIA3': (2, 3, 3, [(0, 0), (1, 0), (0, 1)]),
       'HEX8R': (3, 6, 8, [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]), 'TET4': (3, 4, 4, [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)])}
def glob(mods, nm, n, k='i'):
    it = I.Interp(mods); o = it.glob_obj(mods[0].globs[nm])
    return [it.load(I.State(), I.Ptr(o, 8*i), it.mkty((8, 0, k))) for i in range(n)]
def body(c):
    fls = {el: B.edge_flags('advection', el, 3, 64, 1) for el in ELS}
    c.prefetch([(None, f, CPP) for f in fls.values()])
    c.rule('upwind', 'each existing side of a face gets the upwind flux: outgoing speed with its own value, incoming with the neighbour\'s, scaled by area/det(J) (times 2 for tetrahedra); nothing enters through open boundaries')
    c.rule('conservation', 'what one side of an interior face loses the other gains (before scaling by the element size)')
    c.rule('cfl', 'time step = cfl * inscribed diameter / |speed| / (2*order-1); statistics are its minimum, mean and maximum')
    W = 'src/impl/advection/solvers/common.hpp common::setupSolvers'
    for el, (dim, nf, nv, ref) in ELS.items():
        mods = [c.driver(CPP, fls[el], f'advection {el}')]
        sv, vco, sf, fa, fn, fsp, sb, se, eid, PER, OUT = glob(mods, 'lay', 11)
        h = [[V(f'h{k}{d}') for d in range(dim)] for k in range(2)]
        jd = []
        for k in range(2):
            t = A.ONE
            for d in range(dim): t = t*h[k][d]
            jd.append(t)
        pos = {'area'} | {f'h{k}{d}' for k in range(2) for d in range(dim)}
        def scen(nm, right, sp, comm, nIn, f0, f1):
            def setup(it, st):
                def put(o, off, v, w=8, k='f'): st.wr(it.inputs[o]).cells[off] = (w, v, k)
                put('faEl', 0, 0, 8, 'i'); put('faEl', 8, 1 if right else -1, 8, 'i')
                for k in range(2):
                    for v in range(nv): put('elVe', 8*(k*nv+v), k*nv+v, 8, 'i')
                    for f in range(nf):
                        put('elFa', 8*(k*nf+f), 0 if f == (f0, f1)[k] else 9+k*nf+f, 8, 'i'); put('elFaEl', 8*(k*nf+f), 1-k, 8, 'i')
                    for v in range(nv):
                        for d in range(dim): put('vc', (k*nv+v)*sv+vco+8*d, V(f'o{k}{d}') + h[k][d]*ref[v][d])
                    for d in range(dim): put('bg', k*sb+8*d, V(f'{"abc"[d]}{k}'))
                put('fc', fa, V('area'))
                for d in range(dim): put('fc', fn+8*d, V(f'n{d}'))
                put('fc', fsp, sp, 8, 'i')
                for k, (e, f) in enumerate(((1, f0), (0, f0), (0, f0+1))):
                    put('re', 8*k, e, 8, 'i'); put('rf', 2*k, f % nf, 2, 'i')
                    for d in range(dim): put('bgr', k*sb+8*d, V(f'{"abc"[d]}r{k}'))
                return st
            r = c.run(mods, 'su', [nIn, 2-nIn, 1, 3 if comm else 0, ('rf', 2), ('re', 8), ('elVe', 8), ('faEl', 8), ('elFa', 8), ('elFaEl', 8), 'vc', 'fc', 'bg', 'bgr', 'o'], pos=pos, setup=setup)
            sL = sum((V(f'{"abc"[d]}0')*V(f'n{d}') for d in range(dim)), A.ZERO)
            nb = '1' if right else 'r1' if comm else None
            sR = sum((V(f'{"abc"[d]}{nb}')*V(f'n{d}') for d in range(dim)), A.ZERO) if nb else A.ZERO
            out = A.ite(A.gt(sL, A.ZERO), sL, A.ZERO); inn = A.ite(A.lt(sR, A.ZERO), sR, A.ZERO)
            for k, f, loc, ng in ((0, f0, A.neg(out), A.neg(inn)), (1, f1, inn, out)):
                if k == 1 and not right: continue
                sc = V('area')/jd[k]*(2 if el == 'TET4' else 1)
                for g in range(nf):
                    own = g == f
                    c.same('upwind', f'{el} {nm} side {k} face {g} own', r.f64('o', k*2*nf+g), loc*sc if own else 0, W, pos=pos)
                    c.same('upwind', f'{el} {nm} side {k} face {g} neighbour', r.f64('o', k*2*nf+nf+g), ng*sc if own else 0, W, pos=pos)
            if right and f0 >= 0 and f1 >= 0:
                for a, b, t in ((r.f64('o', f0), r.f64('o', 3*nf+f1), 'left'), (r.f64('o', nf+f0), r.f64('o', 2*nf+f1), 'right')):
                    c.same('conservation', f'{el} {nm} {t} state', a*jd[0] + b*jd[1], 0, W, pos=pos)
        for f0 in range(nf):
            f1 = (f0*2+1) % nf
            scen(f'interior ({f0},{f1})', True, 0, False, 2, f0, f1)
        scen('outflow', False, OUT, False, 2, 1, 0)
        scen('outflow of a send element', False, OUT, False, 0, 1, 0)
        scen('partition boundary', False, 0, True, 0, 1, 0)
        scen('periodic, left', True, PER, False, 2, 1, -1)
        scen('periodic, right', True, PER, False, 2, -1, 1)
        # time step
        WT = 'src/impl/advection/solvers/common.hpp common::computeTimeStep'
        sp = A.abs_(V('b[0]')) if dim == 1 else A.sqrt(sum((V(f'b[{d}]')*V(f'b[{d}]') for d in range(dim)), A.ZERO))
        r = c.run(mods, 'dt', [V('d'), 'b', V('cfl')], pos={'d', 'cfl'} | {f'b[{d}]' for d in range(dim)})
        c.same('cfl', f'{el}', I.term(r.ret), V('cfl')*V('d')/sp/5, WT, pos={'d', 'cfl'} | {f'b[{d}]' for d in range(dim)})
        def setup(it, st):
            for k in range(2):
                st.wr(it.inputs['e']).cells[k*se+eid] = (8, V(f'd{k}'), 'f')
                for d in range(dim): st.wr(it.inputs['b']).cells[k*sb+8*d] = (8, V(f's{k}{d}'), 'f')
            return st
        P = {'d0', 'd1'} | {f's{k}{d}' for k in range(2) for d in range(dim)}
        r = c.run(mods, 'st', ['e', 'b', 'o'], pos=P, setup=setup)
        sc = glob(mods, 'scfl', 1, 'f')[0]
        t = []
        for k in range(2):
            sp = V(f's{k}0') if dim == 1 else A.sqrt(sum((V(f's{k}{d}')*V(f's{k}{d}') for d in range(dim)), A.ZERO))
            t.append(sc*V(f'd{k}')/sp/5)
        mn = A.ite(A.lt(t[1], t[0]), t[1], t[0]); mx = A.ite(A.lt(t[0], t[1]), t[1], t[0])
        for i, (nm, e) in enumerate((('min', mn), ('average', (t[0]+t[1])*A.const(A.Fraction(1, 2))), ('max', mx))):
            c.same('cfl', f'{el} statistics {nm}', r.f64('o', i), e, WT, pos=P, prune=lambda e: any(k[0] == 'sgn' and bigsign(k, v) for k, v in e.items()))
    return c.finish('the upwind flux solvers of all element types and boundary situations and the CFL condition are evaluated with unknown speeds, normals, areas and extents and compared with the advection equation',
                    ['real arithmetic', 'element Jacobians are axis-aligned here; general ones are C02'], min_obl=200)
BIG = 10**250
def bigsign(k, v):
    p = dict(k[1]); m = max(abs(x) for x in p.values())
    rest = [x for x in p.values() if abs(x)*BIG > m]
    return len(rest) < len(p) and len({x > 0 for x in rest}) == 1 and (rest[0] > 0) != (v > 0)
if __name__ == '__main__': H.main('C08', body)
