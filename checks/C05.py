import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
V = A.var
CPP = r'''
#include "linalg/Matrix.h"
#include "impl/seismic/common.hpp"
#include "impl/seismic/setups/Elasticity.h"
using E = edge::seismic::setups::Elasticity; using S = edge::seismic::common;
extern "C" {
  void jac2(double r, double l, double m, double *o) { S::getJac2D(r, l, m, (double (*)[5][5]) o); }
  void jac3(double r, double l, double m, double *o) { S::getJac3D(r, l, m, (double (*)[9][9]) o); }
  void jacd(double r, double l, double m, double *o, unsigned short d) { S::getJac(r, l, m, o, d); }
  void star2(double r, double l, double m, double (*j)[2], double (*o)[25]) { E::star(r, l, m, j, o); }
  void star2s(double r, double l, double m, double (*j)[2], double (*o)[10]) { E::star(r, l, m, j, o); }
  void star3(double r, double l, double m, double (*j)[3], double (*o)[81]) { E::star(r, l, m, j, o); }
  void star3s(double r, double l, double m, double (*j)[3], double (*o)[24]) { E::star(r, l, m, j, o); }
  void fs2(double a, double b, double c, double d, double e, double f, double (*t)[5], double (*u)[5], double *l, double *r, bool s) { E::fs(a, b, c, d, e, f, t, u, l, r, s); }
  void fs3(double a, double b, double c, double d, double e, double f, double (*t)[9], double (*u)[9], double *l, double *r, bool s) { E::fs(a, b, c, d, e, f, t, u, l, r, s); }
  void t2(double x, double y, double (*t)[5], double (*u)[5]) { S::setupTrafo2d(x, y, t); S::setupTrafoInv2d(x, y, u); }
  void t3(double a, double b, double c, double d, double e, double f, double g, double h, double i, double (*t)[9], double (*u)[9]) {
    S::setupTrafo3d(a, b, c, d, e, f, g, h, i, t); S::setupTrafoInv3d(a, b, c, d, e, f, g, h, i, u); }
  double velp(double r, double l, double m) { return S::getVelP(r, l, m); }
  double vels(double r, double m) { return S::getVelS(r, m); }
  double dt(double r, double l, double m, double d, double s) { return S::getTimeStepCFL(r, l, m, d, s); }
  void stats(t_elementChars *c, t_bgPars (*b)[1], double *o) { S::getTimeStepStatsCFL(3, c, b, o[0], o[1], o[2]); }
}
'''
INIT = r'''
#include "linalg/Matrix.h"
#include "linalg/Mappings.hpp"
#include "impl/seismic/common.hpp"
#include "impl/seismic/solvers/AderDgInit.hpp"
using namespace edge::seismic::solvers;
typedef AderDgInit<T_SDISC.ELEMENT, false> D; typedef AderDgInit<T_SDISC.ELEMENT, true> Q;
const unsigned short NF = C_ENT[T_SDISC.ELEMENT].N_FACES, NV = C_ENT[T_SDISC.ELEMENT].N_VERTICES;
extern "C" {
  // a single face: element 0 on its left, element 1 on its right (if any)
  void initfs(unsigned nIn, unsigned nSe, unsigned nFas, unsigned nComm, unsigned short const *rf, int_el const *re, int_el const (*faEl)[2], int_el const (*elVe)[NV], int_el const (*elFa)[NF],
              t_vertexChars const *vc, t_faceChars const *fc, t_elementChars const *ec, t_bgPars const *bg, t_bgPars const *bgr, double (*e0)[NF][CE_N_ENS_FS_E_DE(N_DIM)], double (*e1)[NF][CE_N_ENS_FS_E_DE(N_DIM)]) {
    double (*e[2])[NF][CE_N_ENS_FS_E_DE(N_DIM)] = { e0, e1 }; double (*a[2])[NF][CE_N_ENS_FS_A_DE(N_DIM)] = { nullptr, nullptr };
    D::initFs<int_el, double>(nIn, nSe, nFas, nComm, rf, re, faEl, elVe, elFa, vc, fc, ec, bg, bgr, e, a); }
  void initstar(int_el const (*elVe)[NV], t_vertexChars const *vc, t_bgPars const *bg, double (*o)[N_DIM][CE_N_ENS_STAR_E_DE(N_DIM)]) {
    D::initStar<int_el, double>(2, elVe, vc, bg, o, nullptr); }
  void ref(double a, double b, double c, double d, double e, double f, double const *n, double const *s, double const *t, double *l, double *r, bool fs) {
#if PP_N_DIM == 2
    D::setUpFs<double>(a, b, c, d, e, f, n[0], n[1], l, r, nullptr, nullptr, fs);
#else
    D::setUpFs<double>(a, b, c, d, e, f, n[0], n[1], n[2], s[0], s[1], s[2], t[0], t[1], t[2], l, r, nullptr, nullptr, fs);
#endif
  }
}
'''
def jac(dim, rho, lam, mu):
    """A_d of  s_ij,t = lam d_ij div v + mu (v_i,j + v_j,i),  rho v_i,t = s_ij,j  written as q_t + sum A_d q_,d = 0"""
    st = [(0, 0), (1, 1), (0, 1)] if dim == 2 else [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
    n = len(st) + dim; out = []
    for d in range(dim):
        a = [[A.ZERO]*n for _ in range(n)]
        for r, (i, j) in enumerate(st):
            if i == j: a[r][len(st)+d] = a[r][len(st)+d] - lam
            # mu*(v_i,j + v_j,i)
            if j == d: a[r][len(st)+i] = a[r][len(st)+i] - mu
            if i == d: a[r][len(st)+j] = a[r][len(st)+j] - mu
        for i in range(dim):
            r = st.index((min(i, d), max(i, d)))
            a[len(st)+i][r] = A.neg(A.inv(rho))
        out.append(a)
    return out
def body(c):
    f64 = B.edge_flags('elastic', 'TET4', 4, 64, 1)
    mods = [c.driver(CPP, f64, 'impl/seismic/common.hpp'), c.source('src/impl/seismic/setups/Elasticity.cpp', f64)]
    rho, lam, mu = V('rho'), V('lam'), V('mu'); pos = {'rho', 'lam', 'mu', 'rhoL', 'rhoR', 'lamL', 'lamR', 'muL', 'muR'}
    c.rule('jacobian', 'the Jacobians are those of the isotropic velocity-stress elastic wave equations')
    for dim in (2, 3):
        n = 5 if dim == 2 else 9; exp = jac(dim, rho, lam, mu)
        for fn, ex in ((f'jac{dim}', []), ('jacd', [dim])):
            r = c.run(mods, fn, [rho, lam, mu, 'o'] + ex)
            for d in range(dim):
                c.samemat('jacobian', f'{fn} A{d}', r.mat('o', n, n, off=d*n*n), exp[d], f'src/impl/seismic/common.hpp common::getJac{dim}D')
        c.rule('star', 'the star matrix of reference direction e is sum_d A_d * dxi_e/dx_d; the sparse form lists the same non-zeros row by row')
        r = c.run(mods, f'star{dim}', [rho, lam, mu, 'j', 'o'])
        rs = c.run(mods, f'star{dim}s', [rho, lam, mu, 'j', 'o'])
        nz = [(a, b) for a in range(n) for b in range(n) if any(exp[d][a][b] is not A.ZERO for d in range(dim))]
        for e in range(dim):
            full = [[sum((exp[d][a][b]*V(f'j[{d*dim+e}]') for d in range(dim)), A.ZERO) for b in range(n)] for a in range(n)]
            c.samemat('star', f'{dim}D dense {e}', r.mat('o', n, n, off=e*n*n), full, f'src/impl/seismic/setups/Elasticity.cpp star ({dim}D)')
            for k, (a, b) in enumerate(nz):
                c.same('star', f'{dim}D sparse {e} #{k}', rs.f64('o', e*len(nz)+k), full[a][b], f'src/impl/seismic/setups/Elasticity.cpp star ({dim}D, sparse)')
        # ---- Riemann solver
        c.rule('riemann', 'the two flux solvers give A_L q*, q* being the exact (Godunov) interface state of the two materials')
        def middle(rl, rr, ll, lr, ml, mr, qL, qR, acoustic=False):
            nS = 3 if dim == 2 else 6
            Ti = [0, 2] if dim == 2 else [0, 3, 5]
            zpL, zpR = A.sqrt(rl*(ll+2*ml)), A.sqrt(rr*(lr+2*mr))
            zsL, zsR = A.sqrt(rl*ml), A.sqrt(rr*mr)
            vs, ts = [], []
            for k in range(dim):
                zL, zR = (zpL, zpR) if k == 0 else (zsL, zsR)
                if k > 0 and acoustic: vs.append(A.ZERO); ts.append(qL[Ti[k]]); continue   # no shear waves: nothing crosses the face
                uL, uR, sL, sR = qL[nS+k], qR[nS+k], qL[Ti[k]], qR[Ti[k]]
                vs.append((zL*uL + zR*uR + (sR - sL)) / (zL + zR))
                ts.append((zR*sL + zL*sR + zL*zR*(uR - uL)) / (zL + zR))
            return vs, ts
        def flux(rl, ll, ml, vs, ts):
            """A_x q* on the left side: only the normal derivative acts"""
            if dim == 2: return [A.neg((ll+2*ml)*vs[0]), A.neg(ll*vs[0]), A.neg(ml*vs[1]), A.neg(ts[0]/rl), A.neg(ts[1]/rl)]
            return [A.neg((ll+2*ml)*vs[0]), A.neg(ll*vs[0]), A.neg(ll*vs[0]), A.neg(ml*vs[1]), A.ZERO, A.neg(ml*vs[2]), A.neg(ts[0]/rl), A.neg(ts[1]/rl), A.neg(ts[2]/rl)]
        qL, qR = [V(f'qL{i}') for i in range(n)], [V(f'qR{i}') for i in range(n)]
        W = f'src/impl/seismic/setups/Elasticity.cpp fs/setupFlMid/setupFrMid ({dim}D)'
        def ident_setup(it, st):
            for nm in ('t', 'u'):
                for i in range(n):
                    for j in range(n): st.wr(it.inputs[nm]).cells[8*(i*n+j)] = (8, A.ONE if i == j else A.ZERO, 'f')
            return st
        L = [V(x) for x in ('rhoL', 'rhoR', 'lamL', 'lamR', 'muL', 'muR')]
        sets = [('two elastic materials', L, False)]
        if dim == 2: sets.append(('two acoustic materials', L[:4] + [A.ZERO, A.ZERO], True))
        for nm, par, ac in sets:
            for free in (False, True):
                p = list(par)
                r = c.run(mods, f'fs{dim}', p + ['t', 'u', 'l', 'r', A.TRUE if free else A.FALSE], pos=pos, setup=ident_setup)
                fl, fr = r.mat('l', n, n), r.mat('r', n, n)
                qr = list(qR)
                if free:
                    for k in ([0, 2] if dim == 2 else [0, 3, 5]): qr[k] = A.neg(qr[k])
                vs, ts = middle(*p, qL, qr, ac)
                exp = flux(p[0], p[2], p[4], vs, ts)
                for i in range(n):
                    got = sum((fl[i][j]*qL[j] + fr[i][j]*qR[j] for j in range(n)), A.ZERO)
                    c.same('riemann', f'{dim}D {nm} {"free surface" if free else "interior"} row {i}', got, exp[i], W, pos=pos)
                if free and not ac:
                    # same material, mirrored state: the interface is traction free
                    c.rule('traction-free', 'at a free surface the interface state has zero traction')
                    sub = {V('rhoR'): V('rhoL'), V('lamR'): V('lamL'), V('muR'): V('muL')}
                    for i in range(n-dim, n):
                        got = A.subst(sum(((fl[i][j]+fr[i][j])*qL[j] for j in range(n)), A.ZERO), sub)
                        c.same('traction-free', f'{dim}D velocity row {i}', got, 0, W, pos=pos)
        # ---- sandwiching: fs = T * mid * T^-1
        c.rule('sandwich', 'the solvers are the face-aligned ones, rotated in by the given inverse and out by the given transformation')
        ri = c.run(mods, f'fs{dim}', L + ['t', 'u', 'l', 'r', A.FALSE], pos=pos, setup=ident_setup)
        midl, midr = ri.mat('l', n, n), ri.mat('r', n, n)
        for free in (False, True):
            r = c.run(mods, f'fs{dim}', L + ['t', 'u', 'l', 'r', A.TRUE if free else A.FALSE], pos=pos)
            T, U = H.inmat('t', n, n), H.inmat('u', n, n)
            mr = [row[:] for row in midr]
            if free:
                for row in mr:
                    for k in ([0, 2] if dim == 2 else [0, 3, 5]): row[k] = A.neg(row[k])
            for nm, m, in (('l', midl), ('r', mr)):
                # probe with unit columns of U and rows of T: entries of T*m*U are bilinear, compare coefficient by coefficient
                got = r.mat(nm, n, n)
                for i in range(n):
                    for j in range(n):
                        tm = [sum((T[i][k]*m[k][q] for k in range(n)), A.ZERO) for q in range(n)]
                        e = sum((tm[q]*U[q][j] for q in range(n)), A.ZERO)
                        if not c.same('sandwich', f'{dim}D {nm} free={free} [{i}][{j}]', got[i][j], e, W, pos=pos): break
        # ---- transformations: orthonormal basis n,s,t
        c.rule('trafo', 'the transformation rotates tensor and velocity between face-aligned and Cartesian axes, its inverse undoes it')
        st = [(0, 0), (1, 1), (0, 1)] if dim == 2 else [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
        if dim == 2:
            x, y = V('x'), V('y'); r = c.run(mods, 't2', [x, y, 't', 'u']); R = [[x, A.neg(y)], [y, x]]
        else:
            nn = [V(k) for k in ('nx', 'ny', 'nz', 'sx', 'sy', 'sz', 'tx', 'ty', 'tz')]
            r = c.run(mods, 't3', nn + ['t', 'u']); R = [[nn[0], nn[3], nn[6]], [nn[1], nn[4], nn[7]], [nn[2], nn[5], nn[8]]]
        T, U = r.mat('t', n, n), r.mat('u', n, n)
        exp = [[A.ZERO]*n for _ in range(n)]
        for a, (i, j) in enumerate(st):
            for b, (k, l) in enumerate(st):
                exp[a][b] = R[i][k]*R[j][l] + (R[i][l]*R[j][k] if k != l else A.ZERO)
        for i in range(dim):
            for k in range(dim): exp[len(st)+i][len(st)+k] = R[i][k]
        c.samemat('trafo', f'{dim}D T', T, exp, f'src/impl/seismic/common.hpp setupTrafo{dim}d')
        # inverse on rotations: substitute a rational parametrisation of the rotations (Cayley), covers all but a null set
        if dim == 2:
            a = V('a'); d = 1 + a*a; sub = {x: (1 - a*a)/d, y: 2*a/d}
        else:
            a, b, e = V('a'), V('b'), V('e'); d = 1 + a*a + b*b + e*e
            Q = [[(1+a*a-b*b-e*e)/d, 2*(a*b-e)/d, 2*(a*e+b)/d], [2*(a*b+e)/d, (1-a*a+b*b-e*e)/d, 2*(b*e-a)/d], [2*(a*e-b)/d, 2*(b*e+a)/d, (1-a*a-b*b+e*e)/d]]
            sub = {R[i][k]: Q[i][k] for i in range(3) for k in range(3)}
        Us = [[A.subst(v, sub) for v in row] for row in U]
        inv = [[A.ZERO]*n for _ in range(n)]
        for p, (i, j) in enumerate(st):
            for q, (k, l) in enumerate(st):
                inv[p][q] = R[k][i]*R[l][j] + (R[l][i]*R[k][j] if k != l else A.ZERO)
        for i in range(dim):
            for k in range(dim): inv[len(st)+i][len(st)+k] = R[k][i]
        for i in range(n):
            for j in range(n):
                if not c.same('trafo', f'{dim}D T^-1 [{i}][{j}]', Us[i][j], A.subst(inv[i][j], sub), f'src/impl/seismic/common.hpp setupTrafoInv{dim}d'): break
    # ---- wave speeds and time steps
    c.rule('speeds', 'wave speeds sqrt((lam+2mu)/rho), sqrt(mu/rho); CFL step = scale*inscribed diameter/(vp*(2*order-1))')
    W = 'src/impl/seismic/common.hpp'
    cp = A.sqrt((lam+2*mu)/rho)
    c.same('speeds', 'p', I.term(c.run(mods, 'velp', [rho, lam, mu], pos=pos).ret), cp, W+' getVelP', pos=pos)
    c.same('speeds', 's', I.term(c.run(mods, 'vels', [rho, mu], pos=pos).ret), A.sqrt(mu/rho), W+' getVelS', pos=pos)
    d, s = V('d'), V('s')
    c.same('speeds', 'dt', I.term(c.run(mods, 'dt', [rho, lam, mu, d, s], pos=pos | {'d', 's'}).ret), s*d/(cp*7), W+' getTimeStepCFL', pos=pos)
    return init(c, pos)
def init(c, pos):
    """flux solvers and star matrices per element"""
    c.rule('assembly', 'each existing side of a face gets -area/det(J) (times 2 for tetrahedra) times the solvers built from its own material first, its neighbour second and its outward normal; the neighbour of a boundary side is the element itself')
    W = 'src/impl/seismic/solvers/AderDgInit.hpp AderDgInit::initFs'
    c.prefetch([(None, B.edge_flags('elastic', el, 2, 64, 1), INIT) for el in ('TET4', 'TRIA3', 'QUAD4R', 'HEX8R')] + [('src/impl/seismic/setups/Elasticity.cpp', B.edge_flags('elastic', el, 2, 64, 1), None) for el in ('TET4', 'TRIA3', 'QUAD4R', 'HEX8R')])
    for el, dim, nf, nv in (('TET4', 3, 4, 4), ('TRIA3', 2, 3, 3), ('QUAD4R', 2, 4, 4), ('HEX8R', 3, 6, 8)):
        if el == 'HEX8R' and c.tier != 'thorough': pass
        fl = B.edge_flags('elastic', el, 2, 64, 1)
        mods = [c.driver(INIT, fl, f'AderDgInit {el}'), c.source('src/impl/seismic/setups/Elasticity.cpp', fl)]
        n = 5 if dim == 2 else 9; ne = n*n
        ct = layout(mods[0])
        U64 = -1
        coords = {  # a non-degenerate element: vertices are offset and scaled reference positions (affine)
          'TET4': [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], 'TRIA3': [(0, 0), (1, 0), (0, 1)], 'QUAD4R': [(0, 0), (1, 0), (1, 1), (0, 1)],
          'HEX8R': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}[el]
        h = [[V(f'h{k}{d}') for d in range(dim)] for k in range(2)]       # extents of the two elements
        jdet = []
        for k in range(2):
            t = A.ONE
            for d in range(dim): t = t*h[k][d]
            jdet.append(t)
        def scen(nm, right, sp, comm, nIn, fl_=1, fr_=0):
            def setup(it, st):
                def put(o, off, v, w=8, k='f'): st.wr(it.inputs[o]).cells[off] = (w, v, k)
                put('faEl', 0, 0, 8, 'i'); put('faEl', 8, 1 if right else U64, 8, 'i')
                iw = ct['int_el']
                st.wr(it.inputs['faEl']).cells.clear()
                put('faEl', 0, 0, iw, 'i'); put('faEl', iw, 1 if right else U64, iw, 'i')
                for k in range(2):
                    for v in range(nv): put('elVe', (k*nv+v)*iw, k*nv+v, iw, 'i')
                    for f in range(nf): put('elFa', (k*nf+f)*iw, 0 if f == (fl_ if k == 0 else fr_) else 7+k*nf+f, iw, 'i')
                    for v in range(nv):
                        for d in range(dim): put('vc', (k*nv+v)*ct['sv']+ct['vcoords']+8*d, V(f'o{k}{d}') + h[k][d]*coords[v][d])
                    for i, q in enumerate(('rho', 'lam', 'mu')): put('bg', k*ct['sbg']+8*i, V(q+('L', 'R')[k]))
                put('fc', ct['farea'], V('area'))
                for d in range(3):
                    if d < dim or dim == 3: put('fc', ct['fnormal']+8*d, V(f'n{d}')); 
                    if dim == 3: put('fc', ct['ft0']+8*d, V(f's{d}')); put('fc', ct['ft1']+8*d, V(f't{d}'))
                put('fc', ct['fsp'], sp, 8, 'i')
                # three receive entries, the matching one in the middle
                for k, (e, f) in enumerate(((1, fl_), (0, fl_), (0, (fl_+1) % nf))):
                    put('re', k*iw, e, iw, 'i'); put('rf', 2*k, f % nf, 2, 'i')
                    for i, q in enumerate(('rho', 'lam', 'mu')): put('bgr', k*ct['sbg']+8*i, V(f'{q}C{k}'))
                return st
            P = pos | {'area'} | {f'h{k}{d}' for k in range(2) for d in range(dim)} | {f'{q}C{k}' for q in ('rho', 'lam', 'mu') for k in range(3)}
            r = c.run(mods, 'initfs', [nIn, 2-nIn, 1, 3 if comm else 0, ('rf', 2), ('re', ct['int_el']), ('faEl', ct['int_el']), ('elVe', ct['int_el']), ('elFa', ct['int_el']), 'vc', 'fc', 'ec', 'bg', 'bgr', 'e0', 'e1'], pos=P, setup=setup)
            par = lambda q, s: V(q+s)
            other = 'R' if right else ('C1' if comm else 'L')
            sides = ([(0, fl_, 'L', other, 1)] if fl_ >= 0 else []) + ([(1, fr_, 'R', 'L', -1)] if right and fr_ >= 0 else [])
            free = sp == ct['FREE_SURFACE']
            for k, f, own, nb, sg in sides:
                def s2(it, st):
                    for d in range(dim):
                        st.wr(it.inputs['n']).cells[8*d] = (8, V(f'n{d}') if sg > 0 else A.neg(V(f'n{d}')), 'f')
                        if dim == 3:
                            st.wr(it.inputs['s']).cells[8*d] = (8, V(f's{d}'), 'f'); st.wr(it.inputs['t']).cells[8*d] = (8, V(f't{d}'), 'f')
                    return st
                q = c.run(mods, 'ref', [par('rho', own), par('rho', nb), par('lam', own), par('lam', nb), par('mu', own), par('mu', nb), 'n', 's', 't', 'l', 'r', A.TRUE if free and k == 0 else A.FALSE], pos=P, setup=s2)
                sca = A.neg(V('area')/jdet[k])*(2 if el == 'TET4' else 1)
                for sd, nm2 in ((0, 'l'), (1, 'r')):
                    for e in range(ne):
                        got = r.f64(f'e{sd}', (k*nf+f)*ne+e)
                        if not c.same('assembly', f'{el} {nm} side {k} solver {sd} entry {e}', got, sca*q.f64(nm2, e), W, pos=P): return
        scen('interior face', True, 0, False, 2)
        scen('free surface', False, ct['FREE_SURFACE'], False, 2)
        scen('outflow', False, ct['OUTFLOW'], False, 2)
        scen('partition boundary', False, 0, True, 0)
        scen('periodic face of the left element', True, ct['PERIODIC'], False, 2, 1, -1)
        scen('periodic face of the right element', True, ct['PERIODIC'], False, 2, -1, 1)
        # star matrices per element
        def setup(it, st):
            iw = ct['int_el']
            def put(o, off, v, w=8, k='f'): st.wr(it.inputs[o]).cells[off] = (w, v, k)
            for k in range(2):
                for v in range(nv): put('elVe', (k*nv+v)*iw, k*nv+v, iw, 'i')
                for v in range(nv):
                    for d in range(dim): put('vc', (k*nv+v)*ct['sv']+ct['vcoords']+8*d, V(f'o{k}{d}') + h[k][d]*coords[v][d])
                for i, q in enumerate(('rho', 'lam', 'mu')): put('bg', k*ct['sbg']+8*i, V(q+('L', 'R')[k]))
            return st
        r = c.run(mods, 'initstar', [('elVe', ct['int_el']), 'vc', 'bg', 'o'], pos=pos, setup=setup)
        for k in range(2):
            J = jac(dim, *[V(q+('L', 'R')[k]) for q in ('rho', 'lam', 'mu')])
            for d in range(dim):
                exp = [[v/h[k][d] for v in row] for row in J[d]]
                c.samemat('assembly', f'{el} star element {k} direction {d}', r.mat('o', n, n, off=(k*dim+d)*n*n), exp, 'src/impl/seismic/solvers/AderDgInit.hpp AderDgInit::initStar')
    return c.finish('Jacobians, star matrices, Riemann solvers, rotations and the per-face assembly of the seismic solver are evaluated with all material parameters, normals and extents unknown and compared with the elastic wave equations and the closed-form interface state',
                    ['real arithmetic', 'material parameters are positive (acoustic: mu == 0 on both sides)', 'element Jacobians of the assembly rule are axis-aligned; general ones are C02'], min_obl=1500)
def layout(mod):
    return LAY(mod)
LAYTXT = r'''
#include "constants.hpp"
#include "data/EntityLayout.type"
#include <cstddef>
extern "C" unsigned long lay[] = { sizeof(int_el), sizeof(t_vertexChars), offsetof(t_vertexChars, coords), offsetof(t_faceChars, area), offsetof(t_faceChars, outNormal), offsetof(t_faceChars, tangent0), offsetof(t_faceChars, tangent1), offsetof(t_faceChars, spType), sizeof(t_bgPars), FREE_SURFACE, OUTFLOW, sizeof(t_faceChars), sizeof(t_elementChars), offsetof(t_elementChars, inDia), offsetof(t_elementChars, spType), PERIODIC };
'''
def LAY(mod):
    fl = B.edge_flags('elastic', 'TET4', 2, 64, 1)
    m = B.load(None, fl, LAYTXT)
    it = I.Interp(m); o = it.glob_obj(m.globs['lay'])
    v = [it.load(I.State(), I.Ptr(o, 8*i), it.mkty((8, 0, 'i'))) for i in range(16)]
    return dict(zip(('int_el', 'sv', 'vcoords', 'farea', 'fnormal', 'ft0', 'ft1', 'fsp', 'sbg', 'FREE_SURFACE', 'OUTFLOW', 'sf', 'se', 'einDia', 'esp', 'PERIODIC'), v))
if __name__ == '__main__': H.main('C05', body)
