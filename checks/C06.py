import sys, os, re; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import C05
V = A.var; K = A.const; F = A.Fraction
CPP = r'''
#include "linalg/Matrix.h"
#include "linalg/Mappings.hpp"
#include "impl/seismic/common.hpp"
#include "impl/seismic/setups/ViscoElasticity.h"
#include "impl/seismic/solvers/AderDgInit.hpp"
using E = edge::seismic::setups::ViscoElasticity; using namespace edge::seismic::solvers;
const unsigned short NF = C_ENT[T_SDISC.ELEMENT].N_FACES, NV = C_ENT[T_SDISC.ELEMENT].N_VERTICES;
typedef AderDgInit<T_SDISC.ELEMENT, false> D;
extern "C" {
  void freqs(unsigned short n, double c, double r, double *o) { E::frequencies(n, c, r, o); }
#if PP_N_DIM == 2
  void src(unsigned short n, double c, double r, double qp, double qs, double l, double m, double *le, double *me, double (*o)[9]) { E::src(n, c, r, qp, qs, l, m, *le, *me, o); }
  void srcs(unsigned short n, double c, double r, double qp, double qs, double l, double m, double *le, double *me, double (*o)[5]) { E::src(n, c, r, qp, qs, l, m, *le, *me, o); }
  void star(double (*j)[2], double (*o)[6]) { E::star(j, o); }
  void stars(double (*j)[2], double (*o)[4]) { E::star(j, o); }
  void fs(double a, double b, double c, double d, double e, double f, double (*t)[3], double (*u)[5], double *l, double *r, bool s) { E::fs(a, b, c, d, e, f, t, u, l, r, s); }
#else
  void src(unsigned short n, double c, double r, double qp, double qs, double l, double m, double *le, double *me, double (*o)[36]) { E::src(n, c, r, qp, qs, l, m, *le, *me, o); }
  void srcs(unsigned short n, double c, double r, double qp, double qs, double l, double m, double *le, double *me, double (*o)[12]) { E::src(n, c, r, qp, qs, l, m, *le, *me, o); }
  void star(double (*j)[3], double (*o)[18]) { E::star(j, o); }
  void stars(double (*j)[3], double (*o)[9]) { E::star(j, o); }
  void fs(double a, double b, double c, double d, double e, double f, double (*t)[6], double (*u)[9], double *l, double *r, bool s) { E::fs(a, b, c, d, e, f, t, u, l, r, s); }
#endif
  void initfs(unsigned nIn, unsigned nSe, unsigned nFas, unsigned nComm, unsigned short const *rf, int_el const *re, int_el const (*faEl)[2], int_el const (*elVe)[NV], int_el const (*elFa)[NF],
              t_vertexChars const *vc, t_faceChars const *fc, t_elementChars const *ec, t_bgPars const *bg, t_bgPars const *bgr, double (*e0)[NF][CE_N_ENS_FS_E_DE(N_DIM)], double (*e1)[NF][CE_N_ENS_FS_E_DE(N_DIM)], double (*a0)[NF][CE_N_ENS_FS_A_DE(N_DIM)], double (*a1)[NF][CE_N_ENS_FS_A_DE(N_DIM)]) {
    double (*e[2])[NF][CE_N_ENS_FS_E_DE(N_DIM)] = { e0, e1 }; double (*a[2])[NF][CE_N_ENS_FS_A_DE(N_DIM)] = { a0, a1 };
    D::initFs<int_el, double>(nIn, nSe, nFas, nComm, rf, re, faEl, elVe, elFa, vc, fc, ec, bg, bgr, e, a); }
  void initstar(int_el const (*elVe)[NV], t_vertexChars const *vc, t_bgPars const *bg, double (*o)[N_DIM][CE_N_ENS_STAR_E_DE(N_DIM)], double (*p)[N_DIM][CE_N_ENS_STAR_A_DE(N_DIM)]) {
    D::initStar<int_el, double>(2, elVe, vc, bg, o, p); }
  void initsrc(int_el n, double fc, double fr, t_bgPars *bg, double (*o)[CE_N_ENS_SRC_A_DE(N_DIM)]) { D::initSrcA<int_el, double>(n, 2, fc, fr, bg, o); }
}
'''
def lsq(it, i, a, st):
    """the least-squares fit is a black box: record what is fitted, hand out unknown coefficients"""
    n, m, rm = (int(x) if isinstance(x, int) else int(A.cval(x)) for x in a[:3])
    ld = lambda p, k: I.term(it.load(st, I.Ptr(p.o, p.off + 8*k), it.mkty((8, 0, 'f'))))
    mat = [[ld(a[3], r*m+q if rm else q*n+r) for q in range(m)] for r in range(n)]
    rhs = [ld(a[4], r) for r in range(n)]
    # fits are told apart by the quality factor they depend on
    nm = {str(v.a[0]) for e in sum(mat, []) + rhs for v in A.atoms_of(e)}
    q = [m for m in (re.fullmatch(r'q([ps])(\d*)', x) for x in nm) if m]
    k = ('ps'.index(q[0][1]) + 2*int(q[0][2] or 0)) if len(q) == 1 else 100 + len(it.fits)
    it.fits[k] = (mat, rhs)
    for q in range(m): st.wr(a[5].o).cells[a[5].off + 8*q] = (8, V(f'Y{k}_{q}'), 'f')
    return None
def body(c):
    cfg = [('TRIA3', 2), ('TET4', 3)]
    fl = {el: B.edge_flags('viscoelastic2', el, 2, 64, 1) for el, _ in cfg}
    vf = {el: [f'-I{B.VERIF}/stubs_eigen'] + fl[el] for el, _ in cfg}
    S = 'src/impl/seismic/setups/'
    c.prefetch([(None, fl[el], CPP) for el, _ in cfg] + [(S+'ViscoElasticity.cpp', vf[el], None) for el, _ in cfg] + [(S+'Elasticity.cpp', fl[el], None) for el, _ in cfg])
    pos = {'rhoL', 'rhoR', 'lamL', 'lamR', 'muL', 'muR', 'fc', 'fr', 'qp', 'qs', 'lam', 'mu', 'area'}
    c.rule('frequencies', 'the relaxation frequencies (and those in between) are spaced logarithmically over the given ratio, around the central one')
    c.rule('fit', 'the coefficients are fitted so that the quality factor is constant over the frequencies, P first, S second')
    c.rule('moduli', 'the unrelaxed Lame parameters give the requested phase velocities at the central frequency')
    c.rule('source', 'memory variables act on the stresses through the isotropic tensor of the anelastic coefficients; the sparse form lists the same non-zeros row by row')
    c.rule('star', 'the anelastic star matrices are the strain-rate operators of the reference directions')
    c.rule('riemann', 'the anelastic flux solvers give the strain rates of the interface state the elastic solvers use, mirrored at free surfaces')
    c.rule('sandwich', 'the solvers are the face-aligned ones, rotated in by the given inverse and out by the given transformation')
    c.rule('assembly', 'anelastic solvers, star and source matrices of every element and face are those of its own material, scaled as the elastic ones')
    X = {'ViscoElasticity': 'src/impl/seismic/setups/ViscoElasticity'}
    for el, dim in cfg:
        mods = [c.driver(CPP, fl[el], f'viscoelastic {el}'), c.source(S+'ViscoElasticity.cpp', vf[el]), c.source(S+'Elasticity.cpp', fl[el])]
        nq, ns = (5, 3) if dim == 2 else (9, 6)
        lam, mu, fc, fr = V('lam'), V('mu'), V('fc'), V('fr')
        PI = K(F(3.141592653589793))
        for n in (2, 3):
            W = X['ViscoElasticity'] + '.h frequencies'
            w = c.run(mods, 'freqs', [n, fc, fr, 'o'], pos=pos).vec('o', 2*n-1)
            c.same('frequencies', f'{dim}D {n} mechanisms first', w[0], 2*PI*fc/A.sqrt(fr), W, pos=pos)
            for k in range(1, 2*n-1):
                c.same('frequencies', f'{dim}D {n} mechanisms {k}', w[k], A.fn('exp', A.fn('log', w[0]) + K(k)*A.fn('log', fr)/K(2*(n-1))), W, pos=pos)
            it = {}
            def run(fn):
                fits = {}
                def model(i_, i, a, st): i_.fits = fits; return lsq(i_, i, a, st)
                r = c.run(mods, fn, [n, fc, fr, V('qp'), V('qs'), lam, mu, 'le', 'me', 'o'], pos=pos, models={'__vp_lsq': model})
                return r, fits
            r, fits = run('src')
            W = X['ViscoElasticity'] + '.cpp '
            if not c.holds('fit', sorted(fits) == [0, 1], f'{dim}D {n} fits', W+'anelasticCoeffLame: two fits expected'): continue
            for k, q in enumerate((V('qp'), V('qs'))):
                mat, rhs = fits[k]
                if not c.holds('fit', len(mat) == 2*n-1 and len(mat[0]) == n, f'{dim}D {n} size', W+'anelasticCoeffPs: wrong system size'): continue
                for a in range(2*n-1):
                    for b in range(n):
                        e = (w[2*b]*w[a] + w[2*b]*w[2*b]/q)/(w[a]*w[a] + w[2*b]*w[2*b])
                        # up to a common factor per row: a row of the system may be scaled
                        c.same('fit', f'{dim}D {n} {"PS"[k]} [{a}][{b}]', mat[a][b]*(1/q), e*rhs[a], W+'anelasticCoeffPs', pos=pos)
            Y = [[V(f'Y{k}_{q}') for q in range(n)] for k in range(2)]
            def unrelaxed(Yk):
                t1, t2 = A.ONE, A.ZERO
                for q in range(n):
                    x = 2*PI*fc/w[2*q]; s = 1/(1+x*x)
                    t1 = t1 - Yk[q]*s; t2 = t2 + Yk[q]*x*s
                R = A.sqrt(t1*t1+t2*t2)
                return (R+t1)/(2*R*R)
            me = mu*unrelaxed(Y[1]); le = (lam+2*mu)*unrelaxed(Y[0]) - 2*me
            c.same('moduli', f'{dim}D {n} mu', r.f64('me', 0), me, W+'elasticLame', pos=pos)
            c.same('moduli', f'{dim}D {n} lambda', r.f64('le', 0), le, W+'elasticLame', pos=pos)
            rs, _ = run('srcs')
            nz = [(a, b) for a in range(ns) for b in range(ns) if (a < dim and b < dim) or a == b]
            gl, gm = r.f64('le', 0), r.f64('me', 0)
            for m in range(n):
                # -(lambda Y_lambda tr(e) I + 2 mu Y_mu e), lambda Y_lambda = (lambda+2mu) Y_kappa - 2 mu Y_mu
                for a in range(ns):
                    for b in range(ns):
                        ly = (gl+2*gm)*Y[0][m] - 2*gm*Y[1][m]
                        e = A.ZERO
                        if a < dim and b < dim: e = e - ly
                        if a == b: e = e - 2*gm*Y[1][m]
                        sub = {gl: V('LE'), gm: V('ME')}
                        c.same('source', f'{dim}D {n} mechanism {m} [{a}][{b}]', A.subst(r.f64('o', (m*ns+a)*ns+b), sub), A.subst(e, sub), X['ViscoElasticity']+'.h src', pos=pos | {'LE', 'ME'})
                for k, (a, b) in enumerate(nz):
                    c.same('source', f'{dim}D {n} sparse mechanism {m} #{k}', rs.f64('o', m*len(nz)+k), r.f64('o', (m*ns+a)*ns+b), X['ViscoElasticity']+'.h src (sparse)', pos=pos)
        # ---- star
        st = [(0, 0), (1, 1), (0, 1)] if dim == 2 else [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
        def strain(d):
            a = [[A.ZERO]*dim for _ in range(ns)]
            for r_, (i, j) in enumerate(st):
                h = K(F(1, 2))
                if j == d: a[r_][i] = a[r_][i] - h
                if i == d: a[r_][j] = a[r_][j] - h
            return a
        J = [strain(d) for d in range(dim)]
        r, rs = c.run(mods, 'star', ['j', 'o']), c.run(mods, 'stars', ['j', 'o'])
        nz = [(a, b) for a in range(ns) for b in range(dim) if any(J[d][a][b] is not A.ZERO for d in range(dim))]
        W = X['ViscoElasticity'] + '.cpp star'
        for e in range(dim):
            full = [[sum((J[d][a][b]*V(f'j[{d*dim+e}]') for d in range(dim)), A.ZERO) for b in range(dim)] for a in range(ns)]
            c.samemat('star', f'{dim}D dense {e}', r.mat('o', ns, dim, off=e*ns*dim), full, W)
            for k, (a, b) in enumerate(nz): c.same('star', f'{dim}D sparse {e} #{k}', rs.f64('o', e*len(nz)+k), full[a][b], W+' (sparse)')
        # ---- flux solvers
        L = [V(x) for x in ('rhoL', 'rhoR', 'lamL', 'lamR', 'muL', 'muR')]
        W = X['ViscoElasticity'] + '.cpp fs'
        def idsetup(it, s_):
            for nm, m in (('t', ns), ('u', nq)):
                for i in range(m):
                    for j in range(m): s_.wr(it.inputs[nm]).cells[8*(i*m+j)] = (8, A.ONE if i == j else A.ZERO, 'f')
            return s_
        mid = {}
        mir = [0, 2] if dim == 2 else [0, 3, 5]
        rl, rr, ll, lr, ml, mr = L
        zp = A.sqrt(rl*(ll+2*ml)), A.sqrt(rr*(lr+2*mr)); zs = A.sqrt(rl*ml), A.sqrt(rr*mr)
        qL, qR = [V(f'qL{i}') for i in range(nq)], [V(f'qR{i}') for i in range(nq)]
        for free in (False, True):
            r = c.run(mods, 'fs', L + ['t', 'u', 'l', 'r', A.TRUE if free else A.FALSE], pos=pos, setup=idsetup)
            fl_, fr_ = r.mat('l', ns, nq), r.mat('r', ns, nq)
            if not free: mid = (fl_, fr_)
            qr = [A.neg(x) if free and i in mir else x for i, x in enumerate(qR)]
            vs = []
            for k in range(dim):
                zL, zR = zp if k == 0 else zs
                vs.append((zL*qL[ns+k] + zR*qr[ns+k] + qr[mir[k]] - qL[mir[k]])/(zL+zR))
            exp = [A.ZERO]*ns
            exp[0] = A.neg(vs[0])
            for k in range(1, dim): exp[mir[k]] = A.neg(vs[k])*K(F(1, 2))
            for i in range(ns):
                got = sum((fl_[i][j]*qL[j] + fr_[i][j]*qR[j] for j in range(nq)), A.ZERO)
                c.same('riemann', f'{dim}D {"free surface" if free else "interior"} row {i}', got, exp[i], W, pos=pos)
        T, U = H.inmat('t', ns, ns), H.inmat('u', nq, nq)
        for free in (False, True):
            r = c.run(mods, 'fs', L + ['t', 'u', 'l', 'r', A.TRUE if free else A.FALSE], pos=pos)
            for sd, nm in ((0, 'l'), (1, 'r')):
                m = [row[:] for row in mid[sd]]
                if free and sd:
                    for row in m:
                        for k in mir: row[k] = A.neg(row[k])
                got = r.mat(nm, ns, nq); tm = H.matmul(T, m)
                for i in range(ns):
                    for j in range(nq):
                        if not c.same('sandwich', f'{dim}D {nm} free={free} [{i}][{j}]', got[i][j], sum((tm[i][q]*U[q][j] for q in range(nq)), A.ZERO), W, pos=pos): break
        # ---- assembly
        assembly(c, mods, el, dim, nq, ns, pos, X)
    return c.finish('All material parameters, quality factors, frequencies, normals and geometries symbolic; 2 and 3 mechanisms, 2D and 3D.',
                    ['real arithmetic', 'the least-squares solver (Eigen) is trusted', 'at least two relaxation mechanisms'], min_obl=1000)
LAYT = r'''
#include "constants.hpp"
#include "data/EntityLayout.type"
#include <cstddef>
extern "C" unsigned long lay[] = { sizeof(int_el), sizeof(t_vertexChars), offsetof(t_vertexChars, coords), offsetof(t_faceChars, area), offsetof(t_faceChars, outNormal), offsetof(t_faceChars, tangent0), offsetof(t_faceChars, tangent1), offsetof(t_faceChars, spType), sizeof(t_bgPars), FREE_SURFACE, OUTFLOW,
  offsetof(t_bgPars, rho), offsetof(t_bgPars, lam), offsetof(t_bgPars, mu), offsetof(t_bgPars, qp), offsetof(t_bgPars, qs) };
'''
def assembly(c, mods, el, dim, nq, ns, pos, X):
    m = B.load(None, B.edge_flags('viscoelastic2', el, 2, 64, 1), LAYT)
    it = I.Interp(m); o = it.glob_obj(m.globs['lay'])
    ct = dict(zip(('iw', 'sv', 'vc', 'fa', 'fn', 'f0', 'f1', 'fsp', 'sbg', 'FREE', 'OUT', 'rho', 'lam', 'mu', 'qp', 'qs'), [it.load(I.State(), I.Ptr(o, 8*i), it.mkty((8, 0, 'i'))) for i in range(16)]))
    nf = nv = dim+1; iw = ct['iw']
    crd = [[0]*dim] + [[1 if d == k else 0 for d in range(dim)] for k in range(dim)]
    h = [[V(f'h{k}{d}') for d in range(dim)] for k in range(2)]
    P = pos | {f'h{k}{d}' for k in range(2) for d in range(dim)}
    ne, na = nq*nq, ns*nq
    n = [V(f'n{d}') for d in range(3)]; s = [V(f's{d}') for d in range(3)]; t = [V(f't{d}') for d in range(3)]
    for nm, right, sp in (('interior', True, 0), ('free surface', False, ct['FREE']), ('outflow', False, ct['OUT'])):
        def setup(it, st):
            def put(o, off, v, w=8, k='f'): st.wr(it.inputs[o]).cells[off] = (w, v, k)
            put('faEl', 0, 0, iw, 'i'); put('faEl', iw, 1 if right else -1, iw, 'i')
            for k in range(2):
                for v in range(nv):
                    put('elVe', (k*nv+v)*iw, k*nv+v, iw, 'i')
                    for d in range(dim): put('vc', (k*nv+v)*ct['sv']+ct['vc']+8*d, V(f'o{k}{d}') + h[k][d]*crd[v][d])
                for f in range(nf): put('elFa', (k*nf+f)*iw, 0 if f == (1 if k == 0 else 0) else 7+k*nf+f, iw, 'i')
                for q in ('rho', 'lam', 'mu'): put('bg', k*ct['sbg']+ct[q], V(q+'LR'[k]))
            put('fc', ct['fa'], V('area')); put('fc', ct['fsp'], sp, 8, 'i')
            for d in range(dim):
                put('fc', ct['fn']+8*d, n[d])
                if dim == 3: put('fc', ct['f0']+8*d, s[d]); put('fc', ct['f1']+8*d, t[d])
            return st
        r = c.run(mods, 'initfs', [2, 0, 1, 0, ('rf', 2), ('re', iw), ('faEl', iw), ('elVe', iw), ('elFa', iw), 'vc', 'fc', 'ec', 'bg', 'bgr', 'e0', 'e1', 'a0', 'a1'], pos=P, setup=setup)
        for k, f, own, nb, sg in [(0, 1, 'L', 'R' if right else 'L', 1)] + ([(1, 0, 'R', 'L', -1)] if right else []):
            nn = [x if sg > 0 else A.neg(x) for x in n]
            # rotation of the stress components and inverse rotation of all of them, as the definition has it
            st_ = [(0, 0), (1, 1), (0, 1)] if dim == 2 else [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
            R = [[nn[0], A.neg(nn[1])], [nn[1], nn[0]]] if dim == 2 else [[nn[i], s[i], t[i]] for i in range(3)]
            if dim == 2:
                Ri = [[R[j][i] for j in range(2)] for i in range(2)]
            else:
                Ri = None
            T = [[R[i][a]*R[j][b] + (R[i][b]*R[j][a] if a != b else A.ZERO) for b_, (a, b) in enumerate(st_)] for (i, j) in st_]
            def s2(it, st):
                for i in range(ns):
                    for j in range(ns): st.wr(it.inputs['t']).cells[8*(i*ns+j)] = (8, T[i][j], 'f')
                # the inverse rotation is opaque here: recovered from the elastic solver's own convention below
                U = inverse(c, dim, nn, s, t)
                for i in range(nq):
                    for j in range(nq): st.wr(it.inputs['u']).cells[8*(i*nq+j)] = (8, U[i][j], 'f')
                return st
            q = c.run(mods, 'fs', [V(x+y) for x in ('rho', 'lam', 'mu') for y in (own, nb)] + ['t', 'u', 'l', 'r', A.TRUE if sp == ct['FREE'] else A.FALSE], pos=P, setup=s2)
            jd = A.ONE
            for d in range(dim): jd = jd*h[k][d]
            sca = A.neg(V('area')/jd)*(2 if el == 'TET4' else 1)
            for sd, x in ((0, 'l'), (1, 'r')):
                for e in range(na):
                    if not c.same('assembly', f'{el} {nm} side {k} solver {sd} entry {e}', r.f64(f'a{sd}', (k*nf+f)*na+e), sca*q.f64(x, e), 'src/impl/seismic/solvers/AderDgInit.hpp initFs (anelastic)', pos=P): return
    def setup(it, st):
        def put(o, off, v, w=8, k='f'): st.wr(it.inputs[o]).cells[off] = (w, v, k)
        for k in range(2):
            for v in range(nv):
                put('elVe', (k*nv+v)*iw, k*nv+v, iw, 'i')
                for d in range(dim): put('vc', (k*nv+v)*ct['sv']+ct['vc']+8*d, V(f'o{k}{d}') + h[k][d]*crd[v][d])
            for q in ('rho', 'lam', 'mu'): put('bg', k*ct['sbg']+ct[q], V(q+'LR'[k]))
        return st
    r = c.run(mods, 'initstar', [('elVe', iw), 'vc', 'bg', 'o', 'p'], pos=P, setup=setup)
    for k in range(2):
        ji = [[1/h[k][d] if d == e else A.ZERO for e in range(dim)] for d in range(dim)]
        def s3(it, st):
            for d in range(dim):
                for e in range(dim): st.wr(it.inputs['j']).cells[8*(d*dim+e)] = (8, ji[d][e], 'f')
            return st
        q = c.run(mods, 'star', ['j', 'o'], setup=s3)
        for e in range(dim*ns*dim): c.same('assembly', f'{el} star element {k} entry {e}', r.f64('p', k*dim*ns*dim+e), q.f64('o', e), 'src/impl/seismic/solvers/AderDgInit.hpp initStar (anelastic)', pos=P)
    # source matrices and unrelaxed moduli of two elements
    def s4(it, st):
        for k in range(2):
            for q in ('rho', 'lam', 'mu', 'qp', 'qs'): st.wr(it.inputs['bg']).cells[k*ct['sbg']+ct[q]] = (8, V(q+str(k)), 'f')
        return st
    P2 = {q+str(k) for q in ('rho', 'lam', 'mu', 'qp', 'qs') for k in range(2)} | {'fc', 'fr'}
    fits = {}
    def model(i_, i, a, st): i_.fits = fits; return lsq(i_, i, a, st)
    r = c.run(mods, 'initsrc', [2, V('fc'), V('fr'), 'bg', 'o'], pos=P2, setup=s4, models={'__vp_lsq': model})
    if not c.holds('assembly', sorted(fits) == [0, 1, 2, 3], f'{el} fits', 'initSrc: two fits per element expected'): return
    for k in range(2):
        f2 = {}
        def model2(i_, i, a, st): i_.fits = f2; return lsq(i_, i, a, st)
        q = c.run(mods, 'src', [2, V('fc'), V('fr'), V(f'qp{k}'), V(f'qs{k}'), V(f'lam{k}'), V(f'mu{k}'), 'le', 'me', 'o'], pos=P2, models={'__vp_lsq': model2})
        if not c.holds('assembly', sorted(f2) == [2*k, 2*k+1], f'{el} source fits of element {k}', 'two fits per element expected'): return
        W = 'src/impl/seismic/solvers/AderDgInit.hpp initSrcA'
        for a in range(2):
            for x, y in zip(fits[2*k+a][0], f2[2*k+a][0]):
                for u, v in zip(x, y): c.same('assembly', f'{el} source element {k} fit {a}', u, v, W, pos=P2)
        for e in range(2*ns*ns): 
            if not c.same('assembly', f'{el} source element {k} entry {e}', r.f64('o', k*2*ns*ns+e), q.f64('o', e), W, pos=P2): break
        for nm, x in (('lam', 'le'), ('mu', 'me')): c.same('assembly', f'{el} unrelaxed {nm} element {k}', r.get(I.Ptr(r.it.inputs['bg'], k*ct['sbg']+ct[nm]), 0), q.f64(x, 0), W, pos=P2)
        c.same('assembly', f'{el} density element {k}', r.get(I.Ptr(r.it.inputs['bg'], k*ct['sbg']+ct['rho']), 0), V(f'rho{k}'), W, pos=P2)
_inv = {}
def inverse(c, dim, n, s, t):
    """the inverse transformation (decided by C05), as the code computes it for these directions"""
    if dim not in _inv:
        f = B.edge_flags('elastic', 'TET4', 4, 64, 1)
        _inv[dim] = [c.driver(C05.CPP, f, 'impl/seismic/common.hpp')]
    if dim == 2: r = c.run(_inv[dim], 't2', [n[0], n[1], 't', 'u'])
    else: r = c.run(_inv[dim], 't3', n + s + t + ['t', 'u'])
    k = 5 if dim == 2 else 9
    return r.mat('u', k, k)
if __name__ == '__main__': H.main('C06', body)
