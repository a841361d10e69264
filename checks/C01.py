import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import permutations
from engine import harness as H, build as B, algebra as A, absint as I
TXT = r'''
#include "linalg/Matrix.h"
#include "data/MmVanilla.hpp"
using M = edge::linalg::Matrix;
extern "C" {
  double det2(double (*a)[2]) { return M::det(a); }
  double det3(double (*a)[3]) { return M::det(a); }
  double det4(double (*a)[4]) { return M::det(a); }
  double detd(unsigned short d, double *a) { return M::det(d, a); }
  void inv2(double (*a)[2], double (*o)[2]) { M::inv(a, o); }
  void inv3(double (*a)[3], double (*o)[3]) { M::inv(a, o); }
  void mm(unsigned m, unsigned n, unsigned k, double *a, double *b, double *c) { M::matMulB0(m, n, k, a, b, c); }
  void fac(unsigned short r, unsigned m, unsigned n, unsigned k, unsigned la, unsigned lb, unsigned lc, double al, double be, double *a, double *b, double *c) {
    M::matMulFusedAC(r, m, n, k, la, lb, lc, al, be, a, b, c); }
  void fbc(unsigned short r, unsigned m, unsigned n, unsigned k, unsigned la, unsigned lb, unsigned lc, double al, double be, double *a, double *b, double *c) {
    M::matMulFusedBC(r, m, n, k, la, lb, lc, al, be, a, b, c); }
  void tr(int_md n, double *a) { M::transposeDense(n, a); }
  // two kernels registered in two groups, the second one is called
  void vanilla(unsigned short r, unsigned m, unsigned n, unsigned k, unsigned la, unsigned lb, unsigned lc, double al, double be, bool ac, bool bc, double *a, double *b, double *c) {
    edge::data::MmVanilla<double> v;
    v.add(0, 1, 1, 1, 1, 1, 1, 3, 7, true, false, 1);
    v.add(1, m, n, k, la, lb, lc, al, be, ac, bc, r);
    v.m_kernels[1][0](a, b, c);
  }
  // sparse formats; out: n, then triplets
  void crd(unsigned r, unsigned c, double *a, double tol, unsigned *n, unsigned *ro, unsigned *co, double *v) {
    t_matCrd m; M::denseToCrd<double>(r, c, a, m, tol);
    *n = m.nz.size(); for (unsigned i = 0; i < *n; i++) { ro[i] = m.ro[i]; co[i] = m.co[i]; v[i] = m.nz[i]; } }
  void crdT(unsigned r, unsigned c, double *a, double tol, unsigned *n, unsigned *ro, unsigned *co, double *v) {
    t_matCrd m, t; M::denseToCrd<double>(r, c, a, m, tol); t.ro.push_back(7); t.co.push_back(7); t.nz.push_back(1); M::transposeCrd(m, t);
    *n = t.nz.size(); for (unsigned i = 0; i < *n; i++) { ro[i] = t.ro[i]; co[i] = t.co[i]; v[i] = t.nz[i]; } }
  void csr(unsigned r, unsigned c, double *a, double tol, unsigned sr, unsigned sc, unsigned *n, unsigned *p, unsigned *ix, double *v) {
    t_matCsr m; M::denseToCsr<double>(r, c, a, m, tol, sr, sc);
    *n = m.val.size(); ix[100] = m.colIdx.size(); p[100] = m.rowPtr.size();
    for (unsigned i = 0; i < m.val.size(); i++) { ix[i] = m.colIdx[i]; v[i] = m.val[i]; }
    for (unsigned i = 0; i < m.rowPtr.size(); i++) p[i] = m.rowPtr[i]; }
  void csc(unsigned r, unsigned c, double *a, double tol, unsigned sr, unsigned sc, unsigned *n, unsigned *p, unsigned *ix, double *v, bool fill) {
    t_matCsc m; M::denseToCsc<double>(r, c, a, m, tol, sr, sc, fill ? "qfma" : "none");
    *n = m.val.size(); ix[100] = m.rowIdx.size(); p[100] = m.colPtr.size();
    for (unsigned i = 0; i < m.val.size(); i++) { ix[i] = m.rowIdx[i]; v[i] = m.val[i]; }
    for (unsigned i = 0; i < m.colPtr.size(); i++) p[i] = m.colPtr[i]; }
  void block(unsigned r, unsigned c, double *a, double tol, unsigned *bi, unsigned *bo, unsigned *nnz, unsigned sr, unsigned sc) {
    t_matCrd m; M::denseToCrd<double>(r, c, a, m, tol);
    M::getBlockNz(m, (unsigned (*)[2]) bi, (unsigned (*)[2]) bo); *nnz = M::getNnzCrd(sr, sc, m); }
}
'''
def det(a):
    n = len(a); r = A.ZERO
    for p in permutations(range(n)):
        s = 1
        for i in range(n):
            for j in range(i): s = -s if p[j] > p[i] else s
        t = A.const(s)
        for i in range(n): t = t * a[i][p[i]]
        r = r + t
    return r
def sparse(c, m):
    """every zero pattern; the non-zero entries are unknown (any value above / below the tolerance)"""
    c.rule('sparse', 'the sparse form holds exactly the entries above the tolerance, at their positions, in order')
    MAX = 2**32 - 1
    def nosent(e): # no matrix entry equals the largest floating-point number
        return any(k[0] == 'sgn' and v == 0 and any(abs(x) > 10**300 for _, x in k[1]) for k, v in e.items())
    def setup(pat, R, C):
        def f(it, st):
            o = it.inputs['a']
            for i in range(R * C):
                x = A.var(f'p{i}') + 1
                if i % 3 == 2: x = A.neg(x)
                st.wr(o).cells[8 * i] = (8, x if pat >> i & 1 else A.ZERO, 'f')
            return st
        return f
    pos = {f'p{i}' for i in range(40)}
    u = lambda r, n, i: I.term(r.get(n, i, 'i', 32))
    def num(t, what):
        t = I.term(t)
        if not A.isc(t): raise H.Broken(f'{what}: size is not decided by the pattern')
        return t.a[0] & MAX
    def dense(r, R, C, n, pairs):
        d = {}
        for k, (i, j) in enumerate(pairs):
            if (i, j) in d: return None
            d[i, j] = r.f64('v', k)
        return d
    W = 'src/linalg/Matrix.h Matrix::'
    def compare(fn, r, R, C, sub, pat, pairs, exact=True):
        tag = f'{fn} {R}x{C} pattern {pat:b} sub {sub}'
        exp = {(i, j): (A.neg(A.var(f'p{i*C+j}') + 1) if (i*C+j) % 3 == 2 else A.var(f'p{i*C+j}') + 1) for i in range(R) for j in range(C) if pat >> (i*C+j) & 1 and i < sub[0] and j < sub[1]}
        if fn == 'crdT': exp = {(j, i): v for (i, j), v in exp.items()}
        got = dense(r, R, C, len(pairs), pairs)
        ok = got is not None and (set(got) == set(exp) if exact else set(got) >= set(exp))
        if not c.holds('sparse', ok, tag, f'{W}{fn}: {tag}: stored positions {sorted(pairs)} but the entries above the tolerance are {sorted(exp)}'): return False
        for k in got: 
            if not c.same('sparse', tag + f' value {k}', got[k], exp.get(k, A.ZERO), W + fn, pos=pos, prune=nosent): return False
        return True
    def one(R, C, pat, subs):
        kw = dict(pos=pos, setup=setup(pat, R, C))
        tol = A.const(0.000001)
        for fn in ('crd', 'crdT'):
            it_args = [R, C, 'a', tol, ('n', 4), ('ro', 4), ('co', 4), 'v']
            r = c.run(m, fn, it_args, **kw)
            n = num(u(r, 'n', 0), fn)
            pairs = [(num(u(r, 'ro', k), fn), num(u(r, 'co', k), fn)) for k in range(n)]
            if not compare(fn, r, R, C, (R, C), pat, pairs): return
            if not c.holds('sparse', pairs == sorted(pairs), f'{fn} order', f'{W}{fn}: entries are not in row-major order'): return
        for fn in ('csr', 'csc'):
            for sub in subs:
                arg = [x if x else -1 for x in sub]
                full = (sub[0] or R, sub[1] or C)
                for fill in (False,):
                    a = [R, C, 'a', tol, arg[0], arg[1], ('n', 4), ('p', 4), ('ix', 4), 'v']
                    if fn == 'csc': a.append(A.TRUE if fill else A.FALSE)
                    r = c.run(m, fn, a, **kw)
                    n = num(u(r, 'n', 0), fn)
                    np_ = num(u(r, 'p', 100), fn)
                    ext = full[0] if fn == 'csr' else full[1]
                    if not c.holds('sparse', np_ == ext + 1 and num(u(r, 'ix', 100), fn) == n, f'{fn} sizes', f'{W}{fn}: pointer array has {np_} entries for {ext} rows/columns'): return
                    p = [num(u(r, 'p', k), fn) for k in range(np_)]
                    if not c.holds('sparse', p[0] == 0 and p[-1] == n and all(x <= y for x, y in zip(p, p[1:])), f'{fn} pointers', f'{W}{fn}: pointers {p} for {n} entries (pattern {pat:b})'): return
                    pairs = []
                    for q in range(ext):
                        for k in range(p[q], p[q+1]):
                            x = num(u(r, 'ix', k), fn); pairs.append((q, x) if fn == 'csr' else (x, q))
                    if not compare(fn, r, R, C, full, pat, pairs, exact=not fill): return
        # bounding block of the non-zeros, and the count in a leading block
        import itertools
        for bi in ((MAX, MAX, MAX, MAX), (0, R-2 if R > 1 else 0, 0, MAX), (1, MAX, 1, C-1), (MAX, 0, MAX, 0)):
            def st2(it, st, bi=bi):
                st = setup(pat, R, C)(it, st)
                for k, v in enumerate(bi): st.wr(it.inputs['bi']).cells[4*k] = (4, v if v < 2**31 else v - 2**32, 'i')
                return st
            sr, sc = (R+1)//2, C
            r = c.run(m, 'block', [R, C, 'a', tol, ('bi', 4), ('bo', 4), ('nn', 4), sr, sc], pos=pos, setup=st2)
            inb = [(i, j) for i in range(R) for j in range(C) if pat >> (i*C+j) & 1 and (bi[0] == MAX or i >= bi[0]) and (bi[1] == MAX or i <= bi[1]) and (bi[2] == MAX or j >= bi[2]) and (bi[3] == MAX or j <= bi[3])]
            exp = [MAX]*4 if not inb else [min(i for i, _ in inb), max(i for i, _ in inb), min(j for _, j in inb), max(j for _, j in inb)]
            got = [num(u(r, 'bo', k), 'block') for k in range(4)]
            if not c.holds('sparse', got == exp, f'getBlockNz', f'{W}getBlockNz: {got} instead of {exp} for pattern {pat:b} in block {bi}'): return
            nn = sum(1 for i in range(sr) for j in range(sc) if pat >> (i*C+j) & 1)
            if not c.holds('sparse', num(u(r, 'nn', 0), 'nnz') == nn, 'getNnzCrd', f'{W}getNnzCrd: wrong count for pattern {pat:b}'): return
    pats = range(64) if c.tier == 'thorough' else [0, 1, 2, 4, 8, 16, 32, 63, 21, 42, 27, 54, 45, 30, 7, 56, 51, 62]
    for p in pats: one(2, 3, p, ((0, 0), (1, 2), (2, 2)))
    for p in ([0b1111, 0b10111, 0b1110, 0b11111, 0b0101101110, 0b1110111011, 0b0111101101] if c.tier != 'thorough' else range(0, 1024, 7)): one(5, 2, p, ((0, 0), (3, 2)))
def body(c):
    m = c.driver(TXT, B.edge_flags('elastic', 'TET4', 4, 64, 1), 'linalg/Matrix.h')
    W = 'src/linalg/Matrix.h'
    c.rule('det', 'the determinant is the signed sum over permutations')
    for n in (2, 3, 4):
        r = c.run(m, f'det{n}', ['a'])
        c.same('det', f'{n}x{n}', I.term(r.ret), det(H.inmat('a', n, n)), f'{W} Matrix::det')
        r = c.run(m, 'detd', [n, 'a'])
        c.same('det', f'run-time dimension {n}', I.term(r.ret), det(H.inmat('a', n, n)), f'{W} Matrix::det(dim)')
    c.rule('inv', 'the inverse times the matrix is the identity, from both sides')
    for n in (2, 3):
        r = c.run(m, f'inv{n}', ['a', 'o'])
        o = r.mat('o', n, n); a = H.inmat('a', n, n)
        c.samemat('inv', f'{n} A*inv', H.matmul(a, o), H.ident(n), f'{W} Matrix::inv')
        c.samemat('inv', f'{n} inv*A', H.matmul(o, a), H.ident(n), f'{W} Matrix::inv')
        c.samemat('inv', f'{n} input kept', r.mat('a', n, n), a, f'{W} Matrix::inv')
    c.rule('product', 'C = A*B, independent of what C held before')
    for (mm, nn, kk) in ((1, 1, 1), (2, 3, 4), (3, 2, 5), (4, 4, 3), (1, 5, 2), (5, 1, 3), (2, 2, 1)):
        r = c.run(m, 'mm', [mm, nn, kk, 'a', 'b', 'c'])
        c.samemat('product', f'{mm}x{nn}x{kk}', r.mat('c', mm, nn), H.matmul(H.inmat('a', mm, kk), H.inmat('b', kk, nn)), f'{W} Matrix::matMulB0')
    c.rule('transpose', 'the in-place transpose swaps rows and columns')
    for n in (1, 2, 3, 5):
        r = c.run(m, 'tr', [n, 'a'])
        a = H.inmat('a', n, n)
        c.samemat('transpose', f'{n}', r.mat('a', n, n), [list(x) for x in zip(*a)], f'{W} Matrix::transposeDense')
    c.rule('fused', 'C_r = alpha*A_r*B (or A*B_r) + beta*C_r for every fused run r, strided by the leading dimensions, nothing else written')
    al, be = A.var('alpha'), A.var('beta')
    def fused(fn, ac, rr, mm, nn, kk, la, lb, lc, alpha, beta, where):
        args = [rr, mm, nn, kk, la, lb, lc, alpha, beta]
        if fn == 'vanilla': args += [A.TRUE if ac else A.FALSE, A.FALSE if ac else A.TRUE]
        r = c.run(m, fn, args + ['a', 'b', 'c'])
        a, b, cc = (lambda i: A.var(f'a[{i}]')), (lambda i: A.var(f'b[{i}]')), (lambda i: A.var(f'c[{i}]'))
        for i in range(mm):
            for j in range(lc):
                for s in range(rr):
                    got = r.f64('c', i*lc*rr + j*rr + s); old = cc(i*lc*rr + j*rr + s)
                    if j < nn:
                        x = A.ZERO
                        for k in range(kk):
                            x = x + (a(i*la*rr + k*rr + s) * b(k*lb + j) if ac else a(i*la + k) * b(k*lb*rr + j*rr + s))
                        exp = alpha * x + beta * old
                    else: exp = old
                    if not c.same('fused', f'{fn} r{rr} {mm}x{nn}x{kk} ld{la},{lb},{lc} C[{i}][{j}][{s}]', got, exp, where): return
    for ac, fn in ((True, 'fac'), (False, 'fbc')):
        nm = f'{W} Matrix::matMulFused' + ('AC' if ac else 'BC')
        for (rr, mm, nn, kk, la, lb, lc) in ((1, 2, 3, 4, 4, 3, 3), (2, 3, 2, 2, 4, 5, 3), (3, 2, 2, 3, 5, 4, 6), (1, 1, 1, 1, 1, 1, 1), (2, 1, 3, 2, 2, 3, 4)):
            for beta in (be, A.ZERO, A.ONE):
                fused(fn, ac, rr, mm, nn, kk, la, lb, lc, al, beta, nm)
        fused('vanilla', ac, 2, 3, 2, 2, 4, 5, 3, al, be, 'src/data/MmVanilla.hpp MmVanilla::add / operator()')
        fused('vanilla', ac, 1, 2, 3, 4, 4, 3, 3, A.ONE, A.ZERO, 'src/data/MmVanilla.hpp MmVanilla::add / operator()')
    sparse(c, m)
    return c.finish('determinants, inverses, products, transposes and the fused (strided, multi-run) matrix kernels are evaluated in the algebraic domain with every matrix entry unknown; the value at each output cell is compared with the textbook polynomial',
                    ['real arithmetic: rounding is abstracted away', 'matrix extents are the listed shapes, entries are arbitrary'], min_obl=150)
if __name__ == '__main__': H.main('C01', body)
