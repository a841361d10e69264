import sys, os; sys.path.insert(0, os.environ.get('VP_DIR') or os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
from fractions import Fraction as Q
import itertools, math
TXT = r'''
#include <vector>
#include <string>
#include <algorithm>
#include <numeric>
#include <limits>
#include <iostream>
#include <sstream>
#include "constants.hpp"
#include "data/Dynamic.h"
#include "data/SparseEntities.hpp"
#include "impl/seismic/setups/PointSources.hpp"
using namespace edge;
typedef std::size_t L; typedef long long S;
struct G { double coords[3]; S spType; }; struct F { S spType; };
typedef seismic::setups::PointSources< double, L, EL, 2, 2 > P;
alignas(64) static char ps[sizeof(P)]; alignas(64) static char dy[sizeof(data::Dynamic)];
extern "C" {
  void mk() { new (ps) P; new (dy) data::Dynamic; }
  bool ini( std::string const *p, S t, L n, L const (*v)[C_ENT[EL].N_VERTICES], G const *vc, double const *m, F *e ) { return ((P*) ps)->init( p, t, n, v, vc, m, e, *(data::Dynamic*) dy ); }
  void app( L f, L n, double a, double b, double (*d)[C_ENT[EL].N_DIM == 2 ? 5 : 9][CE_N_ELEMENT_MODES( EL, 2 )][2] ) { ((P*) ps)->apply( f, n, a, b, d ); }
  void ser( double dx, double x0, L n, double const (*v)[2], double a, double b, double *o, double na ) { linalg::Series<2>::integrate( dx, x0, n, v, a, b, o, na ); }
}
'''
SE = 'src/linalg/Series.hpp'; PS = 'src/impl/seismic/setups/PointSources.hpp'
def integral(dx, x0, v, a, b, na):
    """exact integral of the linear interpolation of the samples v, na outside; weights are exact, the samples symbolic"""
    n = len(v); xe = x0+(n-1)*dx; r = [A.ZERO]*len(v[0])
    for c in range(len(r)):
        w = A.ZERO
        out = (max(0, min(b, x0)-a) if a < x0 else 0) + (max(0, b-max(a, xe)) if b > xe else 0)
        w = w + A.const(out)*A.lift(na)
        for k in range(n-1):
            l, h = max(a, x0+k*dx), min(b, x0+(k+1)*dx)
            if h <= l: continue
            t0, t1 = (l-x0-k*dx)/dx, (h-x0-k*dx)/dx
            i1 = (t1*t1-t0*t0)/2*dx; i0 = (h-l)-i1
            w = w + A.const(i0)*v[k][c] + A.const(i1)*v[k+1][c]
        r[c] = w
    return r
def lcg(seed):
    while True: seed = (seed*6364136223846793005 + 1442695040888963407) % 2**64; yield seed >> 33
def cell(s, o, off, size, v, kd): s.wr(o).cells[off] = (size, v, kd)
class Hdf:
    """what the HDF5 calls of a reader see: typed data sets of several files"""
    def __init__(s, files): s.files = files; s.h = []; s.open = {}
    def new(s, *x): s.h.append(x); s.open[len(s.h)] = x; return len(s.h)
    def models(s):
        def fopen(it, i, a, st): return s.new('file', a[0].off//32)
        def dopen(it, i, a, st):
            n = I.cstr_at(it, st, a[1]); f = s.h[a[0]-1]
            if f[0] != 'file' or n is None or n.decode() not in s.files[f[1]]: raise I.Bottom(f'no data set {n}')
            return s.new('set', f[1], n.decode())
        def sub(k):
            def f(it, i, a, st): return s.new(k, *s.h[a[0]-1][1:])
            return f
        def data(h):
            x = s.h[h-1]; return s.files[x[1]][x[2]]
        def cls(it, i, a, st): return 0 if data(a[0])[0] == 'u' else 1
        def nd(it, i, a, st): return len(data(a[0])[1])
        def dims(it, i, a, st):
            for k, d in enumerate(data(a[0])[1]): it.store(st, I.Ptr(a[1].o, a[1].off+8*k), d, it.mkty((8, 0, 'i')))
            return len(data(a[0])[1])
        def read(it, i, a, st):
            ty, dm, v = data(a[0]); p = a[5]
            w = 8 if ty == 'u' else 4
            if not isinstance(p.off, int): raise I.Bottom('read to an unknown place')
            lim = p.o.size
            if isinstance(lim, int) and p.off+w*len(v) > lim: raise I.Bottom('the data is read to a too small buffer')
            for k, x in enumerate(v): it.store(st, I.Ptr(p.o, p.off+w*k), A.lift(x) if ty == 'f' else x, it.mkty((8, 0, 'i')) if ty == 'u' else f32(it))
            return 0
        def close(k):
            def f(it, i, a, st):
                if a[0] not in s.open or s.open[a[0]][0] != k: raise I.Bottom('closed twice or as something else')
                del s.open[a[0]]; return 0
            return f
        def f32(it):
            t = it.mkty((4, 0, 'f')); t.w = 32; return t
        return {'H5open': lambda *x: 0, 'H5check_version': lambda *x: 0, 'H5Fopen': fopen, 'H5Dopen2': dopen, 'H5Dget_type': sub('type'), 'H5Dget_space': sub('space'), 'H5Tget_class': cls, 'H5Sget_simple_extent_ndims': nd, 'H5Sget_simple_extent_dims': dims, 'H5Dread': read, 'H5Sclose': close('space'), 'H5Tclose': close('type'), 'H5Dclose': close('set'), 'H5Fclose': close('file')}
def series(c, m):
    v = [[A.var(f's{k}{x}') for x in range(2)] for k in range(5)]
    for dx, x0 in ((Q(1), Q(0)), (Q(1, 2), Q(-3, 4)), (Q(3), Q(7))):
        for n in (1, 2, 3, 5) if c.tier == 'thorough' else (2, 4):
            xe = x0+(n-1)*dx
            pts = sorted({x0-2*dx, x0-dx/3, x0, xe, xe+dx/5, xe+2*dx} | {x0+(k+Q(f))*dx for k in range(n-1) for f in (Q(0), Q(1, 8), Q(1, 2), Q(7, 8))})
            for a, b in itertools.combinations_with_replacement(pts, 2):
                s = c.session([m])
                for k in range(n):
                    for x in range(2): s.put('v', (k*2+x)*8, v[k][x], 8, 'f')
                for na in (A.var('na'), A.ZERO):
                    key = f'step {dx}, start {x0}, {n} samples, from {a} to {b}' + ('' if na is not A.ZERO else ', zero outside')
                    if not s.call('ser', A.const(dx), A.const(x0), n, ('v', 16), A.const(a), A.const(b), 'o', na): c.holds('series', False, key, f'{SE}: {s.why}'); continue
                    w = integral(dx, x0, v[:n], a, b, na)
                    for x in range(2): c.same('series', f'{key}, series {x}', s.get('o', x), w[x], SE)
def sources(c, m, T, scen):
    nd = 2 if T == 'TRIA3' else 3; nv = nd+1; nq = 5 if nd == 2 else 9; nm = nv
    name, ty, tags, src, lens, order = scen   # src[run]: element of every source or None (other rank); lens[run]: samples per source
    key = f'{T}: {name}'
    nel = len(tags); rnd = lcg(len(name)*7+c.seed); pick = lambda k: next(rnd) % k
    # mesh: elements with vertices of their own; element e is a scaled reference element
    ves = [[e*nv+k for k in order(e, nv)] for e in range(nel)]
    xyz = []
    for e in range(nel):
        h = Q(e+1, 2); org = [Q(3*e+d) for d in range(nd)]
        xs = [[org[d]+(h*(1+Q(d, 4)) if k == d+1 else 0) + (h/8 if k == nd and d == 0 and nd > 1 else 0) for d in range(nd)] for k in range(nv)]
        for k, x in enumerate(ves[e]): xyz.append((x, xs[k]))
    crd = dict(xyz)
    pts = []; files = []; prj = {}
    for r, els in enumerate(src):
        ps = []
        for k, e in enumerate(els):
            ref = [Q(1+pick(3), 10) for _ in range(nd)]
            e0 = e if e is not None else 0
            V = [crd[x] for x in ves[e0]]
            # the given point is off; its closest point of the element has the reference coordinates ref
            p = [V[0][d] + sum(ref[j]*(V[j+1][d]-V[0][d]) for j in range(nd)) for d in range(nd)]
            raw = [p[d] + Q(1+k+8*r+64*d, 1024) for d in range(nd)]
            ps.append((raw, p, ref))
        pts.append(ps)
        off = [3*r]   # the first series does not need to start at the first value
        for l in lens[r]: off.append(off[-1]+l)
        N = len(els)
        files.append({'points': ('f', [N, nd], [x for p in ps for x in p[0]]),
                      'scalings': ('f', [N, nq], [A.var(f'sc{r}_{k}_{q}') for k in range(N) for q in range(nq)]),
                      'time_parameters': ('f', [N, 2], [x for k in range(N) for x in (Q(k-1, 2)+r, Q(1+k % 3, 2))]),
                      'time_pointers': ('u', [N+1], off),
                      'time_series': ('f', [off[-1]], [A.var(f'ts{r}_{k}') for k in range(off[-1])])})
    hd = Hdf(files); calls = []
    def ptto(it, i, a, st):
        r = len(calls); n = a[1]
        ok = a[0] == ET[T] and n == len(src[r]) and a[3] == nel and isinstance(a[4], I.Ptr) and a[4].o.name == 'ev' and a[4].off == 0 and isinstance(a[5], I.Ptr) and a[5].o.name == 'vc'
        got = [[num(it.load(st, I.Ptr(a[2].o, a[2].off+8*(k*3+d)), F64(it))) for d in range(3)] for k in range(len(src[r]))]
        calls.append(ok and got == [p[0]+[0]*(3-nd) for p in pts[r]])
        for k, e in enumerate(src[r]): it.store(st, I.Ptr(a[6].o, a[6].off+8*k), -1 if e is None else e, it.mkty((8, 0, 'i')))
        return sum(e is not None for e in src[r])
    def F64(it):
        t = it.mkty((8, 0, 'f')); t.w = 64; return t
    def num(v): return v.a[0] if isinstance(v, A.T) and A.isc(v) else v
    def close(it, i, a, st):
        V = [[num(it.load(st, I.Ptr(a[1].o, a[1].off+8*(d*nv+k)), F64(it))) for d in range(nd)] for k in range(nv)]
        p = [num(it.load(st, I.Ptr(a[2].o, a[2].off+8*d), F64(it))) for d in range(nd)]
        for r in range(len(src)):
            for k, e in enumerate(src[r]):
                if e is not None and pts[r][k][0] == p and [crd[x] for x in ves[e]] == V:
                    for d in range(nd): it.store(st, I.Ptr(a[2].o, a[2].off+8*d), A.const(pts[r][k][1][d]), F64(it))
                    return A.var('distance')
        raise I.Bottom(f'a point is projected to an element it is not in: {p} {V}')
    def basis(it, i, a, st):
        if a[1] != ET[T] or a[5] not in (-1, 0xffffffff) or a[6] != 2: raise I.Bottom('basis of another element, order or a derivative')
        x = [num(v) for v in a[2:2+nd]]
        return A.var(f'b{a[0]}({x})')
    mod = dict(hd.models())
    for f in m.fns:
        if f.endswith('4sizeEv') and 'basic_string' in f: mod[f] = lambda it, i, a, st: 5 if not name.startswith('no file') else 5*(a[0].off == 0)
        if f.endswith('5c_strEv') or f.endswith('4dataEv') and 'basic_string' in f: mod[f] = lambda it, i, a, st: a[0]
        if 'SparseEntities6ptToEn' in f: mod[f] = ptto
        if 'Geom12closestPoint' in f: mod[f] = close
        if f.startswith('_ZN4edge2dg5Basis9evalBasis'): mod[f] = basis
        if f.startswith('_ZN4edge4data7Dynamic8allocate'): mod[f] = lambda it, i, a, st: I.m_alloc(it, i, [a[1]], st)
        if f.startswith('_ZN4edge4data7DynamicC'): mod[f] = lambda *x: None
    s = c.session([m], models=mod)
    for e in range(nel):
        s.put('ec', 8*e, tags[e])
        for k in range(nv): s.put('ev', 8*(e*nv+k), ves[e][k])
    for x, p in crd.items():
        for d in range(3): s.put('vc', 32*x+8*d, A.const(p[d]) if d < nd else A.ZERO, 8, 'f')
    mi = [A.var(f'mi{k}') for k in range(nm)]
    for k in range(nm): s.put('mi', 8*k, mi[k], 8, 'f')
    bad = name.startswith('inconsistent')
    if bad:
        dk, f = order.bad; ty_, dm, v = files[0][dk]; files[0][dk] = (ty_, f(list(dm)), v)
    r = s.call('mk') and s.call('ini', ('paths', 32), ty, nel, ('ev', 8*nv), ('vc', 32), 'mi', 'ec')
    if bad: c.holds('reject', not r, key, f'{PS}: sources with inconsistent data are accepted'); return
    if not c.holds('init', r, key, f'{PS}: the initialization of the sources fails: {s.why}'): return
    nofile = name.startswith('no file')
    c.holds('init', str(s.ret) == ('false' if nofile else 'true'), f'{key}: result', f'{PS}: init returns {s.ret}')
    if not nofile: c.holds('init', calls == [True]*len(src), f'{key}: points', f'{PS} getIds: the points, elements or vertices used to locate the sources are wrong')
    c.holds('init', not hd.open, f'{key}: handles', f'{PS}: HDF5 objects are not closed: {list(hd.open.values())[:4]}')
    has = [any(e == x for els in src for x in els) and not nofile for e in range(nel)]
    w = [t | ty if h else t for t, h in zip(tags, has)]
    g = [s.int('ec', e) for e in range(nel)]
    c.holds('tags', g == w, key, f'{PS} init: types {g}, expected {w}')
    sp = [e for e in range(nel) if w[e] & ty == ty]   # dense ids of the sparse source elements
    base = s.fork()
    for t1, t2 in ((Q(0), Q(2)), (Q(-3), Q(9)), (Q(9, 8), Q(5, 4)), (Q(1), Q(1))):
        rg = [(f, n) for f in range(len(sp)+1) for n in range(len(sp)-f+1)]
        if c.tier == 'quick': rg = [(0, len(sp))] + [x for x in rg if (x[0]+x[1]) % 3 == 1][:3]
        for f, n in rg:
            s.st = base.fork() if hasattr(base, 'fork') else base; k1 = f'{key}, [{t1}, {t2}], elements {f}+{n}'
            if not s.call('app', f, n, A.const(t1), A.const(t2), ('d', nq*nm*16)): c.holds('apply', False, k1, f'{PS} apply: {s.why}'); continue
            done = set(sp[f:f+n])
            for e in range(nel):
                for q, b, x in itertools.product(range(nq), range(nm), range(2)):
                    ix = ((e*nq+q)*nm+b)*2+x; want = A.var(f'd[{ix}]')
                    if e in done and not nofile:
                        V = [crd[y] for y in ves[e]]; J = [[V[j+1][d]-V[0][d] for j in range(nd)] for d in range(nd)]
                        det = J[0][0]*J[1][1]-J[0][1]*J[1][0] if nd == 2 else sum(J[0][j]*(J[1][(j+1) % 3]*J[2][(j+2) % 3]-J[1][(j+2) % 3]*J[2][(j+1) % 3]) for j in range(3))
                        fl = files[x]; tp = fl['time_parameters'][2]; po = fl['time_pointers'][2]
                        for k, el in enumerate(src[x]):
                            if el != e: continue
                            iv = integral(tp[2*k+1], tp[2*k], [[v] for v in fl['time_series'][2][po[k]:po[k+1]]] if po[k] == 0 else [[A.var(f'ts{x}_{z}')] for z in range(po[k], po[k+1])], t1, t2, A.ZERO)[0]
                            want = want + iv*A.var(f'sc{x}_{k}_{q}')*A.var(f'b{b}({pts[x][k][2]})')*mi[b]*A.const(1/det)
                    if not c.same('apply', f'{k1}: element {e}, quantity {q}, mode {b}, run {x}', s.get('d', ix), want, PS+' apply'): break
ET = {}
def body(c):
    jobs = {T: (B.edge_flags('elastic', T, 2, 64, 1, extra=('-fno-inline', f'-DEL={T}'))) for T in ('TRIA3', 'TET4')}
    c.prefetch([(None, f, TXT) for f in jobs.values()])
    mods = {T: c.driver(TXT, f, f'point sources {T}') for T, f in jobs.items()}
    ET.update({'TRIA3': 3, 'TET4': 5})
    c.rule('series', 'the integral of a sampled function is the one of its linear interpolation, with the given value outside of the samples')
    c.rule('init', 'the sources are located with their own coordinates and set up for every run')
    c.rule('reject', 'source files with inconsistent numbers of sources, dimensions or types are rejected')
    c.rule('tags', 'exactly the elements with sources get the sparse type, and no other type changes')
    c.rule('apply', 'every source of the given elements adds, once, its integrated series times its scaling times the basis at its point times the inverse mass over the volume, to its own run and element')
    series(c, mods['TRIA3'])
    ident = lambda e, n: range(n)
    S = [('two runs', 4, [0, 1, 0, 0, 4], [[3, 1, 3, None, 0, 3], [1, 1, 4]], [[3, 2, 4, 2, 1, 2], [2, 5, 3]], ident),
         ('two bits, tags before', 0x30, [0x10, 0x20, 0x30, 1, 0x31], [[4, 0], [None, 0, 3, 0]], [[2, 2], [3, 2, 2, 4]], ident),
         ('one run without local sources', 4, [0, 0], [[None, None], [1]], [[2, 2], [3]], ident),
         ('no file', 4, [0, 4], [[1], [0]], [[2], [2]], ident)]
    if c.tier == 'thorough':
        rnd = lcg(c.seed); pick = lambda k: next(rnd) % k
        for z in range(12):
            els = [[None if pick(5) == 0 else pick(4) for _ in range(pick(8)+1)] for _ in range(2)]
            S.append((f'random {z}', (4, 0x30)[z % 2], [pick(8) for _ in range(4)], els, [[1+pick(4) for _ in e] for e in els], ident))
    for T in mods:
        for x in S: sources(c, mods[T], T, x)
        for dk, f in (('points', lambda d: [d[0]+1, d[1]]), ('points', lambda d: [d[0], d[1]+1]), ('scalings', lambda d: [d[0]-1, d[1]]), ('scalings', lambda d: [d[0], d[1]-1]), ('time_parameters', lambda d: [d[0]+1, d[1]]), ('time_parameters', lambda d: [d[0], 1]), ('time_pointers', lambda d: [d[0]-1]), ('time_pointers', lambda d: [d[0]+1]), ('time_series', lambda d: d+[1])):
            o = lambda e, n: range(n)
            o.bad = (dk, f); sources(c, mods[T], T, (f'inconsistent {dk} {f([2, 2])}',) + S[0][1:5] + (o,))
    return c.finish('Series::integrate and the whole life of the point sources (reading, locating, sorting, scaling, applying) are interpreted over symbolic samples, scalings, basis values and solutions; times, points and the assignment to elements are exact rationals', ['HDF5 returns the contents of the data sets', 'locating the element of a point is C19, the basis functions are C03'], 400)
if __name__ == '__main__': (H.main('C12', body))
