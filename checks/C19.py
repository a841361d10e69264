import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
import itertools
TXT = r'''
#include <vector>
#include <string>
#include "constants.hpp"
#ifdef VP_ALLOC
#define GHR_DEFAULT 0
extern "C" { int hbw_posix_memalign( void**, unsigned long, unsigned long ); void hbw_free( void* ); void *get_hugepage_region( unsigned long, int ); void free_hugepage_region( void* ); int gethugepagesizes( long*, int ); long gethugepagesize(); }
#endif
#include "data/SparseEntities.hpp"
#include "data/EntityLayout.cpp"
#include "data/Dynamic.cpp"
#include "mesh/SparseTypes.hpp"
#include "linalg/HalfSpace.hpp"
#include "linalg/Domain.hpp"
using namespace edge;
typedef int_el L; typedef int_spType S;
struct F { S spType; }; struct G { double coords[3]; S spType; };
typedef data::SparseEntities E;
template< typename R, unsigned short N > struct Obj { int id; Obj( int i ): id( i ) {} bool inside( R const *pt ) const; };
extern "C" bool h_in( int id, double const *pt );
template< typename R, unsigned short N > bool Obj<R,N>::inside( R const *pt ) const { return h_in( id, pt ); }
alignas(64) static char dy[sizeof(data::Dynamic)], ly[sizeof(t_enLayout)];
#define Y (*(t_enLayout*) ly)
extern "C" {
  L nSp( L n, S t, F const *c ) { return E::nSp( n, t, c ); }
  void d2s( unsigned short n, S t, G const *c, std::size_t const *ii, std::size_t const *is, std::size_t *oi, std::size_t *os ) { E::denseToSparse( n, t, c, ii, is, oi, os ); }
  void sub( L f, unsigned n, L const *s, S t, F const *c, L *of, L *os ) { E::subRgnsSpId( f, n, s, t, c, of, os ); }
  void inh( L n, S a, S b, F *c ) { E::inherit( n, a, b, c ); }
  void prp( L n, unsigned short k, L const *a, S ti, S to, F const *c0, G *c1 ) { E::propAdj( n, k, a, ti, to, c0, c1 ); }
  void prd( L n, L const * const *a, S ti, S to, F const *c0, G *c1 ) { E::propAdj( n, a, ti, to, c0, c1 ); }
  void lde( L n, S t, F const *c, L *o ) { E::linkSpDe( n, t, c, o ); }
  void lss( L n, S t, S u, F const *c, L *o ) { E::linkSpSp( n, t, u, c, o ); }
  void las( L n, unsigned short k, L const *a, S t, G const *c, L *o ) { E::linkSpAdjSst( n, k, a, t, c, o ); }
  void lad( L n, unsigned short k, L const *a, S f, S t, F const *c, G const *d, L *o ) { E::linkSpAdjDst( n, k, a, f, t, c, d, o ); }
  void nla( L n, L const * const *a, S f, S t, F const *c, G const *d, L *r, L *p ) { E::nLinkSpAdjDst( n, a, f, t, c, d, *r, *p ); }
  void ladd( L n, L const * const *a, S f, S t, F const *c, G const *d, L *r, L **p ) { E::linkSpAdjDst( n, a, f, t, c, d, r, p ); }
  void mkdyn() { new (dy) data::Dynamic; }
  void *alloc( unsigned long s, unsigned long a, bool h, bool u ) { return ((data::Dynamic*) dy)->allocate( s, a, h, u ); }
  void deldyn() { ((data::Dynamic*) dy)->~Dynamic(); }
  double **flex( L n, unsigned short k, std::size_t b, S *t, std::size_t *z, F *c ) { return ((data::Dynamic*) dy)->flex<double>( n, k, b, t, z, c ); }
  void mklay( int n ) { new (ly) t_enLayout; Y.timeGroups.resize( n ); for( int t = 0; t < n; t++ ) { Y.timeGroups[t].inner.first = Y.timeGroups[t].inner.size = Y.timeGroups[t].nEntsOwn = Y.timeGroups[t].nEntsNotOwn = 77; } Y.nEnts = 77; }
  void layrgn( int t, int n ) { Y.timeGroups[t].send.resize( n ); Y.timeGroups[t].receive.resize( n ); for( int i = 0; i < n; i++ ) Y.timeGroups[t].send[i].first = Y.timeGroups[t].receive[i].first = 77; }
  void laysz( int t, int k, int i, L s ) { auto &g = Y.timeGroups[t]; if( k == 0 ) g.inner.size = s; if( k == 1 ) g.send[i].size = s; if( k == 2 ) g.receive[i].size = s; }
  void layout() { data::EntityLayout::sizesToLayout( Y ); }
  L lay( int t, int k, int i ) { auto &g = Y.timeGroups[t]; return k == 0 ? g.inner.first : k == 1 ? g.send[i].first : k == 2 ? g.nEntsOwn : k == 3 ? Y.nEnts : k == 4 ? g.inner.size : g.send[i].size; }
  void spt( L n, L const (*v)[3], S const *t, int nd, int const *no, G const *vc, F *c ) {
    std::vector< linalg::Domain< double, 2, Obj > > d( nd ); int o = 0; for( int i = 0; i < nd; i++ ) for( int j = 0; j < no[i]; j++ ) d[i].add( Obj< double, 2 >( o++ ) );
    mesh::SparseTypes< TRIA3 >::set( n, v, t, d, vc, c ); }
  L pte( L np, double const (*p)[3], L ne, L const *v, G const *vc, L *de ) { return E::ptToEn( TRIA3, np, p, ne, v, vc, de ); }
  bool hs1( double *o, double *n, double *p ) { return linalg::HalfSpace< double, 1 >( o, n ).inside( p ); }
  bool hs2( double *o, double *n, double *p ) { return linalg::HalfSpace< double, 2 >( o, n ).inside( p ); }
  bool hs3( double *o, double *n, double *p ) { return linalg::HalfSpace< double, 3 >( o, n ).inside( p ); }
}
'''
SE = 'src/data/SparseEntities.hpp'
def lcg(seed):
    while True: seed = (seed*6364136223846793005 + 1442695040888963407) % 2**64; yield seed >> 33
def body(c):
    fl = B.edge_flags('elastic', 'TRIA3', 2, 64, 1, extra=('-fno-inline',)); fh = B.edge_flags('elastic', 'TRIA3', 2, 64, 1, extra=('-fno-inline', '-DPP_USE_HUGETLBFS', '-DPP_USE_MEMKIND', '-DVP_ALLOC'))
    c.prefetch([(None, fl, TXT), (None, fh, TXT)])
    m = c.driver(TXT, fl, 'sparse')
    c.rule('member', 'an entity belongs to a sparse type exactly if it has all bits of the type')
    c.rule('number', 'sparse ids are consecutive and in dense order; sub-regions and groups count their own entities')
    c.rule('link', 'links lead to the sparse id of the adjacent entity in the same slot, or are invalid if it has none')
    c.rule('prop', 'types are propagated to adjacent entities of matching entities only, and nothing else changes')
    c.rule('layout', 'regions follow each other without gaps: inner regions of all groups, then their send regions; owned entities are counted')
    c.rule('domain', 'a sparse type of a domain is set exactly for entities with all vertices in all objects of the domain')
    c.rule('plane', 'a point is in a half-space exactly if it is on the side of its normal, or at most 1E-6 off')
    c.rule('point', 'a point is assigned to the closest entity, and dropped if another rank owns it')
    c.rule('memory', 'every allocation is released once the way it was allocated; pieces of an allocation are disjoint and fill it')
    L = 8 if '_ZN4edge4data14SparseEntities3nSpI' else 8
    rnd = lcg(c.seed)
    pick = lambda k: next(rnd) % k
    fits = lambda t, ty: t & ty == ty
    cnt = lambda tys, ty: sum(fits(t, ty) for t in tys)
    FC, GC = 8, 32
    def ints(s, name, vals, size=8):
        for i, v in enumerate(vals): s.put(name, i*size, v, size)
    def fch(s, name, tys):
        for i, t in enumerate(tys): s.put(name, i*FC, t)
    def gch(s, name, tys, xyz=None):
        for i, t in enumerate(tys):
            s.put(name, i*GC+24, t)
            if xyz:
                for d in range(3): s.put(name, i*GC+8*d, A.lift(xyz[i][d]), 8, 'f')
    def ok(rule, s, key, fn, *a):
        r = s.call(fn, *a)
        if not r: c.holds(rule, False, key, f'{SE}: {s.why}')
        return r
    lg = []
    def pm(it, i, a, st):
        o = it.input_obj(f'blk{len(lg)}'); o.size = a[2]
        lg.append(('alloc', a[1], a[2], o)); it.store(st, a[0], I.Ptr(o, 0), it.mkty((8, 0, 'p'))); return 0
    def fr(it, i, a, st): lg.append(('free', a[0])); return None
    # every entity of a type has all of the bits; two types share bits, one is contained in the other
    TY = (1, 2, 3, 6)
    pats = [[0]*5, [7]*5, [1, 2, 3, 4, 6], [3, 1, 7, 0, 2], [6, 3, 0, 7, 5]] + [[pick(8) for _ in range(pick(4)+3)] for _ in range(10 if c.tier == 'quick' else 60)]
    for pi, tys in enumerate(pats):
        n = len(tys); K = f'pattern {tys}'
        adjn = 3; nto = 6; tos = [pick(8) for _ in range(nto)]; full = [[pick(nto+1) for _ in range(adjn)] for _ in range(n)]
        rag = [[pick(nto) for _ in range(pick(4))] for _ in range(n)]
        # sometimes only the last adjacent entity has the highest id
        for ty in TY[:2] + (TY[2+pi % 2],):
            k = f'{K}, type {ty}'
            s = c.session([m]); fch(s, 'c', tys)
            if ok('member', s, k, 'nSp', n, ty, 'c'): c.holds('member', s.ret == cnt(tys, ty), f'count: {k}', f'{SE}: nSp = {s.ret}')
            s = c.session([m]); fch(s, 'c', tys); ints(s, 'o', [77]*(n+1))
            if ok('number', s, k, 'lde', n, ty, 'c', 'o'):
                w = [i for i in range(n) if fits(tys[i], ty)]; g = [s.int('o', i) for i in range(n+1)]
                c.holds('number', g == w + [77]*(n+1-len(w)), f'dense ids: {k}', f'{SE} linkSpDe: {g}, expected {w}')
            # regions
            ngr = 2 + pi % 2; ii = [pick(3) for _ in range(ngr)]; ss = [pick(3) for _ in range(ngr)]; tot = sum(ii)+sum(ss); t2 = [tys[i % n] for i in range(tot)]
            s = c.session([m]); gch(s, 'c', t2); ints(s, 'ii', ii); ints(s, 'ss', ss); ints(s, 'oi', [77]*ngr); ints(s, 'os', [77]*ngr)
            if ok('number', s, k, 'd2s', ngr, ty, 'c', 'ii', 'ss', 'oi', 'os'):
                p = 0; w = []
                for z in ii + ss: w.append(cnt(t2[p:p+z], ty)); p += z
                g = [s.int(o, i) for o in ('oi', 'os') for i in range(ngr)]
                c.holds('number', g == w, f'groups {ii} {ss}: {k}', f'{SE} denseToSparse: {g}, expected {w}')
            first = pick(3); s = c.session([m]); fch(s, 'c', t2 + tys*2); ints(s, 'z', ii); ints(s, 'f', [77]*ngr); ints(s, 'o', [77]*ngr)
            if ok('number', s, k, 'sub', first, ngr, 'z', ty, 'c', 'f', 'o'):
                al = t2 + tys*2; p = first; w = []
                for z in ii: w += [(cnt(al[:p], ty), cnt(al[p:p+z], ty))]; p += z
                g = [(s.int('f', i), s.int('o', i)) for i in range(ngr)]
                c.holds('number', g == w, f'sub-regions from {first} of {ii}: {k}', f'{SE} subRgnsSpId: {g}, expected {w}')
            for ty1 in TY:
                k1 = f'{k}, other {ty1}'
                s = c.session([m]); fch(s, 'c', tys)
                out = 8 | ty1
                if ok('prop', s, k1, 'inh', n, ty, out, 'c'):
                    g = [s.int('c', i) for i in range(n)]; w = [t | out if fits(t, ty) else t for t in tys]
                    c.holds('prop', g == w, f'inherit: {k1}', f'{SE} inherit: {g}, expected {w}')
                s = c.session([m]); fch(s, 'c', tys); ints(s, 'o', [77]*(n+1))
                if ok('link', s, k1, 'lss', n, ty, ty1, 'c', 'o'):
                    w = [cnt(tys[:i], ty1) if fits(tys[i], ty1) else -1 for i in range(n) if fits(tys[i], ty)]; g = [s.int('o', i) for i in range(n+1)]
                    c.holds('link', g == w + [77]*(n+1-len(w)), f'sparse to sparse: {k1}', f'{SE} linkSpSp: {g}, expected {w}')
                # adjacency with a fixed number of slots, -1: no entity
                ad = [[-1 if a == nto else a for a in r] for r in full]
                s = c.session([m]); fch(s, 'c', tys); gch(s, 'd', tos); ints(s, 'a', sum(ad, []))
                if ok('prop', s, k1, 'prp', n, adjn, 'a', ty, out, 'c', 'd'):
                    w = [t | (out if any(fits(tys[e], ty) and i in ad[e] for e in range(n)) else 0) for i, t in enumerate(tos)]
                    g = [s.int('d', 4*i+3) for i in range(nto)]
                    c.holds('prop', g == w, f'adjacent {ad} {tos}: {k1}', f'{SE} propAdj: {g}, expected {w}')
                s = c.session([m]); fch(s, 'c', tys); gch(s, 'd', tos); ints(s, 'a', sum(ad, [])); ints(s, 'o', [77]*(adjn*n+1))
                lk = lambda a: cnt(tos[:a], ty1) if a >= 0 and fits(tos[a], ty1) else -1
                if ok('link', s, k1, 'lad', n, adjn, 'a', ty, ty1, 'c', 'd', 'o'):
                    w = sum(([lk(a) for a in ad[e]] for e in range(n) if fits(tys[e], ty)), []); g = [s.int('o', i) for i in range(adjn*n+1)]
                    c.holds('link', g == w + [77]*(adjn*n+1-len(w)), f'adjacent {ad} {tos}: {k1}', f'{SE} linkSpAdjDst: {g}, expected {w}')
                # the same with a varying number of adjacent entities
                for r, nm in ((rag, 'ragged'), ([x + y for x, y in zip(rag, full)], 'ragged with invalid')):
                    if nm != 'ragged': r = [[-1 if a == nto else a for a in x] for x in r]
                    tot = sum(map(len, r))
                    def setup(s):
                        fch(s, 'c', tys); gch(s, 'd', tos); ints(s, 'A', sum(r, [])); s.put('A', 8*tot, 77); p = 0
                        for i in range(n+1):
                            s.put('a', 8*i, I.Ptr(s.it.inputs['A'], 8*p)); p += len(r[i]) if i < n else 0
                    s = c.session([m]); setup(s)
                    if ok('prop', s, k1, 'prd', n, 'a', ty, out, 'c', 'd'):
                        w = [t | (out if any(fits(tys[e], ty) and i in r[e] for e in range(n)) else 0) for i, t in enumerate(tos)]
                        g = [s.int('d', 4*i+3) for i in range(nto)]
                        c.holds('prop', g == w, f'{nm} {r} {tos}: {k1}', f'{SE} propAdj: {g}, expected {w}')
                    if nm != 'ragged': continue
                    w = [[lk(a) for a in r[e] if lk(a) >= 0] for e in range(n) if fits(tys[e], ty)]; fl_ = sum(w, [])
                    s = c.session([m]); setup(s); ints(s, 'r', [77]); ints(s, 'p', [77])
                    if ok('link', s, k1, 'nla', n, 'a', ty, ty1, 'c', 'd', 'r', 'p'):
                        c.holds('link', (s.int('r', 0), s.int('p', 0)) == (len(fl_), len(w)), f'{nm} sizes {r} {tos}: {k1}', f'{SE} nLinkSpAdjDst: {s.int("r", 0)}, {s.int("p", 0)}, expected {len(fl_)}, {len(w)}')
                    s = c.session([m]); setup(s); ints(s, 'r', [77]*(len(fl_)+1)); ints(s, 'p', [77]*(len(w)+2))
                    if ok('link', s, k1, 'ladd', n, 'a', ty, ty1, 'c', 'd', 'r', 'p'):
                        g = [s.int('r', i) for i in range(len(fl_)+1)]
                        c.holds('link', g == fl_ + [77], f'{nm} {r} {tos}: {k1}', f'{SE} linkSpAdjDst: {g}, expected {fl_}')
                        pt = [s.get('p', i, 'p') for i in range(len(w)+1)]; off = [sum(map(len, w[:i])) for i in range(len(w)+1)]
                        c.holds('link', all(isinstance(q, I.Ptr) and q.o.name == 'r' and q.off == 8*o for q, o in zip(pt, off)), f'{nm} pointers {r} {tos}: {k1}', f'{SE} linkSpAdjDst: pointers {pt} do not start at {off}')
            # entities which have an adjacent entity of the type
            ad = [[-1 if a == nto else a for a in r] for r in full]
            s = c.session([m]); gch(s, 'd', tos); ints(s, 'a', sum(ad, [])); ints(s, 'o', [77]*(adjn*n+1))
            if ok('link', s, k, 'las', n, adjn, 'a', ty, 'd', 'o'):
                lk = lambda a: cnt(tos[:a], ty) if a >= 0 and fits(tos[a], ty) else -1
                w = sum(([77 if a == -1 else lk(a) for a in r] for r in ad if any(a >= 0 and fits(tos[a], ty) for a in r)), [])
                g = [s.int('o', i) for i in range(adjn*n+1)]; w += [77]*(adjn*n+1-len(w))
                # slots without adjacent entity are not written
                c.holds('link', g == w, f'same type {ad} {tos}: {k}', f'{SE} linkSpAdjSst: {g}, expected {w}')
            # flexible allocation
            zs = [pick(4) for _ in range(2)]; t2 = [ty, TY[(pi+1) % 4]]; b = pick(3)+1; s = c.session([m], {'posix_memalign': pm, 'free': fr}); fch(s, 'c', tys); ints(s, 't', t2); ints(s, 'z', zs); s.call('mkdyn')
            if ok('memory', s, k, 'flex', n, 2, b, 't', 'z', 'c'):
                P = s.ret; tot = sum(b + sum(z for t, z in zip(t2, zs) if fits(x, t)) for x in tys)
                rd = [s.it.load(s.st, I.Ptr(P.o, P.off+8*i), s.it.mkty((8, 0, 'p'))) for i in range(3*n+1)]
                w = [b*i for i in range(n)]; p = b*n
                for t, z in zip(t2, zs):
                    for x in tys:
                        w.append(p if fits(x, t) else None); p += z if fits(x, t) else 0
                w.append(p); base = rd[0]
                if not c.holds('memory', isinstance(base, I.Ptr), f'flexible allocation {zs} {b} {t2}: {k}', f'src/data/Dynamic.h flex: first entry is {base}'): continue
                g = [None if q is I.NULL or q == 0 or (isinstance(q, I.Ptr) and q.o is None) else (q.off - base.off)/8 if q.o is base.o else 'x' for q in rd]
                c.holds('memory', g == w and base.off == 0, f'flexible allocation {zs} {b} {t2}: {k}', f'src/data/Dynamic.h flex: offsets {g}, expected {w}')
                c.holds('memory', base.o.size in (None, 8*tot), f'size of flexible allocation {zs} {b} {t2}: {k}', f'src/data/Dynamic.h flex: allocates {base.o.size} bytes, expected {8*tot}')
    # layouts
    for ng in (1, 2, 3):
        for v in range(4):
            s = c.session([m]); s.call('mklay', ng); inn = [pick(5) for _ in range(ng)]; se = [[pick(4) for _ in range((v+g) % 3)] for g in range(ng)]; k = f'{inn} {se}'
            for g in range(ng):
                s.call('layrgn', g, len(se[g])); s.call('laysz', g, 0, 0, inn[g])
                for i, z in enumerate(se[g]): s.call('laysz', g, 1, i, z); s.call('laysz', g, 2, i, 50+z)
            if not ok('layout', s, k, 'layout'): continue
            def q(*a): s.call('lay', *a); return s.ret
            p = 0
            for g in range(ng):
                c.holds('layout', q(g, 0, 0) == p and q(g, 4, 0) == inn[g], f'inner {g}: {k}', f'src/data/EntityLayout.cpp: inner region starts at {q(g, 0, 0)}, expected {p}'); p += inn[g]
                c.holds('layout', q(g, 2, 0) == inn[g] + sum(se[g]), f'owned {g}: {k}', f'src/data/EntityLayout.cpp: {q(g, 2, 0)} owned entities, expected {inn[g]+sum(se[g])}')
            for g in range(ng):
                for i, z in enumerate(se[g]):
                    c.holds('layout', q(g, 1, i) == p and q(g, 5, i) == z, f'send {g} {i}: {k}', f'src/data/EntityLayout.cpp: send region starts at {q(g, 1, i)}, expected {p}'); p += z
            c.holds('layout', q(0, 3, 0) == p, f'all: {k}', f'src/data/EntityLayout.cpp: {q(0, 3, 0)} entities, expected {p}')
    # domains
    nv, ves = 5, [[0, 1, 2], [2, 1, 3], [4, 3, 1], [0, 4, 2]]; no = [2, 1, 0, 3]; sp = [1, 2, 4, 9]
    for v in range(12 if c.tier == 'quick' else 60):
        ins = [[pick(4) > 0 for _ in range(nv)] for _ in range(sum(no))]; seen = []
        def h(it, i, a, st):
            x = it.load(st, a[1], it.mkty((8, 0, 'f'))); y = it.load(st, I.Ptr(a[1].o, a[1].off+8), it.mkty((8, 0, 'f')))
            for p in range(nv):
                if A.equal(x, A.const(10+p)) is None and A.equal(y, A.const(20+p)) is None: return A.TRUE if ins[a[0]][p] else A.FALSE
            seen.append((x, y)); return A.FALSE
        s = c.session([m], {'h_in': h}); gch(s, 'v', [0]*nv, [[A.const(10+p), A.const(20+p), A.const(30+p)] for p in range(nv)]); fch(s, 'c', [16, 0, 1, 2])
        for i, r in enumerate(sum(ves, [])): s.put('e', 8*i, r)
        for i, z in enumerate(no): s.put('n', 4*i, z, 4)
        ints(s, 't', sp)
        if not ok('domain', s, f'{v}', 'spt', 4, 'e', 't', 4, 'n', 'v', 'c'): continue
        c.holds('domain', not seen, f'points {v}', f'src/linalg/Domain.hpp: object asked for a point which is no vertex {seen[:1]}')
        for e in range(4):
            w = [16, 0, 1, 2][e]; o = 0
            for d in range(4):
                if all(ins[x][p] for x in range(o, o+no[d]) for p in ves[e]): w |= sp[d]
                o += no[d]
            c.holds('domain', s.int('c', e) == w, f'entity {e}, {ins}', f'src/mesh/SparseTypes.hpp: type {s.int("c", e)}, expected {w}')
    # half-spaces: decided on points at rational distances of planes; the tolerance is 1E-6 of the unit normal
    V = A.var
    for d in (1, 2, 3):
        for nrm in {1: [(1,), (-3,)], 2: [(3, 4), (-4, 3), (0, -2)], 3: [(1, 2, 2), (-2, 1, 2), (0, 0, 5)]}[d]:
            ln = {True: abs(nrm[0])}.get(d == 1) or {2: {(3, 4): 5, (-4, 3): 5, (0, -2): 2}, 3: {(1, 2, 2): 3, (-2, 1, 2): 3, (0, 0, 5): 5}}[d][nrm]
            for dist in (-1, -1e-3, -1e-5, -5e-7, 0, 1e-5, 1):
                for tan in range(d):
                    import fractions; Fr = fractions.Fraction
                    t = [Fr(0)]*d
                    if d > 1:
                        a_, b_ = tan, (tan+1) % d; t[a_] = Fr(nrm[b_]); t[b_] = -Fr(nrm[a_])
                    o = [Fr(3+i, 2) for i in range(d)]; p = [o[i] + t[i]*(7) + Fr(dist).limit_denominator(10**8)*Fr(nrm[i], ln) for i in range(d)]
                    s = c.session([m])
                    for i in range(d): s.put('o', 8*i, A.const(o[i]), 8, 'f'); s.put('n', 8*i, A.const(Fr(nrm[i])), 8, 'f'); s.put('p', 8*i, A.const(p[i]), 8, 'f')
                    k = f'{d}D normal {nrm} distance {dist} tangent {tan}'
                    if not ok('plane', s, k, f'hs{d}', 'o', 'n', 'p'): continue
                    c.holds('plane', (s.ret is A.TRUE or s.ret == 1) == (dist > -1e-6), k, f'src/linalg/HalfSpace.hpp: inside = {s.ret}')
    # points
    fp = [n for n in m.fns if 'closestPoint' in n]; fn = [n for n in m.fns if 'GeomT' in n and 'norm' in n]; fm = [n for n in m.fns if 'Distributed' in n and '3min' in n] or ['_ZN4edge8parallel11Distributed3minEmPdPt']
    c.need(fp and fn, f'functions of points not found {fp} {fn}')
    for v in range(10):
        np_, ne, nv = 3, 4, 5; dist = [[A.const(pick(5)+1) for _ in range(ne)] for _ in range(np_)]; own = [pick(2) for _ in range(np_)]; log = []; cur = [0]; bad = []
        ev = [[0, 1, 2], [3, 1, 4], [2, 4, 0], [1, 3, 2]]
        ld = lambda it, st, p, i: it.load(st, I.Ptr(p.o, p.off+8*i), it.mkty((8, 0, 'f')))
        cur = []
        def close(it, i, a, st):
            got = [ld(it, st, a[1], j) for j in range(9)]; pt = [ld(it, st, a[2], j) for j in range(3)]
            e = [x for x in range(ne) if all(A.equal(got[dd*3+w], A.const(100*(dd+1)+ev[x][w])) is None for w in range(3) for dd in range(3))]
            p = [x for x in range(np_) if all(A.equal(pt[dd], A.const(10*x+dd)) is None for dd in range(3))]
            if len(e) != 1 or len(p) != 1: bad.append((e, p)); return
            cur[:] = [p[0], e[0]]
            for dd in range(3): it.store(st, I.Ptr(a[2].o, a[2].off+8*dd), A.const(7000+100*p[0]+10*e[0]+dd), it.mkty((8, 0, 'f')))
        def norm(it, i, a, st):
            x, y = [[ld(it, st, q, j) for j in range(3)] for q in a[:2]]; p, e = cur
            pr = [A.const(7000+100*p+10*e+dd) for dd in range(3)]; pt = [A.const(10*p+dd) for dd in range(3)]
            eq = lambda u, w: all(A.equal(r, q) is None for r, q in zip(u, w))
            if not (eq(x, pr) and eq(y, pt) or eq(x, pt) and eq(y, pr)): bad.append((x, y))
            return dist[p][e]
        def mn(it, i, a, st):
            log.append([ld(it, st, a[1], j) for j in range(np_)]); log.append(a[0])
            for j in range(np_): it.store(st, I.Ptr(a[2].o, a[2].off+2*j), own[j], it.mkty((2, 0, 'i')))
        s = c.session([m], {**{f: close for f in fp}, **{f: norm for f in fn}, **{f: mn for f in fm}})
        gch(s, 'v', [0]*nv, [[A.const(100*(d+1)+p) for d in range(3)] for p in range(nv)]); ints(s, 'e', sum(ev, []))
        for p in range(np_):
            for d in range(3): s.put('p', 8*(3*p+d), A.const(10*p+d), 8, 'f')
        ints(s, 'o', [77]*np_)
        if not ok('point', s, f'{v}', 'pte', np_, 'p', ne, 'e', 'v', 'o'): continue
        c.holds('point', not bad, f'arguments {v}', f'{SE} ptToEn: closest point or distance of something else: {bad[:1]}')
        val = lambda x: int(A.isc(x) if not hasattr(x, 'numerator') else x) if False else x
        best = []
        for p in range(np_):
            ds = [float(A.show(A.lift(x))) for x in dist[p]]; best.append(ds.index(min(ds)))
        g = [s.int('o', p) for p in range(np_)]; w = [best[p] if own[p] else -1 for p in range(np_)]
        c.holds('point', g == w and s.ret == sum(own), f'{v}: distances {[[A.show(A.lift(x)) for x in r] for r in dist]}, owned {own}', f'{SE} ptToEn: {g} ({s.ret} owned), expected {w}')
        c.holds('point', len(log) == 2 and log[1] == np_ and all(A.equal(log[0][p], dist[p][best[p]]) is None for p in range(np_)), f'ownership {v}', f'{SE} ptToEn: ownership is not decided by the smallest distances: {log}')
    # allocate and release, without and with the libraries for huge pages and high-bandwidth memory
    m2 = c.driver(TXT, fh, 'memory')
    names = {'posix_memalign': 'standard', 'free': 'standard', 'hbw_posix_memalign': 'high-bandwidth', 'hbw_free': 'high-bandwidth', 'get_hugepage_region': 'huge', 'free_hugepage_region': 'huge'}
    for lib, mm in (('standard', m), ('all libraries', m2)):
        lg.clear()
        def al(nm):
            def f(it, i, a, st):
                o = it.input_obj(f'blk{len(lg)}')
                if nm == 'get_hugepage_region': lg.append(('alloc', names[nm], None, a[0], o)); return I.Ptr(o, 0)
                lg.append(('alloc', names[nm], a[1], a[2], o)); it.store(st, a[0], I.Ptr(o, 0), it.mkty((8, 0, 'p'))); return 0
            return f
        def fr(nm): return lambda it, i, a, st: lg.append(('free', names[nm], a[0]))
        def znew(it, i, a, st):
            p = I.m_alloc(it, i, a, st); n = a[0] if isinstance(a[0], int) else int(a[0].a[0])
            for w in range(0, n, 8): st.wr(p.o).cells[w] = (8, 0, 'i')
            return p
        s = c.session([mm], {'_Znwm': znew, **{nm: (fr if 'free' in nm else al)(nm) for nm in names}}); s.call('mkdyn'); want = []
        for h in (0, 1):
            for u in (0, 1):
                for z, ali in ((24, 64), (0, 64), (100, 4096)):
                    n0 = len(lg)
                    if not ok('memory', s, f'{lib}: allocate {z} {h} {u}', 'alloc', z, ali, A.TRUE if h else A.FALSE, A.TRUE if u else A.FALSE): continue
                    kd = 'standard' if mm is m else 'high-bandwidth' if h else 'huge' if u else 'standard'
                    new = [x for x in lg[n0:] if x[0] == 'alloc']
                    g_ = s.ret.o if isinstance(s.ret, I.Ptr) else None
                    c.holds('memory', [x[1:4] for x in new] == ([(kd, None if kd == 'huge' else ali, z)] if z else []) and (g_ is new[0][4] if new else g_ is None), f'{lib}: {z} bytes, high-bandwidth {h}, huge {u}', f'src/data/common.hpp allocate: {new} returns {s.ret}')
                    want += [(x[1], x[4]) for x in new]
        n0 = len(lg)
        if ok('memory', s, f'{lib}: release', 'deldyn'):
            fr_ = [(x[1], x[2].o) for x in lg[n0:] if x[0] == 'free' and isinstance(x[2], I.Ptr) and x[2].o.name.startswith('blk')]
            c.holds('memory', sorted((k, id(o)) for k, o in fr_) == sorted((k, id(o)) for k, o in want), f'{lib}: released', f'src/data/Dynamic.cpp: allocated {want}, released {fr_}')
    return c.finish('sparse numbering, links, propagation, layouts, domains and allocation of all type patterns in the list, interpreted from the IR', min_obl=500)
if __name__ == '__main__': H.main('C19', body)
