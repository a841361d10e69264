import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from itertools import permutations
from engine import harness as H, build as B, algebra as A, absint as I
import random
K = A.const; F = A.Fraction
TXT = r'''
#include <new>
#include <algorithm>
#include <limits>
#include <cstdlib>
#include <gmsh.h>
// the mesher: answers from the given tables, records what it is told
struct Db { long nDi, ty, nNo, nEl, nEn, nTy, nPg; long const *no, *el, *ev, *ef, *pg, *pe, *en, *ft; double const *cr; };
static Db D; static long ren; long rec[512], nrec; double recd[128]; long nrecd;
static void r( long v ) { rec[nrec++] = v; }
static void rd( double v ) { recd[nrecd++] = v; }
static void rs( std::string const & s ) { long h = 7; for( std::size_t i = 0; i < s.size(); i++ ) h = (h*31 + s[i]) % 1000003; r( h ); }
static std::size_t etag( long i ) { return ren ? i+1+D.nPg : D.el[i]; }
namespace gmsh {
  void initialize( int, char**, const bool, const bool ) { r( 1 ); } void finalize() { r( 2 ); }
  void open( const std::string & f ) { r( 3 ); rs( f ); } void write( const std::string & f ) { r( 4 ); rs( f ); }
  namespace option { void setNumber( const std::string & n, const double v ) { r( 5 ); rs( n ); rd( v ); } }
  namespace model {
    void getCurrent( std::string & n ) { n = "cube"; }
    int getDimension() { return D.nDi; }
    void getEntities( gmsh::vectorpair & o, const int d ) { o.clear(); if( d < 0 || d == D.nDi ) for( long i = 0; i < D.nEn; i++ ) o.push_back( std::make_pair( (int) D.nDi, (int) (i+1) ) ); if( d < 0 ) o.push_back( std::make_pair( 0, 1 ) ); }
    void getPhysicalGroups( gmsh::vectorpair & o, const int d ) { o.clear(); for( long i = 0; i < D.nPg; i++ ) if( d < 0 || d == D.pg[4*i] ) o.push_back( std::make_pair( (int) D.pg[4*i], (int) D.pg[4*i+1] ) ); }
    void getEntitiesForPhysicalGroup( const int d, const int t, std::vector<int> & o ) { o.clear(); bool k = false; for( long i = 0; i < D.nPg; i++ ) if( D.pg[4*i] == d && D.pg[4*i+1] == t ) { k = true; for( long j = 0; j < D.pg[4*i+3]; j++ ) o.push_back( (int) D.pe[D.pg[4*i+2]+j] ); } if( !k ) abort(); }
    namespace mesh {
      void renumberElements( const std::vector<std::size_t> & a, const std::vector<std::size_t> & b ) { if( a.size() || b.size() ) abort(); ren = 1; }
      void getNodes( std::vector<std::size_t> & t, std::vector<double> & x, std::vector<double> & p, const int d, const int tag, const bool inc, const bool par ) {
        if( d != -1 || tag != -1 ) abort(); t.clear(); x.clear(); p.clear();
        for( long i = 0; i < D.nNo; i++ ) { t.push_back( D.no[i] ); for( int k = 0; k < 3; k++ ) x.push_back( D.cr[3*i+k] ); } }
      void getElements( std::vector<int> & y, std::vector<std::vector<std::size_t> > & t, std::vector<std::vector<std::size_t> > & v, const int d, const int tag ) {
        y.clear(); t.clear(); v.clear(); std::vector<std::size_t> a, b;
        if( d == D.nDi && tag == -1 ) {
          long n = D.ty == 2 ? 3 : D.ty == 5 ? 8 : 4; for( long i = 0; i < D.nEl; i++ ) { a.push_back( etag( i ) ); for( long k = 0; k < n; k++ ) b.push_back( D.ev[n*i+k] ); }
          y.push_back( D.ty ); t.push_back( a ); v.push_back( b ); if( D.nTy > 1 ) { y.push_back( 15 ); t.push_back( a ); v.push_back( b ); } }
        else if( d == D.nDi-1 && tag > 0 ) {
          long n = D.nDi == 2 ? 2 : D.ty == 4 ? 3 : 4, f = D.en[3*(tag-1)], c = D.en[3*(tag-1)+1]; for( long i = 0; i < c; i++ ) { a.push_back( 900+i ); for( long k = 0; k < n; k++ ) b.push_back( D.ft[f+n*i+k] ); }
          if( c ) { y.push_back( D.en[3*(tag-1)+2] ); t.push_back( a ); v.push_back( b ); } }
        else abort(); }
      void getElementTypes( std::vector<int> & o, const int d, const int tag ) { if( d != D.nDi || tag != -1 ) abort(); o.clear(); o.push_back( D.ty ); if( D.nTy > 1 ) o.push_back( 15 ); }
      int getElementType( const std::string & f, const int o, const bool s ) { if( o != 1 || s ) abort(); if( f == "point" ) return 15; if( f == "line" ) return 1; if( f == "triangle" ) return 2; if( f == "quadrangle" ) return 3; if( f == "tetrahedron" ) return 4; if( f == "hexahedron" ) return 5; abort(); }
      static void fn( std::vector<std::size_t> & o ) { o.clear(); long n = D.nEl * ( D.ty == 2 ? 6 : D.ty == 3 ? 8 : D.ty == 4 ? 12 : 24 ); for( long i = 0; i < n; i++ ) o.push_back( D.ef[i] ); }
      void getElementEdgeNodes( const int y, std::vector<std::size_t> & o, const int tag, const bool p, const std::size_t a, const std::size_t b ) { if( y != D.ty || D.nDi != 2 || tag != -1 || a || b != 1 ) abort(); fn( o ); }
      void getElementFaceNodes( const int y, const int f, std::vector<std::size_t> & o, const int tag, const bool p, const std::size_t a, const std::size_t b ) { if( y != D.ty || D.nDi != 3 || tag != -1 || f != ( D.ty == 4 ? 3 : 4 ) || a || b != 1 ) abort(); fn( o ); }
      void reorderElements( const int y, const int tag, const std::vector<std::size_t> & o ) { r( 6 ); r( y ); r( tag ); r( o.size() ); for( std::size_t i = 0; i < o.size(); i++ ) r( o[i] ); }
    }
  }
  namespace view {
    int add( const std::string & n, const int t ) { r( 7 ); rs( n ); return 37; }
    void remove( const int t ) { r( 8 ); r( t ); }
    void write( const int t, const std::string & f, const bool a ) { r( 9 ); r( t ); rs( f ); r( a ); }
    void addListData( const int t, const std::string & y, const int n, const std::vector<double> & d ) { r( 10 ); r( t ); rs( y ); r( n ); r( d.size() ); for( std::size_t i = 0; i < d.size(); i++ ) rd( d[i] ); }
    void addHomogeneousModelData( const int t, const int s, const std::string & m, const std::string & y, const std::vector<std::size_t> & g, const std::vector<double> & d, const double ti, const int nc, const int pa ) {
      r( 11 ); r( t ); rs( m ); rs( y ); r( g.size() ); for( std::size_t i = 0; i < g.size(); i++ ) r( g[i] ); r( d.size() ); for( std::size_t i = 0; i < d.size(); i++ ) rd( d[i] ); r( nc ); }
  }
  namespace plugin {
    void setNumber( const std::string & n, const std::string & o, const double v ) { r( 12 ); rs( n ); rs( o ); rd( v ); }
    int run( const std::string & n ) { r( 13 ); rs( n ); return 0; }
  }
}
#include "geom/Generic.cpp"
#include "geom/Line.cpp"
#include "geom/Tria3.cpp"
#include "geom/Quad4r.cpp"
#include "geom/Hex8r.cpp"
#include "geom/Tet4.cpp"
#include "geom/Geom.cpp"
#include "io/Gmsh.cpp"
#include "mesh/Mesh.cpp"
using namespace edge_v;
alignas(64) static char gb[sizeof(io::Gmsh)], mb[sizeof(mesh::Mesh)];
#define GM ((io::Gmsh*) gb)
#define ME ((mesh::Mesh*) mb)
extern "C" {
  void db( long const *q, long const *no, double const *cr, long const *el, long const *ev, long const *ef, long const *pg, long const *pe, long const *en, long const *ft ) {
    D.nDi = q[0]; D.ty = q[1]; D.nNo = q[2]; D.nEl = q[3]; D.nEn = q[4]; D.nTy = q[5]; D.nPg = q[6]; D.no = no; D.cr = cr; D.el = el; D.ev = ev; D.ef = ef; D.pg = pg; D.pe = pe; D.en = en; D.ft = ft; }
  void mkg() { new (gb) io::Gmsh(); }
  void rdm() { GM->readMesh(); }
  void gop( char const *a, char const *b ) { GM->open( std::string( a ) ); GM->write( std::string( b ) ); }
  void mkm( int per ) { new (mb) mesh::Mesh( *GM, per ); }
  void mkm0() { new (mb) mesh::Mesh( *GM ); }
  void siz( long *o ) { o[0] = ME->nVes(); o[1] = ME->nFas(); o[2] = ME->nEls(); o[3] = ME->getTypeEl(); o[4] = ME->getTypeFa(); o[5] = ME->getTypeVe(); o[6] = ME->nElVes(); }
  void top( long *fv, long *fe, long *ev, long *ef, long *ee, long *sv, long *sf, long *se ) {
    long nf = CE_N_FAS( ME->getTypeEl() ), nfv = CE_N_VES( ME->getTypeFa() ), nev = CE_N_VES( ME->getTypeEl() );
    for( t_idx i = 0; i < ME->nFas(); i++ ) { for( long k = 0; k < nfv; k++ ) fv[i*nfv+k] = ME->getFaVe()[i*nfv+k]; fe[2*i] = ME->getFaEl()[2*i]; fe[2*i+1] = ME->getFaEl()[2*i+1]; sf[i] = ME->getSpTypeFa()[i]; }
    for( t_idx i = 0; i < ME->nEls(); i++ ) { for( long k = 0; k < nev; k++ ) ev[i*nev+k] = ME->getElVe()[i*nev+k]; for( long k = 0; k < nf; k++ ) { ef[i*nf+k] = ME->getElFa()[i*nf+k]; ee[i*nf+k] = ME->getElFaEl()[i*nf+k]; } se[i] = ME->getSpTypeEl()[i]; }
    for( t_idx i = 0; i < ME->nVes(); i++ ) sv[i] = ME->getSpTypeVe()[i]; }
  void geo( double *x, double *a, double *v, double *ce, double *d, double *n, double *t ) {
    for( int q = 0; q < 2; q++ ) {
    for( t_idx i = 0; i < ME->nVes()*3; i++ ) x[i] = ME->getVeCrds()[0][i];
    for( t_idx i = 0; i < ME->nFas(); i++ ) { a[i] = ME->getAreasFa()[i]; for( int k = 0; k < 3; k++ ) n[3*i+k] = ME->getNormalsFa()[i][k]; for( int k = 0; k < 6; k++ ) t[6*i+k] = ME->getTangentsFa()[i][k/3][k%3]; }
    for( t_idx i = 0; i < ME->nEls(); i++ ) { v[i] = ME->getVolumesEl()[i]; d[i] = ME->getInDiasEl()[i]; for( int k = 0; k < 3; k++ ) ce[3*i+k] = ME->getCentroidsEl()[i][k]; } } }
  void ids( t_idx n, t_idx off, t_idx const *el, unsigned short const *fa, unsigned short *o, unsigned short *p ) { ME->getFaIdsAd( n, off, el, fa, o ); ME->getVeIdsAd( n, off, el, fa, p ); }
  void reo( t_idx const *p ) { GM->reorder( p ); }
  void par( t_idx n, t_idx const *p ) { GM->partition( n, p ); }
  void wel( int k, double const *d, t_idx const *e, char const *a, char const *b ) { if( k ) GM->writeElData( std::string( a ), d, std::string( b ) ); else GM->writeElData( std::string( a ), e, std::string( b ) ); }
  void del() { ME->~Mesh(); GM->~Gmsh(); }
}
'''
WG, WM = 'tools/edge_v/src/io/Gmsh.cpp: ', 'tools/edge_v/src/mesh/Mesh.cpp: '
TY = {'QUAD4R': 2, 'TRIA3': 3, 'HEX8R': 4, 'TET4': 5}; GTY = {'QUAD4R': 3, 'TRIA3': 2, 'HEX8R': 5, 'TET4': 4}; FTY = {'QUAD4R': 1, 'TRIA3': 1, 'HEX8R': 2, 'TET4': 3}; GFT = {'QUAD4R': 1, 'TRIA3': 1, 'HEX8R': 3, 'TET4': 2}
FA = {'QUAD4R': [(0, 1), (1, 2), (2, 3), (3, 0)], 'TRIA3': [(0, 1), (1, 2), (2, 0)],
      'HEX8R': [(0, 3, 2, 1), (0, 1, 5, 4), (1, 2, 6, 5), (3, 7, 6, 2), (0, 4, 7, 3), (4, 5, 6, 7)], 'TET4': [(0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)]}
# faces in the order of the mesher
GFA = {'QUAD4R': FA['QUAD4R'], 'TRIA3': FA['TRIA3'], 'HEX8R': [(0, 3, 2, 1), (0, 1, 5, 4), (0, 4, 7, 3), (1, 2, 6, 5), (2, 3, 7, 6), (4, 5, 6, 7)], 'TET4': [(0, 2, 1), (0, 1, 3), (0, 3, 2), (3, 1, 2)]}
REF = {'QUAD4R': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)], 'HEX8R': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}
def sub(a, b): return [x-y for x, y in zip(a, b)]
def dot(a, b): return sum((x*y for x, y in zip(a, b)), a[0]*0)
def cr(a, b): return [a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]]
def rt(x): return A.sqrt(K(x))
def norm(a): return rt(dot(a, a))
def num(t):
    """value of a constant term"""
    if t.op == 'c': return float(t.a[0])
    if t.op == '+': return num(t.a[0])+num(t.a[1])
    if t.op == '*': return num(t.a[0])*num(t.a[1])
    if t.op == 'inv': return 1/num(t.a[0])
    if t.op == 'sqrt': return num(t.a[0])**.5
    raise ValueError
def same(c, rule, key, a, b, w):
    try: d = abs(num(A.lift(a))-num(A.lift(b)))
    except (ValueError, TypeError, ZeroDivisionError): return c.same(rule, key, a, b, w)
    return c.holds(rule, d < 1e-9, key, f'{w}: {key}: {A.show(A.lift(a), 4)} instead of {A.show(A.lift(b), 4)}')
def hsh(t):
    h = 7
    for x in t.encode(): h = (h*31+x) % 1000003
    return h
class Mesh:
    """a grid of dim cells, split into the elements, with shuffled numbers"""
    def __init__(q, t, dim, rnd, per=(), half=False):
        q.t = t; D3 = t in ('HEX8R', 'TET4'); q.nd = 3 if D3 else 2; dim = list(dim) + ([] if D3 else [0]); q.dim = dim
        sc = [F(1, 2), F(3, 4), F(5, 4)]; q.pts = [(x, y, z) for x in range(dim[0]+1) for y in range(dim[1]+1) for z in range(dim[2]+1)]
        q.X = {p: [p[k]*sc[k] - F(1, 4) if k < q.nd else F(0) for k in range(3)] for p in q.pts}
        sh = q.pts[:]; rnd.shuffle(sh); q.vid = {p: i for i, p in enumerate(sh)}; tags = sorted(rnd.sample(range(3, 400), len(sh))); q.tag = {p: tags[q.vid[p]] for p in q.pts}
        q.els = []
        for cx in range(dim[0]):
            for cy in range(dim[1]):
                for cz in range(max(1, dim[2])):
                    c0 = (cx, cy, cz)
                    if t in REF: q.els.append([tuple(c0[k]+r[k] for k in range(3)) for r in REF[t]])
                    elif t == 'TRIA3':
                        a, b, c_, d = [tuple(c0[k]+r[k] for k in range(3)) for r in REF['QUAD4R']]
                        for tr in ([a, b, c_], [a, c_, d]): j = rnd.randrange(3); tr = tr[j:]+tr[:j]; q.els.append(tr if rnd.random() < 0.5 else tr[::-1])
                    else:
                        for pm in permutations(range(3)):
                            p = list(c0); tt = [tuple(p)]
                            for k in pm: p[k] += 1; tt.append(tuple(p))
                            rnd.shuffle(tt); q.els.append(tt)
        if t in REF:       # the mesher may start at any vertex
            for i, e in enumerate(q.els):
                j = rnd.randrange(4); q.els[i] = e[j:4]+e[:j]+(e[4+j:]+e[4:4+j] if t == 'HEX8R' else [])
        rnd.shuffle(q.els); own = {}
        for i, e in enumerate(q.els):
            for f in FA[t] if t not in REF else FA[t]: own.setdefault(frozenset(e[v] for v in f), []).append(i)
        q.own = own; q.nb = {}; q.per = {}
        for f, o in own.items():
            if len(o) == 2: q.nb[(o[0], f)] = o[1]; q.nb[(o[1], f)] = o[0]
            else:
                q.nb[(o[0], f)] = None
                for ax in per:
                    w = {p[ax] for p in f}
                    if len(w) == 1 and w <= {0, dim[ax]}:
                        to = dim[ax]-w.pop(); g = frozenset(tuple(to if a == ax else p[a] for a in range(3)) for p in f); q.nb[(o[0], f)] = own[g][0]; q.per[f] = g
        # groups of faces: periodic 106, the others of the boundary by side, some inner ones
        bnd = [f for f, o in own.items() if len(o) == 1]; inn = [f for f, o in own.items() if len(o) == 2]
        q.gr = {106: [f for f in bnd if f in q.per], 101: [f for f in bnd if f not in q.per and all(p[1] == 0 for p in f)], 105: [f for f in bnd if f not in q.per and not all(p[1] == 0 for p in f)], 201: inn[::3], 8: [f for f in bnd+inn if f not in q.per][::4], 16: []}
        if half:       # periodic faces whose partner is not there
            hf = [f for f in bnd if f not in q.per and all(p[1] == 0 for p in f)]; q.gr[106] += hf
            for g in (101, 8): q.gr[g] = [f for f in q.gr[g] if f not in hf]
        q.rnd = rnd
    def load(q, s, dup=0, nty=1, nen=1, badface=False):
        rnd = q.rnd; P = lambda nm, vs, k='i': [s.put(nm, 8*i, x if k == 'i' else K(x), 8, k) for i, x in enumerate(vs)]
        no = q.pts[:]; rnd.shuffle(no); no += no[:dup]; grs = [(0, 3, 0, 0), (q.nd, 301, 0, 1)]; pe = [1]; en = []; ft = []; n = 0
        for g, fs in q.gr.items():
            fs = fs[:]; rnd.shuffle(fs); cut = [fs[:len(fs)//2], [], fs[len(fs)//2:]] if len(fs) > 2 else [fs]; grs.append((q.nd-1, g, len(pe), len(cut)))
            for part in cut:
                pe.append(len(en)//3+1); en += [len(ft), len(part), 99 if badface else GFT[q.t]]
                for f in part: l = [q.tag[p] for p in f]; rnd.shuffle(l); ft += l
        P('q', [q.nd, GTY[q.t], len(no), len(q.els), nen, nty, len(grs)]); P('no', [q.tag[p] for p in no]); P('cr', [x for p in no for x in q.X[p]], 'f')
        ol = list(range(50, 50+len(q.els))); rnd.shuffle(ol); P('el', ol); P('ev', [q.tag[p] for e in q.els for p in e])
        P('ef', [q.tag[e[v]] for e in q.els for f in GFA[q.t] for v in f]); P('pg', [x for g in grs for x in g]); P('pe', pe); P('en', en or [0]); P('ft', ft or [0])
        q.ng = len(grs)
        return s.call('db', 'q', 'no', 'cr', 'el', 'ev', 'ef', 'pg', 'pe', 'en', 'ft')
def recs(s, m):
    o = s.it.glob_obj(m.globs['rec']); n = s.it.load(s.st, I.Ptr(s.it.glob_obj(m.globs['nrec']), 0), s.it.mkty((8, 0, 'i'))); t = s.it.mkty((8, 0, 'i'))
    d = s.it.glob_obj(m.globs['recd']); k = s.it.load(s.st, I.Ptr(s.it.glob_obj(m.globs['nrecd']), 0), t); tf = s.it.mkty((8, 0, 'f')); num = lambda v: int(v.a[0]) if isinstance(v, A.T) and A.isc(v) else v
    n, k = num(n), num(k)
    return [num(s.it.load(s.st, I.Ptr(o, 8*i), t)) for i in range(n)], [s.it.load(s.st, I.Ptr(d, 8*i), tf) for i in range(k)]
def start(c, m, q, again=False, **kw):
    s = c.session([m])
    if again:
        o = Mesh(q.t, (2, 1) if q.nd == 2 else (2, 1, 1), random.Random(7)); o.gr = {77: o.gr[105], **o.gr}; s.ok = o.load(s) and s.call('mkg') and s.call('rdm') and q.load(s, **kw) and s.call('rdm')
    else: s.ok = q.load(s, **kw) and s.call('mkg') and s.call('rdm')
    return s
def volume(q, e):
    X = [q.X[p] for p in e]
    if q.t in REF: h = [max(x[k] for x in X)-min(x[k] for x in X) for k in range(q.nd)]; v = F(1); [v := v*y for y in h]; return v, K(min(h))
    d = [sub(x, X[0]) for x in X[1:]]
    if q.t == 'TRIA3':
        v = abs(d[0][0]*d[1][1]-d[0][1]*d[1][0])/2; return v, K(4*v)/(norm(sub(X[0], X[1]))+norm(sub(X[1], X[2]))+norm(sub(X[2], X[0])))
    v = abs(dot(d[0], cr(d[1], d[2])))/6; return v, K(12*v)/sum((norm(cr(sub(X[j], X[i]), sub(X[k], X[i]))) for i, j, k in ((0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3))), A.ZERO)
def face(q, f, e):
    """squared area (length) times four for triangles, and the direction away from element e, not normalised"""
    X = [q.X[p] for p in f]; ot = q.X[next(p for p in e if p not in f)]
    if len(X) == 2: a = sub(X[1], X[0]); n = [-a[1], a[0], F(0)]; ar = dot(a, a)
    else: n = cr(sub(X[1], X[0]), sub(X[2], X[0])); ar = dot(n, n)/(4 if len(X) == 3 else 1)
    return ar, n if dot(n, sub(ot, X[0])) < 0 else [-x for x in n]
def check(c, m, key, q, per):
    s = start(c, m, q, dup=3, again=per)       # meshes are read again after reordering
    if not c.holds('vertices', s.ok, f'{key}: read', f'{WG}{getattr(s, "why", "")}'): return
    if not c.holds('faces', s.call('mkm', 106) if per else s.call('mkm0'), f'{key}: end', f'{WM}{getattr(s, "why", "")}'): return
    t, nf, nfv, nev = q.t, len(FA[q.t]), len(FA[q.t][0]), len(q.els[0]); nF, nE, nV = len(q.own), len(q.els), len(q.pts)
    if not c.holds('vertices', s.call('siz', 'z'), f'{key}: sizes', f'{WM}{getattr(s, "why", "")}'): return
    z = [s.int('z', i) for i in range(7)]
    if not c.holds('faces', z == [nV, nF, nE, TY[t], FTY[t], 0, nev], f'{key}: numbers', f'{WM}numbers and types {z} for {nV} vertices, {nF} faces, {nE} elements'): return
    if not c.holds('faces', s.call('top', 'a0', 'a1', 'a2', 'a3', 'a4', 'a5', 'a6', 'a7'), f'{key}: tables', f'{WM}{getattr(s, "why", "")}'): return
    g = lambda nm, n, k=1: [tuple(s.int(nm, i*k+j) for j in range(k)) for i in range(n)]
    fv, fe, ev, ef, ee = g('a0', nF, nfv), g('a1', nF, 2), g('a2', nE, nev), g('a3', nE, nf), g('a4', nE, nf); sv, sf, se = g('a5', nV), g('a6', nF), g('a7', nE)
    inv = {i: p for p, i in q.vid.items()}
    try: F_ = [frozenset(inv[v] for v in x) for x in fv]
    except (KeyError, TypeError): c.violation('faces', f'{key}: vertices of faces', f'{WM}unknown vertices {fv}'); return
    if not c.holds('faces', len(set(F_)) == nF and set(F_) == set(q.own) and all(list(x) == sorted(x) for x in fv), f'{key}: every face once', f'{WM}the faces {sorted(fv)} are not those of the elements'): return
    bad = []
    for i, f in enumerate(F_):
        o = q.own[f]; w = (min(o), max(o)) if len(o) == 2 else (o[0], q.nb[(o[0], f)] if f in q.per else -1)
        if fe[i] != w: bad.append((i, fe[i], w))
    c.holds('periodic' if per else 'adjacent', not bad, f'{key}: elements of faces', f'{WM}face, elements, expected: {bad[:4]}')
    bad = []; bf = []; bn = []
    for e in range(nE):
        try: p = [inv[v] for v in ev[e]]
        except (KeyError, TypeError): p = []
        if sorted(p) != sorted(q.els[e]): bad.append((e, ev[e])); continue
        ids = [q.vid[x] for x in p]; X = [q.X[x] for x in p]
        if t in REF: ok = [tuple(int(x[k] > min(y[k] for y in X)) for k in range(3)) for x in X] == REF[t]
        else: d = [sub(x, X[0]) for x in X[1:]]; ok = (d[0][0]*d[1][1]-d[0][1]*d[1][0] if t == 'TRIA3' else dot(d[0], cr(d[1], d[2]))) > 0 and ids[:nev-2] == sorted(ids)[:nev-2]
        if not ok: bad.append((e, ev[e])); continue
        for k, f in enumerate(FA[t]):
            ff = frozenset(p[v] for v in f); i = ef[e][k]
            if not (isinstance(i, int) and 0 <= i < nF and F_[i] == ff): bf.append((e, k, i))
            w = q.nb[(e, ff)]
            if ee[e][k] != (-1 if w is None else w): bn.append((e, k, ee[e][k], w))
    c.holds('elements', not bad, f'{key}: vertices of elements', f'{WM}element, vertices: {bad[:4]}')
    c.holds('elements', not bf, f'{key}: faces of elements', f'{WM}element, face, id: {bf[:4]}')
    c.holds('periodic' if per else 'adjacent', not bn, f'{key}: neighbours', f'{WM}element, face, neighbour, expected: {bn[:4]}')
    w = [0]*nF
    for gr, fs in q.gr.items():
        for f in fs: w[F_.index(f)] |= gr
    c.holds('types', [x[0] for x in sf] == w, f'{key}: faces', f'{WM}types {[x[0] for x in sf]} instead of {w}'); c.holds('types', all(x == (0,) for x in sv+se), f'{key}: others', f'{WM}types of vertices and elements {sv} {se}')
    if not bad:
        pr = [(e, k) for e in range(nE) for k in range(nf) if q.nb[(e, frozenset(inv[ev[e][v]] for v in FA[t][k]))] is not None and e >= 1]; ff = {x: frozenset(inv[ev[x[0]][v]] for v in FA[t][x[1]]) for x in pr}
        for i, (e, k) in enumerate(pr): s.put('pe_', 8*i, e-1, 8, 'i'); s.put('pf_', 2*i, k, 2, 'i')
        if c.holds('local ids', s.call('ids', len(pr), 1, 'pe_', ('pf_', 2), ('po', 2), ('pv', 2)), f'{key}: end', f'{WM}{getattr(s, "why", "")}'):
            b = []
            for i, x in enumerate(pr):
                n = q.nb[(x[0], ff[x])]; of = q.per.get(ff[x], ff[x]) if len(q.own[ff[x]]) == 1 else ff[x]; k = next(j for j, v in enumerate(FA[t]) if frozenset(inv[ev[n][a]] for a in v) == of); w = 0
                if t == 'TET4':
                    first = inv[ev[x[0]][FA[t][x[1]][0]]]; l = [inv[ev[n][a]] for a in FA[t][k]]; w = l.index(first) if first in l else next(j for j, p in enumerate(l) if sum(p[a] == first[a] for a in range(3)) == 2 and all((p[a] == first[a]) == (len({y[a] for y in of} | {y[a] for y in ff[x]}) != 2 or len({y[a] for y in of}) != 1) for a in range(3)))
                if (s.int('po', i, 16), s.int('pv', i, 16)) != (k, w): b.append((x, s.int('po', i, 16), s.int('pv', i, 16), k, w))
            c.holds('local ids', not b, key, f'{WM}face and vertex ids: {b[:3]}')
    # geometry
    if not c.holds('geometry', s.call('geo', 'b0', 'b1', 'b2', 'b3', 'b4', 'b5', 'b6'), f'{key}: end', f'{WM}{getattr(s, "why", "")}'): return
    for i in range(nV):
        for k in range(3): same(c, 'vertices', f'{key}: vertex {i} {k}', s.get('b0', 3*i+k), K(q.X[inv[i]][k]), WG+'getVeCrds')
    for e, p in enumerate(q.els):
        v, d = volume(q, p); same(c, 'geometry', f'{key}: volume {e}', s.get('b2', e), K(v), WM+'getVolumesEl'); same(c, 'geometry', f'{key}: in-diameter {e}', s.get('b4', e), d, WM+'getInDiasEl')
        for k in range(3): same(c, 'geometry', f'{key}: centroid {e} {k}', s.get('b3', 3*e+k), K(sum(q.X[x][k] for x in p)/len(p)), WM+'getCentroidsEl')
    for i, f in enumerate(F_):
        e = fe[i][0]
        if not (isinstance(e, int) and 0 <= e < nE and e in q.own[f]): continue
        ar, n = face(q, f if t != 'HEX8R' else [p for p in f][:4], q.els[e])
        same(c, 'geometry', f'{key}: area {i}', s.get('b1', i), rt(ar), WM+'getAreasFa'); ln = norm(n); N = [K(x)/ln for x in n]; T = [s.get('b6', 6*i+k) for k in range(6)]
        for k in range(3): same(c, 'geometry', f'{key}: normal {i} {k}', s.get('b5', 3*i+k), N[k], WM+'getNormalsFa')
        x = cr(T[:3], T[3:]) if q.nd == 3 else [T[1], A.neg(T[0]), A.ZERO]
        for k in range(3): same(c, 'geometry', f'{key}: tangents {i} {k}', x[k], N[k], WM+'getTangentsFa')
    c.holds('geometry', s.call('del'), f'{key}: release', f'{WM}{getattr(s, "why", "")}')
def tools(c, m, q):
    s = start(c, m, q); n = len(q.els); I8 = lambda nm, vs: [s.put(nm, 8*i, v, 8, 'i') for i, v in enumerate(vs)]; txt = lambda nm, t: [s.put(nm, i, b, 1, 'i') for i, b in enumerate(t.encode()+b'\0')]
    rec, rd = recs(s, m); c.holds('mesher', s.ok and rec[:3] == [1, 5, hsh('General.Verbosity')], 'initialisation', f'{WG}{rec}')
    a = len(rec); pr = [((i*5) % n) // 2 for i in range(n)] if n > 2 else [0]*n; I8('pr', pr)
    if c.holds('mesher', s.call('reo', 'pr'), 'reorder: end', f'{WG}{getattr(s, "why", "")}'):
        rec, rd = recs(s, m); x = rec[a:]; p = x[4:]
        c.holds('mesher', x[:4] == [6, GTY[q.t], -1, n] and sorted(p) == list(range(n)) and all(pr[p[i]] <= pr[p[i+1]] for i in range(n-1)), f'reorder {q.t}', f'{WG}reorder: {x} for priorities {pr}')
    a, b = len(rec), len(rd); I8('np', [3, 1, 4, 700001])
    if c.holds('mesher', s.call('par', 4, 'np'), 'partition: end', f'{WG}{getattr(s, "why", "")}'):
        rec, rd = recs(s, m); x = rec[a:]
        c.holds('mesher', x == [7, hsh('edge_v_partitions'), 12, hsh('EdgePartition'), hsh('nPaEls'), 10, 37, hsh('SP'), 4, 4, 13, hsh('EdgePartition'), 8, 37], f'partition {q.t}', f'{WG}partition: calls {x}')
        for i, w in enumerate((37, 3, 1, 4, 700001)): c.same('mesher', f'partition {q.t} {i}', rd[b+i] if b+i < len(rd) else A.ZERO, K(w)+K(F(1, 2)), WG+'partition')
    for k in (0, 1):
        a, b = len(rec), len(rd); txt('t0', 'abc'); txt('t1', 'out.pos')
        for i in range(n): s.put('ed', 8*i, A.var(f'd{i}'), 8, 'f'); s.put('ei', 8*i, 5*i+1, 8, 'i')
        if c.holds('mesher', s.call('wel', k, 'ed', 'ei', ('t0', 1), ('t1', 1)), f'data {k}: end', f'{WG}{getattr(s, "why", "")}'):
            rec, rd = recs(s, m); x = rec[a:]
            c.holds('mesher', x == [7, hsh('abc'), 11, 37, hsh('cube'), hsh('ElementData'), n]+[i+1+q.ng for i in range(n)]+[n, -1, 9, 37, hsh('out.pos'), 0, 8, 37], f'data {k}', f'{WG}writeElData: calls {x}')
            for i in range(n): c.same('mesher', f'data {k} {i}', rd[b+i] if b+i < len(rd) else A.ZERO, A.var(f'd{i}') if k else K(5*i+1), WG+'writeElData')
    a = len(rec); txt('t0', 'in.msh'); txt('t1', 'out.msh')
    if c.holds('mesher', s.call('gop', ('t0', 1), ('t1', 1)), 'files: end', f'{WG}{getattr(s, "why", "")}'):
        rec, rd = recs(s, m); c.holds('mesher', rec[a:] == [3, hsh('in.msh'), 4, hsh('out.msh')], 'files', f'{WG}{rec[a:]}')
def body(c):
    c.prefetch([(None, B.v_flags(), TXT)]); m = c.driver(TXT, B.v_flags(), 'tools/edge_v/src/{io/Gmsh,mesh/Mesh,geom/*}.cpp'); rnd = random.Random(c.seed)
    c.rule('vertices', 'the vertices are those of the mesh file in the order of their tags, each once')
    c.rule('faces', 'every face of the elements is there once, with its vertices in ascending order')
    c.rule('adjacent', 'faces know their one or two elements, the smaller id first; elements know the elements behind their faces')
    c.rule('elements', 'the vertices of an element are normalised and its faces are those of the reference element')
    c.rule('periodic', 'a periodic face is next to its own element first and to that of the opposite face second')
    c.rule('types', 'the type of a face is the bitwise or of the ids of its physical groups')
    c.rule('local ids', 'local face and vertex ids of the neighbours')
    c.rule('geometry', 'areas, volumes, centroids, in-diameters, and normals away from the first element with matching tangents')
    c.rule('mesher', 'reordering sorts by priority, partitioning passes the sizes, element data goes to the elements')
    c.rule('reject', 'mixed meshes, wrong faces and several entities when reordering are errors')
    sizes = {'TRIA3': [(3, 2)], 'QUAD4R': [(3, 3)], 'TET4': [(2, 1, 1)], 'HEX8R': [(2, 2, 1)]}
    psz = {'TRIA3': [((3, 2), (0, 1)), ((3, 3), (0,))], 'QUAD4R': [((2, 3), (1,)), ((3, 3), (0, 1)), ((3, 2), (0,))], 'TET4': [((2, 2, 1), (0, 1))], 'HEX8R': [((3, 3, 1), (0, 1)), ((3, 1, 2), (0,))]}
    if c.tier != 'quick':
        sizes = {'TRIA3': [(1, 1), (3, 2), (4, 3)], 'QUAD4R': [(1, 1), (3, 3), (4, 2)], 'TET4': [(2, 1, 1), (2, 2, 2)], 'HEX8R': [(2, 2, 1), (3, 2, 2)]}
        psz['TRIA3'].append(((4, 3), (0,))); psz['TET4'].append(((3, 2, 2), (0, 1, 2))); psz['HEX8R'].append(((3, 3, 3), (0, 1, 2)))
    for t in TY:
        for dim in sizes[t]: check(c, m, f'{t} {dim}', Mesh(t, dim, rnd), False)
        for dim, per in psz[t]: check(c, m, f'{t} {dim} periodic {per}', Mesh(t, dim, rnd, per, 1 not in per), True)
        q = Mesh(t, (2, 1) if t in ('TRIA3', 'QUAD4R') else (2, 1, 1), rnd); tools(c, m, q)
        s = start(c, m, q, nty=2); c.holds('reject', not s.ok, f'{t}: mixed', f'{WG}accepts a mesh of two types'); s = start(c, m, q, badface=True); c.holds('reject', not s.ok, f'{t}: faces', f'{WG}accepts faces of an unexpected type')
        s = start(c, m, q, nen=2); s.put('pr', 0, 0, 8, 'i'); c.holds('reject', not (s.ok and s.call('reo', 'pr')), f'{t}: entities', f'{WG}reorders a mesh of two entities')
    return c.finish('EDGE-V mesh: reading, topology, types, periodic boundaries, geometry, interface to the mesher', ['the mesher (gmsh) answers as documented', 'real arithmetic'], 500)
if __name__ == '__main__': H.main('C23', body)
