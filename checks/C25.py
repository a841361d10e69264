import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
from checks.C04 import N, n, Doc
import random, copy
from fractions import Fraction as Q
TXT = r'''
#include <new>
#include <cmath>
using std::isnan;
#include "models/Constant.cpp"
#include "models/Model.cpp"
#include "models/GridExpression.cpp"
#include "models/seismic/Expression.cpp"
#include "models/seismic/Rule.cpp"
#include "models/seismic/Ucvm.cpp"
#include "io/ExprTk.cpp"
#include "io/Grid.cpp"
#include "io/BgMeshMsh4.cpp"
#include "io/Ucvm.cpp"
#include "mesh/Refinement.cpp"
using namespace edge_v;
typedef double const (*P3)[3];
struct Mod: public models::Model { double const *mn; void init( t_idx, double const (*)[3] ) {} void free() {} double getMinSpeed( t_idx i ) const { return mn[i]; } double getMaxSpeed( t_idx i ) const { return 2*mn[i]; } };
alignas(64) static char ex[sizeof(models::seismic::Expression)], ge[sizeof(models::GridExpression)], gr[sizeof(io::Grid)], ru[2*sizeof(models::seismic::Rule)], rf[sizeof(mesh::Refinement)], uc[sizeof(io::Ucvm)], um[sizeof(models::seismic::Ucvm)], co[sizeof(models::Constant)];
static models::Model *M = nullptr;
extern "C" {
  int ucvm_init_flag = 0;
  void kex( std::string const &e ) { M = new (ex) models::seismic::Expression( e ); }
  void kco( double v ) { M = new (co) models::Constant( v ); }
  void kgr( io::Hdf5 const *h ) { new (gr) io::Grid( h ); }
  void igr( unsigned long n, double const *p ) { ((io::Grid*) gr)->init( n, (P3) p ); }
  void dgr() { ((io::Grid*) gr)->~Grid(); }
  void ggr( unsigned long n, float *o ) { for( unsigned long i = 0; i < n; i++ ) o[i] = ((io::Grid*) gr)->getData()[i]; }
  void kge( std::string const &e ) { M = new (ge) models::GridExpression( (io::Grid*) gr, e ); }
  void kum( std::string const &cf, std::string const &ml, std::string const &cm, std::string const &ru, int lo ) { new (uc) io::Ucvm( cf, ml, cm, ru, lo != 0 ); }
  void kuv( double const *tr, std::string const &ps, std::string const &pd, std::string const &ty ) { M = new (um) models::seismic::Ucvm( *(io::Ucvm*) uc, (P3) tr, ps, pd, ty ); }
  void uva( unsigned long n, float *o ) { auto u = (models::seismic::Ucvm*) um; for( unsigned long i = 0; i < n; i++ ) { o[i] = u->getVelP()[i]; o[n+i] = u->getVelS()[i]; o[2*n+i] = u->getRho()[i]; } }
  void ini( unsigned long n, double const *p ) { M->init( n, (P3) p ); }
  void fre() { M->free(); }
  void del() { M->~Model(); }
  void spd( unsigned long n, double *o ) { for( unsigned long i = 0; i < n; i++ ) { o[2*i] = M->getMinSpeed( i ); o[2*i+1] = M->getMaxSpeed( i ); } }
  void ave( int nv, unsigned long ne, t_idx const *ev, float const *v, float *o ) { Mod l; l.mn = nullptr; l.getElAve( nv, ne, ev, v, o ); }
  void kru( int k, std::string const &e ) { new (((models::seismic::Rule*) ru)+k) models::seismic::Rule( e ); }
  void aru( int k, float *v ) { ((models::seismic::Rule*) ru)[k].apply( v[0], v[1], v[2] ); }
  void krf() { new (rf) mesh::Refinement(); }
  void drf() { ((mesh::Refinement*) rf)->~Refinement(); }
  void irf( unsigned long nv, unsigned long ne, int ev, t_idx const *elve, double const *cr, std::string const &e, double const *mn ) { Mod l; l.mn = mn; ((mesh::Refinement*) rf)->init( nv, ne, ev, elve, (P3) cr, e, l ); }
  void grf( unsigned long nv, unsigned long ne, float *v, float *e ) { auto r = (mesh::Refinement*) rf; for( unsigned long i = 0; i < nv; i++ ) v[i] = r->getTargetLengthsVe()[i]; for( unsigned long i = 0; i < ne; i++ ) e[i] = r->getTargetLengthsEl()[i]; }
  void bgm( int ty, unsigned long nv, unsigned long ne, t_idx const *ev, double const *cr, float const *tl, std::ostream &s ) { io::BgMeshMsh4::write( t_entityType(ty), nv, ne, ev, (P3) cr, tl, s ); }
  unsigned long tys[] = { TRIA3, TET4, QUAD4R, HEX8R, LINE };
}
'''
CTXT = r'''
#include <new>
#include "io/Config.cpp"
typedef edge_v::io::Config C;
alignas(64) static char cf[sizeof(C)];
#define CF ((C*) cf)
extern "C" {
  void mk( std::string &f ) { new (cf) C( f ); }
  void gs( std::string const **o ) { int k = 0; for( std::string const *s: { &CF->getMeshIn(), &CF->getMeshOutBase(), &CF->getMeshOutExt(), &CF->getVelModSeismicExpr(), &CF->getVelModUcvmProjSrc(), &CF->getVelModUcvmProjDes(), &CF->getVelModUcvmModels(), &CF->getVelModUcvmModelType(), &CF->getVelModUcvmCrdMode(), &CF->getVelModUcvmRule(), &CF->getModTsunamiBath(), &CF->getModTsunamiExpr(), &CF->getRefExpr(), &CF->getRefOut(), &CF->getTsOut() } ) o[k++] = s; }
  void gn( long *o ) { o[0] = CF->getLowerToSurf(); o[1] = CF->getModTsunamiDisp().size(); o[2] = CF->getPeriodic(); o[3] = CF->getWriteElAn(); o[4] = CF->nPartitions(); o[5] = CF->getReorderOnly(); o[6] = CF->nTsGroups(); o[7] = CF->getCenCfl(); }
  void gd( std::string const **o ) { for( unsigned long i = 0; i < CF->getModTsunamiDisp().size(); i++ ) o[i] = &CF->getModTsunamiDisp()[i]; }
  void gf( double *o ) { o[0] = CF->getModTsunamiDryTol(); o[1] = CF->getFunDt(); for( int i = 0; i < 3; i++ ) for( int j = 0; j < 3; j++ ) o[2+3*i+j] = CF->getVelModUcvmTrafoSrc()[i][j]; }
}
'''
D = 'tools/edge_v/src/'
GE, EX, RU, UV, UC, GR, BG, RE, CP, MO = (D+x for x in ('models/GridExpression.cpp', 'models/seismic/Expression.cpp', 'models/seismic/Rule.cpp', 'models/seismic/Ucvm.cpp', 'io/Ucvm.cpp', 'io/Grid.cpp', 'io/BgMeshMsh4.cpp', 'mesh/Refinement.cpp', 'io/Config.cpp', 'models/Model.cpp'))
NS = 'St7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'
def txt(s, name, t):
    I.set_str(s.it, s.st, I.Ptr(s.it.inputs.get(name) or s.it.input_obj(name), 0), t.encode()); return name
class Expr:
    """the interface of the expression library: an expression is a function of its variables' values"""
    def __init__(s, funs): s.funs, s.b, s.log, s.ready = funs, {}, [], set()
    def models(s):
        b = s.b
        def key(p): return (p.o, p.off)
        def var(it, i, a, st): b.setdefault(('v',)+key(a[0]), {})[I.cstr_at(it, st, a[1]).decode()] = a[2]; return A.TRUE
        def reg(it, i, a, st): b[('t',)+key(a[0])] = key(a[1])
        def comp(it, i, a, st):
            t = I.cstr_at(it, st, a[1]); b[('c',)+key(a[2])] = t.decode() if t is not None else None
            return A.TRUE if t is not None and (t.decode() in s.funs or t == b'0==0;') else A.FALSE
        def val(it, i, a, st):
            t = b.get(('c',)+key(a[0])); sy = b.get(('v',)+b.get(('t',)+key(a[0]), (0, 0)))
            if t is None or sy is None: raise I.Bottom('an expression without text or symbols is evaluated')
            if t not in s.funs: return A.ZERO
            ft = it.mkty((8, 0, 'f')); x = {k: A.lift(it.load(st, p, ft)) for k, p in sy.items()}
            y = s.funs[t](x)
            s.log.append((t, sorted(x), x))
            for k, v in y.items():
                if k not in sy: raise I.Bottom(f'the expression sets {k}, which is not one of its symbols')
                it.store(st, sy[k], A.lift(v) if isinstance(v, A.T) else A.const(v), ft)
            return A.ZERO
        return {'vp_exprtk_var': var, 'vp_exprtk_consts': lambda it, i, a, st: A.TRUE, 'vp_exprtk_reg': reg, 'vp_exprtk_compile': comp, 'vp_exprtk_value': val}
def heap(freed):
    """release of memory: every object at most once"""
    def f(it, i, a, st):
        p = a[0]
        if not isinstance(p, I.Ptr): return None
        if id(p.o) in freed: raise I.Bottom('memory is released twice')
        freed[id(p.o)] = p.o; return None
    return {x: f for x in ('_ZdaPv', '_ZdlPv', '_ZdlPvm', '_ZdaPvm', 'free')}
def vec(s, name, vals, sz=8, kd='f'):
    for k, v in enumerate(vals): s.put(name, sz*k, v if isinstance(v, (A.T, int)) and kd == 'i' or isinstance(v, A.T) else A.const(v) if kd == 'f' else v, sz, kd)
    return name
def rq(rnd, lo=-9, hi=9): return Q(rnd.randint(lo*8, hi*8), 8)
def pts(s, name, npt, sym=True, rnd=None):
    v = [A.var(f'{name}{k}') if sym else rq(rnd) for k in range(3*npt)]; vec(s, name, v); return v
def speeds(c, s, rule, key, npt, want, where):
    if not c.holds(rule, s.call('spd', npt, 'osp'), f'{key}: speeds', f'{where}: {s.why}'): return
    for k in range(npt):
        for j, w in enumerate(('min', 'max')):
            v = s.get('osp', 2*k+j); e = A.equal(v, want[k][j])
            c.holds(rule, e is None, f'{key}: {w} speed of point {k}', f'{where}: {w} speed of point {k} is {A.show(v) if hasattr(A, "show") else v} instead of {want[k][j]}')
def life(c, s, rule, key, where, again):
    """re-initialization and explicit release, in every order that the interface allows"""
    base = s.fork()
    for nm, ops in (('released twice', ('fre', 'fre')), ('released, then initialized', ('fre', 'ini')), ('initialized again', ('ini', 'ini')), ('released, then destroyed', ('fre', 'del')), ('initialized, then destroyed', ('ini', 'del'))):
        x = copy.copy(s); x.st = s.fork(); x.r = H.Result(x.it, x.st, None); s.freed.clear()
        for o in ops:
            ok = x.call(o, *(again if o == 'ini' else ()))
            if not c.holds(rule, ok, f'{key}: {nm}', f'{where}: {o} of a model which is {nm}: {x.why}'): break
def sess(c, m, funs={}, more={}):
    E = Expr(funs); fr = {}; s = c.session([m], models={**E.models(), **heap(fr), **more}); s.E, s.freed = E, fr; return s
def seismic(c, m):
    F = lambda nm: (lambda x: {nm[0]: A.fn('vp', x['x'], x['y'], x['z']), nm[1]: A.fn('vs', x['x'], x['y'], x['z']), 'qp': A.fn('qp', x['x']), 'qs': A.fn('qs', x['x'])})
    s = sess(c, m, {'e1': F(('vp', 'vs'))}); txt(s, 'e', 'e1')
    for npt in (3, 2):
        p = pts(s, f'p{npt}', npt)
        if npt == 3: ok = s.call('kex', 'e')
        if not c.holds('seismic', ok and s.call('ini', npt, f'p{npt}'), f'seismic expression: {npt} points', f'{EX} init: {s.why}'): return
        speeds(c, s, 'seismic', f'seismic expression, {npt} points', npt, [(A.fn('vs', *p[3*k:3*k+3]), A.fn('vp', *p[3*k:3*k+3])) for k in range(npt)], EX)
    life(c, s, 'lifetime', 'seismic expression', EX, (2, 'p2'))
    s = sess(c, m, {}); txt(s, 'e', 'nonsense ('); pts(s, 'p', 1)
    c.holds('reject', not (s.call('kex', 'e') and s.call('ini', 1, 'p')), 'seismic expression which does not compile', f'{EX}: an expression which does not compile is used')
    s = sess(c, m); v = A.var('v'); ok = s.call('kco', v) and s.call('ini', 2, 'p')
    if c.holds('seismic', ok, 'constant', s.why): speeds(c, s, 'seismic', 'constant model', 2, [(v, v)]*2, D+'models/Constant.cpp')
def hdf(db):
    M = f'_ZNK6edge_v2io4Hdf5'
    nm = lambda it, st, p: (I.str_at(it, st, p) or b'?').decode()
    def va(it, i, a, st):
        k = nm(it, st, a[1])
        if k not in db: raise I.Bottom(f'size of {k}')
        return len(db[k])
    def get(sz):
        def f(it, i, a, st):
            k = nm(it, st, a[1])
            if k not in db: raise I.Bottom(f'read of {k}')
            if a[2].o.meta.get('heap') and isinstance(a[2].o.meta.get('size'), int) and a[2].o.meta['size'] < sz*len(db[k]): raise I.Bottom(f'the memory for {k} is too small')
            t = it.mkty((sz, 0, 'f')); t.w = 8*sz
            for j, x in enumerate(db[k]): it.store(st, I.Ptr(a[2].o, it.oadd(a[2].off, sz*j)), x if isinstance(x, A.T) else A.const(x), t)
        return f
    return {f'{M}4nVasERKN{NS}': va, f'{M}3getERKN{NS}Pd': get(8), f'{M}3getERKN{NS}Pf': get(4)}
def grid(c, m, rnd, k):
    nx, ny = rnd.randint(2, 6), rnd.randint(2, 6)
    if nx == ny: nx += 1
    X, Y = (sorted(rnd.sample([Q(j, 2) for j in range(-20, 20)], q)) for q in (nx, ny)); Z = [A.var(f'z{j}') for j in range(nx*ny)]
    db = {'/x': X, '/y': Y, '/z': Z}
    def at(p):
        i, j = next(q for q in range(nx) if X[q] >= p[0]), next(q for q in range(ny) if Y[q] >= p[1]); return Z[j*nx+i]
    def inside():
        i, j = rnd.randint(1, nx-1), rnd.randint(1, ny-1)
        f = lambda V, q: V[q] if rnd.random() < .2 else V[q-1]+(V[q]-V[q-1])*Q(rnd.randint(1, 7), 8)
        return [f(X, i), f(Y, j), rq(rnd)]
    F = lambda x: {'min_speed': A.fn('mn', x['x'], x['y'], x['z'], x['data']), 'max_speed': A.fn('mx', x['x'], x['y'], x['z'], x['data'])}
    s = sess(c, m, {'g1': F}, hdf(db)); txt(s, 'e', 'g1' if k % 3 != 2 else ''); ok = s.call('kgr', 'hdf')
    for r, npt in enumerate((5, 2)):
        P = [inside() for _ in range(npt)]; vec(s, f'p{r}', [v for p in P for v in p])
        if not c.holds('grid', ok and s.call('igr', npt, f'p{r}') and s.call('ggr', npt, 'od'), f'grid {k}, {r}: set up', f'{GR} init: {s.why}'): return
        for j, p in enumerate(P):
            v = s.get('od', j, 'f', 32); c.holds('grid', A.equal(v, at(p)) is None, f'grid {k}, {r}: point {j}', f'{GR} init: the value at {p} is {v} instead of {at(p)}')
        if r == 0: ok = s.call('kge', 'e')
        if not c.holds('grid', ok and s.call('ini', npt, f'p{r}'), f'grid {k}, {r}: model', f'{GE} init: {s.why}'): return
        want = [(A.fn('mn', *(A.const(v) for v in p), at(p)), A.fn('mx', *(A.const(v) for v in p), at(p))) for p in P]
        if k % 3 != 2: speeds(c, s, 'grid', f'grid {k}, {r}', npt, want, GE)
    life(c, s, 'lifetime', f'grid expression {k}', GE, (2, 'p1'))
    x = copy.copy(s); x.st = s.fork(); x.r = H.Result(x.it, x.st, None); s.freed.clear()
    c.holds('lifetime', x.call('igr', 2, 'p1') and x.call('igr', 2, 'p1') and x.call('dgr'), f'grid {k}: released', f'{GR}: {x.why}')
    for j, bad in enumerate(([X[0]-1, (Y[0]+Y[-1])/2, Q(0)], [X[-1]+1, (Y[0]+Y[-1])/2, Q(0)], [(X[0]+X[-1])/2, Y[0]-1, Q(0)], [(X[0]+X[-1])/2, Y[-1]+1, Q(0)])):
        s = sess(c, m, {}, hdf(db)); s.call('kgr', 'hdf'); vec(s, 'pb', inside()+bad)
        c.holds('reject', not s.call('igr', 2, 'pb'), f'grid {k}: outside {j}', f'{GR} init: the point {bad} outside of the grid [{X[0]}, {X[-1]}] x [{Y[0]}, {Y[-1]}] has a value')
    for j, (a, b, z) in enumerate(((nx, ny, 0), (nx, ny, nx*ny+1))):
        s = sess(c, m, {}, hdf({'/x': X, '/y': Y, '/z': [Q(1)]*z})); s.call('kgr', 'hdf'); vec(s, 'pb', inside())
        c.holds('reject', not s.call('igr', 1, 'pb'), f'grid {k}: size {j}', f'{GR} init: a grid of {nx} x {ny} nodes with {z} values is used')
def rules(c, m):
    FU = lambda t: (lambda x: {k: A.fn(f'{t}{k}', x['vp'], x['vs'], x['rho']) for k in ('vp', 'vs', 'rho')})
    s = sess(c, m, {'r0': FU('a'), 'r1': lambda x: {'vs': A.fn('bvs', x['vp'])}}); txt(s, 'e0', 'r0'); txt(s, 'e1', 'r1'); txt(s, 'en', '')
    if not c.holds('rule', s.call('kru', 0, 'e0') and s.call('kru', 1, 'e1'), 'rules', f'{RU}: {s.why}'): return
    for k in (0, 1, 0, 1):
        v = [A.var(f'{x}{k}') for x in ('vp', 'vs', 'rho')]; s.it.pos = tuple(v); vec(s, 'v', v, 4)
        if not c.holds('rule', s.call('aru', k, ('v', 4)), f'rule {k}', f'{RU} apply: {s.why}'): return
        want = [A.fn('a'+x, *v) for x in ('vp', 'vs', 'rho')] if k == 0 else [v[0], A.fn('bvs', v[0]), v[2]]
        for j in range(3): g = s.get('v', j, 'f', 32); c.holds('rule', A.equal(g, want[j]) is None, f'rule {k}, value {j}', f'{RU} apply: {("vp", "vs", "rho")[j]} is {g} instead of {want[j]}')
    s = sess(c, m, {}); txt(s, 'en', ''); v = [Q(3), Q(2), Q(5)]; vec(s, 'v', v, 4)
    if c.holds('rule', s.call('kru', 0, 'en') and s.call('aru', 0, ('v', 4)), 'no rule', f'{RU}: {s.why}'):
        for j in range(3): c.holds('rule', A.equal(s.get('v', j, 'f', 32), A.const(v[j])) is None, f'no rule, value {j}', f'{RU}: without a rule, {v[j]} becomes {s.get("v", j, "f", 32)}')
    for j in range(3):
        for bad in (Q(0), Q(-1)):
            s = sess(c, m, {'r0': FU('a')}); txt(s, 'e0', 'r0'); w = list(v); w[j] = bad; vec(s, 'v', w, 4)
            c.holds('reject', not (s.call('kru', 0, 'e0') and s.call('aru', 0, ('v', 4))), f'rule: {j} is {bad}', f'{RU} apply: the input {w} is accepted')
def averages(c, m, rnd):
    for nv in (2, 3, 4, 8):
        ne, nn = 4, 9; ev = [rnd.randrange(nn) for _ in range(ne*nv)]; s = sess(c, m); vec(s, 'ev', ev, 8, 'i'); v = [A.var(f'v{k}') for k in range(nn)]; vec(s, 'v', v, 4)
        if not c.holds('average', s.call('ave', nv, ne, 'ev', ('v', 4), 'o'), f'averages, {nv} vertices', f'{MO} getElAve: {s.why}'): continue
        for e in range(ne):
            w = sum((v[x] for x in ev[e*nv:(e+1)*nv]), A.ZERO)/nv; g = s.get('o', e, 'f', 32)
            c.holds('average', A.equal(g, w) is None, f'averages, {nv} vertices, element {e}', f'{MO} getElAve: element {e} has {g} instead of {w}')
def ucvm(c, m, rnd, k):
    ty, lower = ('gtl', 'crust', 'cmb')[k % 3], k % 2 == 1; mode = ('UCVM_COORD_GEO_ELEV', 'UCVM_COORD_GEO_DEPTH')[k % 2]; npt = 3
    tr = [[rq(rnd) for _ in range(3)] for _ in range(3)]; P = [[rq(rnd, -3, 3) for _ in range(3)] for _ in range(npt)]
    log = []; R = Q(57.295779513082321)
    surf = lambda x, y: Q((x.numerator+y.numerator) % 7-3, 2)
    ev = lambda it, st, o, off: A.cval(A.lift(it.load(st, I.Ptr(o, off), it.mkty((8, 0, 'f')))))
    def put(it, st, o, off, v): it.store(st, I.Ptr(o, off), v if isinstance(v, A.T) else A.const(v), it.mkty((8, 0, 'f')))
    pj = lambda x, y: (x*2+y+1, y*3-x)
    def init(it, i, a, st): log.append(('init', I.cstr_at(it, st, a[0]))); return 0
    def add(it, i, a, st): log.append(('models', I.cstr_at(it, st, a[0]))); return 0
    def par(it, i, a, st): log.append(('param', a[0], a[1])); return 0
    def plus(it, i, a, st):
        t = I.cstr_at(it, st, a[0]); o = it.input_obj('pj_'+(t or b'?').decode()); return I.Ptr(o, 0)
    def trf(it, i, a, st):
        if (getattr(a[0].o, 'name', '') , getattr(a[1].o, 'name', '')) != ('pj_src', 'pj_des'): raise I.Bottom('projections')
        for q in range(a[2]):
            ox, oy = a[4].off+8*a[3]*q, a[5].off+8*a[3]*q; x, y = pj(ev(it, st, a[4].o, ox), ev(it, st, a[5].o, oy)); put(it, st, a[4].o, ox, x); put(it, st, a[5].o, oy, y)
            if isinstance(a[6], I.Ptr): put(it, st, a[6].o, a[6].off+8*a[3]*q, A.var('projected z'))
        return 0
    def query(it, i, a, st):
        for q in range(a[0]):
            x, y, z = (ev(it, st, a[1].o, a[1].off+24*q+8*j) for j in range(3)); b = a[2].off+144*q
            put(it, st, a[2].o, b, surf(x, y))
            for g, nm in enumerate(('crust', 'gtl', 'cmb')):
                for j, w in enumerate(('vp', 'vs', 'rho')): put(it, st, a[2].o, b+48+32*g+8+8*j, A.fn(nm+w, *(A.const(v) for v in (x, y, z))))
        return 0
    F = lambda x: {q: A.fn('n'+q, x['vp'], x['vs'], x['rho']) for q in ('vp', 'vs', 'rho')}
    mod = {'ucvm_init': init, 'ucvm_add_model_list': add, 'ucvm_setparam': par, 'pj_init_plus': plus, 'pj_transform': trf, 'ucvm_query': query, 'pj_free': lambda it, i, a, st: None, '_ZSt5isnand': lambda it, i, a, st: A.FALSE, '_ZSt5isnanf': lambda it, i, a, st: A.FALSE}
    s = sess(c, m, {'norm': F}, mod); vec(s, 'tr', [v for r in tr for v in r]); vec(s, 'p', [v for p in P for v in p])
    for a, b in (('cf', 'conf'), ('ml', 'cvms'), ('cm', mode), ('ru', 'norm' if k < 4 else ''), ('ps', 'src'), ('pd', 'des'), ('ty', ty)): txt(s, a, b)
    key = f'UCVM, {ty}, {mode}, {"lowered" if lower else "as is"}'
    if not c.holds('ucvm', s.call('kum', 'cf', 'ml', 'cm', 'ru', int(lower)) and s.call('kuv', 'tr', 'ps', 'pd', 'ty') and s.call('ini', npt, 'p') and s.call('uva', npt, 'o'), f'{key}: set up', f'{UC}, {UV}: {s.why}'): return
    md = {x[0]: x[1:] for x in log}
    c.holds('ucvm', md.get('init') == (b'conf',) and md.get('models') == (b'cvms',) and md.get('param') == (0, 1 if k % 2 == 0 else 0), f'{key}: parameters', f'{UC} Ucvm: the library is set up with {log}')
    want = []
    for p in P:
        t = [sum(tr[a][b]*p[b] for b in range(3)) for a in range(3)]; x, y = pj(t[0], t[1]); x, y = x*R, y*R; z = min(t[2], surf(x, y)) if lower else t[2]
        raw = [A.fn(ty+w, *(A.const(v) for v in (x, y, z))) for w in ('vp', 'vs', 'rho')]
        want.append([A.fn('n'+w, *raw) for w in ('vp', 'vs', 'rho')] if k < 4 else raw)
    for q in range(npt):
        for j, w in enumerate(('vp', 'vs', 'rho')):
            g = s.get('o', j*npt+q, 'f', 32); c.holds('ucvm', A.equal(g, want[q][j]) is None, f'{key}: {w} of point {q}', f'{UC} getVels: {w} of point {q} is {g} instead of {want[q][j]}')
    speeds(c, s, 'ucvm', key, npt, [(A.abs_(want[q][1]), A.abs_(want[q][0])) for q in range(npt)], UV)
    life(c, s, 'lifetime', key, UV, (npt, 'p'))
def refine(c, m, rnd, k):
    nv, nn, ne = (3, 9, 6) if k % 2 else (4, 10, 5); ev = []
    for _ in range(ne): ev += rnd.sample(range(nn), nv)
    cr = [[rq(rnd) for _ in range(3)] for _ in range(nn)]; ws = [Q(rnd.randint(1, 40), 4) for _ in range(nn)]
    fq = lambda x, y, z, r: 1+abs(x*3+y)+r*r; ed = lambda x, y, z, r: 2+abs(z-x)+r
    v = lambda x: [A.cval(x[q]) for q in ('x', 'y', 'z', 'maximum_wave_speed_ratio')]
    s = sess(c, m, {'ref': lambda x: {'frequency': fq(*v(x)), 'edges_per_wave_length': ed(*v(x))}}); txt(s, 'e', 'ref'); vec(s, 'ev', ev, 8, 'i'); vec(s, 'cr', [q for r in cr for q in r]); vec(s, 'ws', ws); key = f'refinement {k}'
    for r in range(2):
        if not c.holds('refinement', (r or s.call('krf')) and s.call('irf', nn, ne, nv, 'ev', 'cr', 'e', 'ws') and s.call('grf', nn, ne, 'ov', 'oe'), f'{key}: set up', f'{RE} init: {s.why}'): return
        best = {}
        for e in range(ne):
            vs = ev[e*nv:(e+1)*nv]; x = [sum(cr[q][d] for q in vs)/nv for d in range(3)]; ra = max(ws[q] for q in vs)/min(ws[q] for q in vs); f = 1/(fq(*x, ra)*ed(*x, ra))
            w = sum(ws[q] for q in vs)/nv*f; g = s.get('oe', e, 'f', 32)
            c.holds('refinement', A.equal(g, A.const(w)) is None, f'{key}: element {e}', f'{RE} init: the target length of element {e} is {g} instead of {w}')
            for q in vs: best[q] = min(best.get(q, w*10**6), ws[q]*f)
        for q, w in best.items():
            g = s.get('ov', q, 'f', 32); c.holds('refinement', A.equal(g, A.const(w)) is None, f'{key}: vertex {q}', f'{RE} init: the target length of vertex {q} is {g} instead of {w}')
    c.holds('lifetime', s.call('drf'), f'{key}: released', f'{RE}: {s.why}')
    for nm in ('frequency', 'edges_per_wave_length'):
        for bad in (Q(0), Q(-2)):
            cnt = [0]
            def fun(x):
                cnt[0] += 1; y = {'frequency': Q(1), 'edges_per_wave_length': Q(3)}
                if cnt[0] == 2: y[nm] = bad
                return y
            s = sess(c, m, {'ref': fun}); txt(s, 'e', 'ref'); vec(s, 'ev', ev, 8, 'i'); vec(s, 'cr', [q for r in cr for q in r]); vec(s, 'ws', ws); s.call('krf')
            c.holds('reject', not s.call('irf', nn, ne, nv, 'ev', 'cr', 'e', 'ws'), f'{key}: {nm} {bad}', f'{RE} init: {nm} {bad} is accepted')
def background(c, m, rnd, k, tys):
    ty, nv, d, gm = (('TRIA3', 3, 2, 2), ('TET4', 4, 3, 4))[k % 2]; nn, ne = 5, 3; ev = []
    for _ in range(ne): ev += rnd.sample(range(nn), nv)
    cr = [A.var(f'c{q}') for q in range(3*nn)]; tl = [A.var(f'l{q}') for q in range(nn)]; out = []
    def emit(v): out.append(v)
    def sv(it, i, a, st):
        b = I.bytes_at(it, st, a[1], a[2])
        if b is None: raise I.Bottom('an unknown text is written')
        emit(b.decode()); return a[0]
    def sc(it, i, a, st):
        b = I.cstr_at(it, st, a[1])
        if b is None: raise I.Bottom('an unknown text is written')
        emit(b.decode()); return a[0]
    def ch(it, i, a, st):
        if not isinstance(a[1], int): raise I.Bottom('an unknown character is written')
        emit(chr(a[1] & 255)); return a[0]
    def num(it, i, a, st): emit(str(a[1]) if isinstance(a[1], int) else A.lift(a[1])); return a[0]
    def ss(it, i, a, st): emit((I.str_at(it, st, a[1]) or b'?').decode()); return a[0]
    mod = {'_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l': sv, '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc': sc, '_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c': ch, '_ZNSo3putEc': ch, '_ZNSo5flushEv': lambda it, i, a, st: a[0], '_ZNSo5writeEPKcl': sv, '_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE': ss,
        '_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_': lambda it, i, a, st: (emit('\n'), a[0])[1]}
    for t in 'mlytijxsdfb': mod['_ZNSols'+'E'+t] = num
    for t in 'mlyxdb': mod[f'_ZNSo9_M_insertI{t}EERSoT_'] = num
    s = sess(c, m, {}, mod); vec(s, 'ev', ev, 8, 'i'); vec(s, 'cr', cr); vec(s, 'tl', tl, 4)
    s.put('os', 0, I.Ptr(s.it.input_obj('osvt'), 24), 8, 'ptr'); s.put('osvt', 0, 16); s.put('os', 16+240, I.Ptr(s.it.input_obj('ctype'), 0), 8, 'ptr'); s.put('ctype', 56, 1, 1); [s.put('ctype', 57+q, q, 1) for q in range(128)]
    key = f'background mesh, {ty}'
    if not c.holds('background', s.call('bgm', tys[ty], nn, ne, 'ev', 'cr', ('tl', 4), 'os'), key, f'{BG} write: {s.why}'): return
    toks = [[]]; pend = ''
    def flush():
        nonlocal pend
        if pend: toks[-1].append(pend); pend = ''
    for o in out:
        if isinstance(o, str):
            for x in o:
                if x == '\n': flush(); toks.append([])
                elif x.isspace(): flush()
                else: pend += x
        else: flush(); toks[-1].append(o)
    flush(); L = [l for l in toks if l]
    nd = next((q for q, l in enumerate(L) if l == ['$NodeData']), len(L))
    want = [['$MeshFormat'], ['4.1', '0', '8'], ['$EndMeshFormat'], ['$Nodes'], ['1', str(nn), '0', str(nn-1)], [str(d), '1', '0', str(nn)]]+[[str(q)] for q in range(nn)]+[cr[3*q:3*q+3] for q in range(nn)]+[['$EndNodes'], ['$Elements'], ['1', str(ne), '0', str(ne-1)], [str(d), '1', str(gm), str(ne)]]+[[str(e)]+[str(q) for q in ev[e*nv:(e+1)*nv]] for e in range(ne)]+[['$EndElements']]
    tail = [['3'], ['0'], ['1'], [str(nn)]]+[[str(q), tl[q]] for q in range(nn)]+[['$EndNodeData']]
    def eq(a, b): return len(a) == len(b) and all((x == y) if isinstance(x, str) and isinstance(y, str) else (not isinstance(x, str) and not isinstance(y, str) and A.equal(x, y) is None) for x, y in zip(a, b))
    for q, w in enumerate(want): c.holds('background', q < nd and eq(L[q], w), f'{key}: line {q}', f'{BG} write: line {q} is {L[q] if q < nd else None} instead of {w}')
    c.holds('background', nd == len(want), f'{key}: sections', f'{BG} write: {nd} lines before the data instead of {len(want)}')
    for q, w in enumerate(tail): p = len(L)-len(tail)+q; c.holds('background', p > nd and eq(L[p], w), f'{key}: data line {q}', f'{BG} write: data line {q} is {L[p] if 0 <= p < len(L) else None} instead of {w}')
    c.holds('background', [l for l in L[nd+1:nd+2]] == [['1']] and L[nd+3:nd+5] == [['1'], ['0.0']], f'{key}: tags', f'{BG} write: tags of the data')
    for bad in ('QUAD4R', 'HEX8R', 'LINE'):
        s = sess(c, m, {}, mod); c.holds('reject', not s.call('bgm', tys[bad], 0, 0, 'ev', 'cr', ('tl', 4), 'os'), f'background mesh of {bad}', f'{BG} write: a mesh of {bad} elements is written')
SN = 'meshIn base ext expr psrc pdes models type mode rule bath texpr rexpr rout ts'.split()
def config(c, m, k, rnd):
    full, part = k == 0, k == 1
    has = lambda: full or (not part and rnd.random() < .6)
    S = {}; V = {}
    def s_(nm, tag):
        if has(): S[nm] = f'{nm}_{k}'; return n(tag, S[nm])
    def v_(nm, tag, v):
        if has(): V[nm] = v; return n(tag, str(v) if not isinstance(v, A.T) else v)
    bo = lambda: rnd.randrange(2)
    tr = None; us = None
    if has():
        tr = [[A.var(f'tr{a}{b}') if has() or full else A.ZERO for b in range(3)] for a in range(3)]
        us = n('source_transformation', *[n(f'{"xyz"[a]}_{b}', tr[a][b]) for a in range(3) for b in range(3) if tr[a][b] is not A.ZERO])
    disp = [f'd{q}_{k}' for q in range(0 if part else rnd.randint(0, 3))] if not full else ['d0', 'd1', 'd2']
    base = s_('base', 'base'); ext = s_('ext', 'extension')
    mesh = n('mesh', n('files', s_('meshIn', 'in'), n('out', base, ext)), v_('an', 'write_element_annotations', bo() or int(full)), v_('per', 'periodic', rnd.choice([5, 1, 0, -3]) if not full else 7), v_('ro', 'reorder_only', bo() or int(full)), v_('np', 'n_partitions', rnd.choice([0, 1, 6]) if not full else 12))
    u = n('ucvm', us, n('projections', s_('psrc', 'source'), s_('pdes', 'destination')), s_('models', 'models'), s_('type', 'model_type'), s_('mode', 'coordinate_mode'), s_('rule', 'normalization_rule'), v_('low', 'lower_to_surface', bo() or int(full)))
    t = n('tsunami', v_('dry', 'dry_tolerance', A.var('dry')), s_('bath', 'bathymetry'), *[n('displacements', x) for x in disp], s_('texpr', 'expression'))
    vm = n('velocity_model', s_('expr', 'seismic_expression'), u, t)
    ref = n('refinement', s_('rexpr', 'expression'), s_('rout', 'out'))
    ti = n('time', v_('ng', 'n_groups', rnd.choice([0, 1, 3]) if not full else 5), v_('dt', 'fundamental_time_step', A.var('dt')), v_('cen', 'centroid_based_cfl', bo() or int(full)), n('files', n('out', s_('ts', 'time_steps'))))
    doc = Doc(n('', n('edge_v', mesh, vm, ref, ti))); s = c.session([m], models=doc.models()); txt(s, 'f', 'conf.xml'); key = f'configuration {k}'
    if not c.holds('configuration', s.call('mk', 'f') and all(s.call(x, 'o'+x) for x in ('gs', 'gn', 'gd', 'gf')), f'{key}: set up', f'{CP}: {s.why}'): return
    c.holds('configuration', doc.loaded == [b'conf.xml'], f'{key}: file', f'{CP}: {doc.loaded} is read')
    def tx(nm, j):
        p = s.r.st.wr(s.it.inputs[nm]).cells.get(8*j); p = p[1] if p else None
        return I.str_at(s.it, s.st, p) if isinstance(p, I.Ptr) else None
    for j, x in enumerate(SN):
        g = tx('ogs', j); c.holds('configuration', g is not None and g.decode() == S.get(x, ''), f'{key}: {x}', f'{CP}: {x} is {g} instead of {S.get(x, "")!r}')
    w = [V.get('low', 0), len(disp), V['per'] if V.get('per', 0) > 0 else 2**31-1, V.get('an', 0), max(1, V.get('np', 1)), V.get('ro', 0), max(1, V.get('ng', 1)), V.get('cen', 0)]
    for j, x in enumerate(('lower_to_surface', 'displacements', 'periodic', 'write_element_annotations', 'n_partitions', 'reorder_only', 'n_groups', 'centroid_based_cfl')):
        g = s.int('ogn', j); c.holds('configuration', g == w[j], f'{key}: {x}', f'{CP}: {x} is {g} instead of {w[j]}')
    for j, x in enumerate(disp): c.holds('configuration', (tx('ogd', j) or b'').decode() == x, f'{key}: displacement {j}', f'{CP}: displacement {j} is {tx("ogd", j)} instead of {x}')
    T = [[A.ONE if a == b else A.ZERO for b in range(3)] for a in range(3)] if tr is None else tr
    if 'dry' in V: g = s.get('ogf', 0); c.holds('configuration', A.equal(g, V['dry']) is None, f'{key}: dry tolerance', f'{CP}: the dry tolerance is {g}')
    g = s.get('ogf', 1); c.holds('configuration', A.equal(g, V.get('dt', A.ZERO)) is None, f'{key}: time step', f'{CP}: the fundamental time step is {g} instead of {V.get("dt", 0)}')
    for a in range(3):
        for b in range(3): g = s.get('ogf', 2+3*a+b); c.holds('configuration', A.equal(g, T[a][b]) is None, f'{key}: transformation {a},{b}', f'{CP}: entry {a},{b} of the transformation is {g} instead of {T[a][b]}')
def body(c):
    f = B.v_flags(extra=['-I'+B.VERIF+'/stubs_ucvm']); fc = B.v_flags(extra=['-I/opt/vp/deps/include', '-I'+B.VERIF+'/stubs_ucvm', '-DPUGIXML_SOURCE="pugixml_source.h"', '-Wno-undefined-inline'])
    c.prefetch([(None, f, TXT), (None, fc, CTXT)]); rnd = random.Random(c.seed); th = c.tier == 'thorough'
    for r, t in (('seismic', 'the speeds of a point are those of the expression at this point'), ('grid', 'the value of a grid at a point is that of the first node at or above it, in both directions'), ('lifetime', 'memory of a model is released once, whatever the order of set-up, release and destruction'), ('reject', 'invalid input is refused'), ('rule', 'a normalization rule is a function of the values it is applied to'), ('average', 'the value of an element is the average of its vertices'), ('ucvm', 'UCVM is queried at the transformed and projected point'), ('refinement', 'target lengths follow the expression at the element, and are the smallest of the adjacent elements at a vertex'), ('background', 'the background mesh has the mesh and the target lengths'), ('configuration', 'every value of the document is used as written; what is missing has its default')): c.rule(r, t)
    m = c.driver(TXT, f, 'EDGE-V models'); mc = c.driver(CTXT, fc, 'EDGE-V configuration')
    s0 = c.session([m]); o = s0.it.glob_obj(m.globs['tys']); tys = {}
    for j, x in enumerate(('TRIA3', 'TET4', 'QUAD4R', 'HEX8R', 'LINE')): v = s0.it.load(s0.st, I.Ptr(o, 8*j), s0.it.mkty((8, 0, 'i'))); tys[x] = int(v.a[0]) if isinstance(v, A.T) else v
    seismic(c, m); rules(c, m); averages(c, m, rnd)
    for k in range(9 if th else 3): grid(c, m, rnd, k)
    for k in range(6): ucvm(c, m, rnd, k)
    for k in range(12 if th else 4): refine(c, m, rnd, k)
    for k in range(2): background(c, m, rnd, k, tys)
    for k in range(30 if th else 8): config(c, mc, k, rnd)
    return c.finish('the models, the grid, the refinement, the writer of the background mesh and the configuration are interpreted; borders: the expression library, the HDF5 reader, UCVM and PROJ.4, the XML library, output streams', ['the libraries behave as documented; single-precision rounding is not modelled'], 500)
if __name__ == '__main__': H.main('C25', body)
