import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
import random, copy
from fractions import Fraction as Q
TXT = r'''
#include <limits>
#include <new>
#include "mesh/EdgeV.cpp"
#include "data/EntityLayout.cpp"
typedef edge::mesh::EdgeV EV;
alignas(64) static char ev[sizeof(EV)];
#define E ((EV*) ev)
extern "C" {
  unsigned long tabs[] = { (unsigned long) C_LTS_EL[EL_INT_EQ], (unsigned long) C_LTS_EL[EL_INT_LT], (unsigned long) C_LTS_EL[EL_INT_GT], (unsigned long) C_LTS_AD[0][AD_EQ], (unsigned long) C_LTS_AD[1][AD_EQ], (unsigned long) C_LTS_AD[2][AD_EQ], (unsigned long) C_LTS_AD[3][AD_EQ], (unsigned long) C_LTS_AD[4][AD_EQ], (unsigned long) C_LTS_AD[5][AD_EQ],
    (unsigned long) C_LTS_AD[0][AD_LT], (unsigned long) C_LTS_AD[1][AD_LT], (unsigned long) C_LTS_AD[2][AD_LT], (unsigned long) C_LTS_AD[3][AD_LT], (unsigned long) C_LTS_AD[4][AD_LT], (unsigned long) C_LTS_AD[5][AD_LT],
    (unsigned long) C_LTS_AD[0][AD_GT], (unsigned long) C_LTS_AD[1][AD_GT], (unsigned long) C_LTS_AD[2][AD_GT], (unsigned long) C_LTS_AD[3][AD_GT], (unsigned long) C_LTS_AD[4][AD_GT], (unsigned long) C_LTS_AD[5][AD_GT], sizeof(edge_v::t_sparseType) };
  void mk( std::string const &m, std::string const &s, int p ) { new (ev) EV( m, s, p ); }
  void ranks( int r, int n ) { edge::parallel::g_rank = r; edge::parallel::g_nRanks = n; }
  unsigned long ntg() { return E->nTgs(); }
  unsigned long nin() { return E->nElsIn(); }
  unsigned long nse() { return E->nElsSe(); }
  unsigned long nco() { return E->nCommElFa(); }
  void tgs( unsigned long *i, unsigned long *s, double *r, unsigned long *la ) { auto l = E->getElLayout(); la[0] = l.nEnts; la[1] = l.timeGroups.size(); for( unsigned t = 0; t < E->nTgs(); t++ ) { i[t] = E->nTgElsIn()[t]; s[t] = E->nTgElsSe()[t]; auto &g = l.timeGroups[t]; la[2+8*t] = g.inner.first; la[3+8*t] = g.inner.size; la[4+8*t] = g.send.size(); la[5+8*t] = g.send[0].first; la[6+8*t] = g.send[0].size; la[7+8*t] = g.receive.size(); la[8+8*t] = g.receive[0].size; la[9+8*t] = g.nEntsOwn; } for( unsigned t = 0; t <= E->nTgs(); t++ ) r[t] = E->getRelDt()[t]; }
  void mpi( unsigned long nc, unsigned long *c, unsigned long *se, unsigned short *sf, unsigned long *re, unsigned short *rf ) { for( unsigned long i = 0; i < nc; i++ ) c[i] = E->getCommStruct()[i]; for( unsigned long i = 0; i < E->nCommElFa(); i++ ) { se[i] = E->getSendEl()[i]; sf[i] = E->getSendFa()[i]; re[i] = E->getRecvEl()[i]; rf[i] = E->getRecvFa()[i]; } }
  void lts( unsigned long n, t_elementChars *c, long long *o ) { for( unsigned long i = 0; i < n; i++ ) c[i].spType = o[i]; E->setLtsTypes( c ); for( unsigned long i = 0; i < n; i++ ) o[i] = c[i].spType; }
  void spt( t_vertexChars *v, t_faceChars *f, t_elementChars *c, unsigned long n, unsigned long m, unsigned long k, long long *o ) { for( unsigned long i = 0; i < n; i++ ) v[i].spType = o[i]; for( unsigned long i = 0; i < m; i++ ) f[i].spType = o[n+i]; for( unsigned long i = 0; i < k; i++ ) c[i].spType = o[n+m+i]; E->setSpTypes( v, f, c ); for( unsigned long i = 0; i < n; i++ ) o[i] = v[i].spType; for( unsigned long i = 0; i < m; i++ ) o[n+i] = f[i].spType; for( unsigned long i = 0; i < k; i++ ) o[n+m+i] = c[i].spType; }
  void ids( unsigned short *v, unsigned short *f ) { E->setSeVeFaIdsAd( v, f ); }
  unsigned long nva( std::string const &n ) { return E->nVas( n ); }
  void dat( std::string const &n, float *o ) { E->getData( n, o ); }
  void geo( unsigned long **o ) { o[0] = (unsigned long*) E->getFaVe(); o[1] = (unsigned long*) E->getFaEl(); o[2] = (unsigned long*) E->getElVe(); o[3] = (unsigned long*) E->getElFa(); o[4] = (unsigned long*) E->getElFaEl(); o[5] = (unsigned long*) E->getVeCrds(); o[6] = (unsigned long*) E->getNormalsFa(); o[7] = (unsigned long*) E->getTangentsFa(); o[8] = (unsigned long*) E->getAreasFa(); o[9] = (unsigned long*) E->getVolumesEl(); o[10] = (unsigned long*) E->getInDiasEl(); }
  unsigned long cnt( int k ) { return k == 0? E->nVes(): k == 1? E->nFas(): E->nEls(); }
}
'''

HTXT = r"""
#include <new>
#include "io/Hdf5.cpp"
extern "C" {
  hid_t H5T_NATIVE_USHORT_g = 1001, H5T_NATIVE_ULONG_g = 1002, H5T_NATIVE_FLOAT_g = 1003, H5T_NATIVE_DOUBLE_g = 1004, H5T_STD_U16LE_g = 1011, H5T_STD_I64LE_g = 1012, H5T_IEEE_F32LE_g = 1013, H5T_IEEE_F64LE_g = 1014;
  hid_t H5T_STD_U64LE_g = 1015, H5T_STD_U32LE_g = 1016, H5T_STD_I32LE_g = 1017, H5T_STD_I16LE_g = 1018, H5T_NATIVE_LONG_g = 1021, H5T_NATIVE_INT_g = 1022, H5T_NATIVE_UINT_g = 1023, H5T_NATIVE_SHORT_g = 1024, H5T_NATIVE_ULLONG_g = 1025, H5T_NATIVE_LLONG_g = 1026, H5T_STD_U16BE_g = 1031, H5T_STD_I64BE_g = 1032, H5T_IEEE_F32BE_g = 1033, H5T_IEEE_F64BE_g = 1034, H5T_NATIVE_UINT64_g = 1025, H5T_NATIVE_INT64_g = 1026, H5T_NATIVE_UINT16_g = 1001, H5T_NATIVE_INT16_g = 1024;
  hid_t H5P_CLS_FILE_CREATE_ID_g = 0;
}
alignas(64) static char hd[sizeof(edge_v::io::Hdf5)];
#define HD ((edge_v::io::Hdf5*) hd)
extern "C" {
  void mk( std::string const &n, int ro ) { if( ro == 2 ) new (hd) edge_v::io::Hdf5( n ); else new (hd) edge_v::io::Hdf5( n, ro != 0 ); }
  void de() { HD->~Hdf5(); }
  int ex( std::string const &n ) { return HD->exists( n )? 1: 0; }
  void gr( std::string const &n ) { HD->createGroup( n ); }
  unsigned long nv( std::string const &n ) { return HD->nVas( n ); }
  void s16( std::string const &n, unsigned long k, unsigned short const *x ) { HD->set( n, k, x ); }
  void s64( std::string const &n, unsigned long k, edge_v::t_idx const *x ) { HD->set( n, k, x ); }
  void sf( std::string const &n, unsigned long k, float const *x ) { HD->set( n, k, x ); }
  void sd( std::string const &n, unsigned long k, double const *x ) { HD->set( n, k, x ); }
  void g16( std::string const &n, unsigned short *x ) { HD->get( n, x ); }
  void g64( std::string const &n, edge_v::t_idx *x ) { HD->get( n, x ); }
  void gf( std::string const &n, float *x ) { HD->get( n, x ); }
  void gd( std::string const &n, double *x ) { HD->get( n, x ); }
}
"""
EV, HC, LC = 'src/mesh/EdgeV.cpp', 'tools/edge_v/src/io/Hdf5.cpp', 'src/data/EntityLayout.cpp'
NAMES = 'St7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'
MAX = (1 << 64)-1
DB = {'in': '/edge_v/n_time_group_elements_inner', 'se': '/edge_v/n_time_group_elements_send', 'rel': '/edge_v/relative_time_steps', 'cs': '/edge_v/communication_structure', 'sel': '/edge_v/send_el', 'sfa': '/edge_v/send_fa', 'rel_': '/edge_v/recv_el', 'rfa': '/edge_v/recv_fa', 'sv': '/edge_v/send_vertex_ids', 'sf': '/edge_v/send_face_ids'}
SZ = {'in': (8, 'i'), 'se': (8, 'i'), 'rel': (8, 'f'), 'cs': (8, 'i'), 'sel': (8, 'i'), 'rel_': (8, 'i'), 'sfa': (2, 'i'), 'rfa': (2, 'i'), 'sv': (2, 'i'), 'sf': (2, 'i')}
def ty(it, sz, kd):
    t = it.mkty((sz, 0, kd))
    if kd == 'f': t.w = sz*8
    return t
class World:
    """an annotated mesh: groups, adjacency, communication"""
    def __init__(s, rnd, nf, T, mpi, lts=True, n=None):
        s.nf, s.T, s.mpi, s.lts = nf, T, mpi, lts
        s.ins = [rnd.randrange(1, 4) for _ in range(T)]; s.ses = [rnd.randrange(1, 3) if mpi else 0 for _ in range(T)]
        if not lts: s.ins, s.ses = [n or 5], [0]
        s.tg = [t for t in range(T) for _ in range(s.ins[t])]+[t for t in range(T) for _ in range(s.ses[t])]; s.n = len(s.tg); s.ni = sum(s.ins)
        s.ad = [[None]*nf for _ in range(s.n)]
        for _ in range(4*s.n):
            x, y = rnd.randrange(s.n), rnd.randrange(s.n); fx = [f for f in range(nf) if s.ad[x][f] is None]; fy = [f for f in range(nf) if s.ad[y][f] is None]
            if x != y and abs(s.tg[x]-s.tg[y]) < 2 and fx and fy and y not in s.ad[x]: s.ad[x][rnd.choice(fx)] = y; s.ad[y][rnd.choice(fy)] = x
        s.db = {}
        if lts: s.db['in'], s.db['se'], s.db['rel'] = s.ins, s.ses, [Q(2)**t for t in range(T)]+[Q(2)**T]
        s.ch = []; s.co = []
        if mpi:
            pairs = {}
            for e in range(s.ni, s.n):
                free = [f for f in range(nf) if s.ad[e][f] is None] or [rnd.randrange(nf)]
                for f in free[:2] if e % 2 else free[-2:]:
                    if s.ad[e][f] is not None: x = s.ad[e][f]; s.ad[x][s.ad[x].index(e)] = None; s.ad[e][f] = None
                    ra = rnd.choice([0, 2]); ta = max(0, min(T-1, s.tg[e]+rnd.choice([-1, 0, 1]))); pairs.setdefault((s.tg[e], ra, ta), []).append((e, f))
            for k in sorted(pairs): s.ch.append((*k, len(pairs[k]))); s.co += pairs[k]
            s.db['cs'] = [len(s.ch)]+[x for ch in s.ch for x in ch]; s.db['sel'] = [e for e, f in s.co]; s.db['sfa'] = [f for e, f in s.co]
            s.db['rel_'] = [rnd.randrange(50) for _ in s.co]; s.db['rfa'] = [rnd.randrange(nf) for _ in s.co]; s.db['sv'] = [rnd.randrange(4) for _ in s.co]; s.db['sf'] = [rnd.randrange(nf) for _ in s.co]
    def tgAd(s, e, f):
        if s.ad[e][f] is not None: return s.tg[s.ad[e][f]]
        k = 0
        for t, r, ta, k_ in s.ch:
            if (e, f) in s.co[k:k+k_]: return ta
            k += k_
        return s.tg[e]
def reader(c, m, w, elty, tabs, more=()):
    """a session of the mesh reader on an annotated mesh; its border: the mesh, the gmsh interface and the HDF5 reader"""
    log = []; db = {DB[k]: (v, *SZ[k]) for k, v in w.db.items()}; db.update(more)
    nm = lambda it, st, p: (I.str_at(it, st, p) or b'?').decode()
    def get(sz, kd):
        def f(it, i, a, st):
            n = nm(it, st, a[1])
            if n not in db: raise I.Bottom('read of a data set which does not exist: '+n)
            v, z, k = db[n]; log.append((n, z, k))
            if (z, k) != (sz, kd): raise I.Bottom(f'{n} is read as {sz*8}-bit {kd}')
            for j, x in enumerate(v): it.store(st, I.Ptr(a[2].o, it.oadd(a[2].off, sz*j)), A.const(x) if kd == 'f' and not isinstance(x, A.T) else x, ty(it, sz, kd))
        return f
    def va(it, i, a, st):
        n = nm(it, st, a[1])
        if n not in db: raise I.Bottom('size of a data set which does not exist: '+n)
        return len(db[n][0])
    ob = lambda n: (lambda it, i, a, st: I.Ptr(it.inputs.get(n) or it.input_obj(n), 0))
    k = lambda v: (lambda it, i, a, st: v)
    def ids(base):
        def f(it, i, a, st):
            if not isinstance(a[1], int): raise I.Bottom('number of faces')
            for j in range(a[1]):
                e = it.load(st, I.Ptr(a[3].o, a[3].off+8*j), ty(it, 8, 'i')); fa = it.load(st, I.Ptr(a[4].o, a[4].off+2*j), ty(it, 2, 'i'))
                if not isinstance(e, int) or not isinstance(fa, int): raise I.Bottom('element or face')
                e += a[2]
                if not (0 <= e < w.n and 0 <= fa < w.nf and w.ad[e][fa] is not None): raise I.Bottom(f'ids of face {fa} of element {e}, which has no neighbor')
                it.store(st, I.Ptr(a[5].o, a[5].off+2*j), base+e*8+fa, ty(it, 2, 'i'))
        return f
    M = '_ZNK6edge_v4mesh4Mesh'; M2 = '_ZN6edge_v4mesh4Mesh'; HD = '_ZNK6edge_v2io4Hdf5'
    def op(tag):
        def f(it, i, a, st): log.append((tag,)+tuple(nm(it, st, x) if tag != 'mesh' else x for x in a[1:2])+tuple(a[2:]))
        return f
    mod = {'_ZN6edge_v2io4GmshC1Ev': k(None), '_ZN6edge_v2io4GmshC2Ev': k(None), f'_ZNK6edge_v2io4Gmsh9setNumberERKN{NAMES}d': k(None), f'_ZNK6edge_v2io4Gmsh4openERKN{NAMES}': op('open'), f'_ZN6edge_v2io4Gmsh4openERKN{NAMES}': op('open'),
        '_ZN6edge_v2io4Gmsh8readMeshEv': lambda it, i, a, st: log.append(('read',)), '_ZN6edge_v4mesh4MeshC1ERKNS_2io4GmshEi': lambda it, i, a, st: log.append(('mesh', a[2])), f'_ZN6edge_v2io4Hdf5C1ERKN{NAMES}b': lambda it, i, a, st: log.append(('hdf5', nm(it, st, a[1]), a[2])),
        f'{HD}6existsERKN{NAMES}': lambda it, i, a, st: A.TRUE if nm(it, st, a[1]) in db else A.FALSE, f'{HD}4nVasERKN{NAMES}': va, f'{HD}3getERKN{NAMES}Pm': get(8, 'i'), f'{HD}3getERKN{NAMES}Pd': get(8, 'f'), f'{HD}3getERKN{NAMES}Pt': get(2, 'i'), f'{HD}3getERKN{NAMES}Pf': get(4, 'f'),
        M+'4nElsEv': k(w.n), M+'4nVesEv': k(7), M+'4nFasEv': k(9), M+'9getTypeElEv': k(elty), M+'10getVeIdsAdEmmPKmPKtPt': ids(1000), M+'10getFaIdsAdEmmPKmPKtPt': ids(3000)}
    for z in ('9getElFaElEv', '11getSpTypeVeEv', '11getSpTypeFaEv', '11getSpTypeElEv', '7getFaVeEv', '7getFaElEv', '7getElVeEv', '7getElFaEv', '9getVeCrdsEv', '11getInDiasElEv'): mod[M+z] = ob(z)
    for z in ('12getNormalsFaEv', '13getTangentsFaEv', '10getAreasFaEv', '12getVolumesElEv'): mod[M2+z] = ob(z)
    s = c.session([m], models=mod)
    for e, row in enumerate(w.ad):
        for f, a in enumerate(row): s.put('9getElFaElEv', 8*(w.nf*e+f), -1 if a is None else a, 8, 'i')
    return s, log
def txt(s, name, b): I.set_str(s.it, s.st, I.Ptr(s.it.inputs.get(name) or s.it.input_obj(name), 0), b.encode())
def alt(s):
    x = copy.copy(s); x.st = s.fork(); x.r = H.Result(x.it, x.st, None); return x
def make(s, ra=1, nr=1, per=5):
    txt(s, 'mp', 'dir/mesh.msh'); txt(s, 'sp', 'dir/mesh_annotated.h5')
    return s.call('ranks', ra, nr) and s.call('mk', 'mp', 'sp', per)
def world(c, m, key, w, elty, tabs):
    s, log = reader(c, m, w, elty, tabs, {'/edge_v/areas': ([A.var('ar%d' % i) for i in range(4)], 4, 'f')})
    nr = 3 if w.mpi else 1; T = w.T
    if not c.holds('annotation', make(s, 1, nr), f'{key}: reader', f'{EV} EdgeV: {getattr(s, "why", "")}'): return
    c.holds('files', ('open', 'dir/mesh.msh') in log and ('read',) in log and ('mesh', 5) in log and any(x[0] == 'hdf5' and x[1] == 'dir/mesh_annotated.h5' and x[2] in (A.TRUE, 1, True) for x in log) and log.index(('open', 'dir/mesh.msh')) < log.index(('read',)) < log.index(('mesh', 5)), f'{key}: files', f'{EV} EdgeV: {log[:5]}')
    def val(fn, *a): return s.ret if s.call(fn, *a) else getattr(s, 'why', '')
    c.holds('annotation', (val('ntg'), val('nin'), val('nse'), val('nco')) == (T, w.ni, w.n-w.ni, len(w.co)), f'{key}: sizes', f'{EV}: groups, inner, send elements, pairs are {(val("ntg"), val("nin"), val("nse"), val("nco"))} instead of {(T, w.ni, w.n-w.ni, len(w.co))}')
    if not c.holds('annotation', s.call('tgs', 'oi', 'os', 'or', 'ol'), f'{key}: groups', f'{EV}: {getattr(s, "why", "")}'): return
    ints = lambda nm, n, wd=8: [s.int(nm, i, 8*wd) for i in range(n)]
    c.holds('annotation', (ints('oi', T), ints('os', T)) == (w.ins, w.ses), f'{key}: group sizes', f'{EV}: {ints("oi", T)}, {ints("os", T)} instead of {w.ins}, {w.ses}')
    for t in range(T+1):
        r = s.get('or', t); want = Q((2-Q(2)**-52)*Q(2)**1023) if T == 1 and t == 1 else Q(2)**t
        c.holds('annotation', A.equal(r, A.const(want)) is None, f'{key}: relative time step {t}', f'{EV}: {r} instead of {want if t < 10 else "the largest number"}')
    la = ints('ol', 2+8*T); want = [w.n, T]; f = 0; g = w.ni
    for t in range(T): want += [f, w.ins[t], 1, g, w.ses[t], 1, 0, w.ins[t]+w.ses[t]]; f += w.ins[t]; g += w.ses[t]
    c.holds('layout', la == want, f'{key}: layout', f'{LC} sizesToLayout, {EV} setElLayout: {la} instead of {want}')
    if w.mpi:
        nc = len(w.db['cs']); k = len(w.co)
        if c.holds('comm', s.call('mpi', nc, 'oc', 'ose', ('osf', 2), 'ore', ('orf', 2)), f'{key}: communication', f'{EV}: {getattr(s, "why", "")}'):
            for x, z, n_, sz in (('oc', 'cs', nc, 8), ('ose', 'sel', k, 8), ('osf', 'sfa', k, 2), ('ore', 'rel_', k, 8), ('orf', 'rfa', k, 2)):
                v = ints(x, n_, sz); c.holds('comm', v == w.db[z], f'{key}: {DB[z]}', f'{EV}: {v} instead of {w.db[z]}')
    # relations of the elements
    S = alt(s); ini = [(1 << 50) | (e & 7) for e in range(w.n)]
    for e, x in enumerate(ini): S.put('oz', 8*e, x, 8, 'i')
    if c.holds('relations', S.call('lts', w.n, 'ch', 'oz'), f'{key}: relations', f'{EV} setLtsTypes: {getattr(S, "why", "")}'):
        for e in range(w.n):
            v = S.int('oz', e); want = ini[e]
            for f in range(w.nf):
                a = w.tgAd(e, f); r = 0 if a == w.tg[e] else 1 if w.tg[e] < a else 2
                want |= tabs[r] | tabs[3+6*r+f]
            c.holds('relations', v == want, f'{key}: relation of element {e}', f'{EV} setLtsTypes: flags {v if not isinstance(v, int) else hex(v)} instead of {hex(want)} for element {e} of group {w.tg[e]} with neighbors in groups {[w.tgAd(e, f) for f in range(w.nf)]}')
    # flags of the mesh
    S = alt(s); zs = tabs[21]; cnt = [7, 9, w.n]; o = [(1 << 45) | (j & 1) for j in range(sum(cnt))]; mesh = [(j*37 % 64) << 1 for j in range(sum(cnt))]
    for j, x in enumerate(o): S.put('oz', 8*j, x, 8, 'i')
    for k, z in enumerate(('11getSpTypeVeEv', '11getSpTypeFaEv', '11getSpTypeElEv')):
        for j in range(cnt[k]): S.put(z, zs*j, mesh[sum(cnt[:k])+j], zs, 'i')
    if c.holds('flags', S.call('spt', 'cv', 'cf', 'ce', *cnt, 'oz'), f'{key}: flags', f'{EV} setSpTypes: {getattr(S, "why", "")}'):
        v = [S.int('oz', j) for j in range(sum(cnt))]
        for j in range(sum(cnt)): c.holds('flags', v[j] == o[j] | mesh[j], f'{key}: flags of entity {j}', f'{EV} setSpTypes: {v[j]} instead of {o[j] | mesh[j]}')
    # ids of the shared vertex and face
    S = alt(s)
    if c.holds('ids', S.call('ids', ('ov', 2), ('of', 2)), f'{key}: ids', f'{EV} setSeVeFaIdsAd: {getattr(S, "why", "")}'):
        for e in range(w.n):
            for f in range(w.nf):
                v = (S.int('ov', w.nf*e+f, 16), S.int('of', w.nf*e+f, 16)); u = lambda x: x & 0xffff if isinstance(x, int) else x
                if (e, f) in w.co: j = w.co.index((e, f)); want = (w.db['sv'][j], w.db['sf'][j])
                elif w.ad[e][f] is not None: want = (1000+8*e+f, 3000+8*e+f)
                else: want = (65535, 65535)
                c.holds('ids', tuple(map(u, v)) == want, f'{key}: element {e} face {f}', f'{EV} setSeVeFaIdsAd: {tuple(map(u, v))} instead of {want}')
    # data sets
    txt(s, 'n1', '/edge_v/areas'); txt(s, 'n2', '/edge_v/nothing')
    c.holds('data', val('nva', 'n1') == 4, f'{key}: size of a data set', f'{EV} nVas: {val("nva", "n1")} instead of 4')
    v = val('nva', 'n2'); c.holds('data', v in (-1, MAX), f'{key}: size of a missing data set', f'{EV} nVas: {v}')
    if c.holds('data', s.call('dat', 'n1', ('od', 4)), f'{key}: values of a data set', f'{EV} getData: {getattr(s, "why", "")}'):
        for j in range(4): c.same('data', f'{key}: value {j}', s.get('od', j, 'f', 32), A.var('ar%d' % j), f'{EV} getData')
    S = alt(s); z = [S.ret if S.call('cnt', k) else None for k in range(3)]
    c.holds('forward', z == cnt, f'{key}: counts', f'{EV}: {z} instead of {cnt}')
    if c.holds('forward', S.call('geo', ('og', 8)), f'{key}: arrays', f'{EV}: {getattr(S, "why", "")}'):
        for j, n in enumerate(('7getFaVeEv', '7getFaElEv', '7getElVeEv', '7getElFaEv', '9getElFaElEv', '9getVeCrdsEv', '12getNormalsFaEv', '13getTangentsFaEv', '10getAreasFaEv', '12getVolumesElEv', '11getInDiasElEv')):
            p = S.it.load(S.st, I.Ptr(S.it.inputs['og'], 8*j), S.it.mkty((8, 0, 'ptr'))); c.holds('forward', isinstance(p, I.Ptr) and p.o is S.it.inputs.get(n) and p.off == 0, f'{key}: {n}', f'src/mesh/EdgeV.h: another array is handed out')
def refuse(c, m, key, w, elty, tabs, edit, ra=1, nr=None, lts=False):
    edit(w); s, log = reader(c, m, w, elty, tabs); ok = make(s, ra, nr or (3 if w.mpi else 1))
    if lts and c.holds('refuse', ok, f'{key}: reader', f'{EV} EdgeV: {getattr(s, "why", "")}'):
        ok = s.call('lts', w.n, 'ch', 'oz')
    c.holds('refuse', not ok and all(b[0].startswith('no return') for b in s.it.bottoms), key, f'{EV}: the input is accepted')
def hdf5(c, m):
    """the HDF5 library as a store of typed arrays; open handles are tracked"""
    MEM = {1001: (2, 'u'), 1002: (8, 'u'), 1003: (4, 'f'), 1004: (8, 'f'), 1021: (8, 's'), 1022: (4, 's'), 1023: (4, 'u'), 1024: (2, 's'), 1025: (8, 'u'), 1026: (8, 's')}
    FIL = {1011: (2, 'u'), 1012: (8, 's'), 1013: (4, 'f'), 1014: (8, 'f'), 1015: (8, 'u'), 1016: (4, 'u'), 1017: (4, 's'), 1018: (2, 's'), 1031: (2, 'u'), 1032: (8, 's'), 1033: (4, 'f'), 1034: (8, 'f'), **MEM}
    db = {}; grp = set(); opn = {}; log = []; nx = [100]
    def new(kind, v): nx[0] += 1; opn[nx[0]] = (kind, v); return nx[0]
    def get(h, kind):
        if not isinstance(h, int) or h not in opn or opn[h][0] not in kind: raise I.Bottom(f'{h} is not an open {kind}')
        return opn[h][1]
    nm = lambda it, st, p: (I.cstr_at(it, st, p) or b'?').decode()
    def fopen(it, i, a, st): log.append(('open', nm(it, st, a[0]), a[1])); return new('file', None)
    def fcreate(it, i, a, st): log.append(('create', nm(it, st, a[0]), a[1])); return new('file', None)
    def close(*kind):
        def f(it, i, a, st): get(a[0], kind); del opn[a[0]]; return 0
        return f
    def dopen(it, i, a, st):
        get(a[0], ('file',)); n = nm(it, st, a[1])
        return new('set', n) if n in db else -1
    def space(it, i, a, st): return new('space', list(db[get(a[0], ('set',))][3]))
    def dims(it, i, a, st):
        d = get(a[0], ('space',))
        for j, x in enumerate(d):
            if not isinstance(a[1], I.Null): it.store(st, I.Ptr(a[1].o, a[1].off+8*j), x, ty(it, 8, 'i'))
        return len(d)
    def npts(it, i, a, st):
        n = 1
        for x in get(a[0], ('space',)): n *= x
        return n
    def simple(it, i, a, st): return new('space', [it.load(st, I.Ptr(a[1].o, a[1].off+8*j), ty(it, 8, 'i')) for j in range(a[0])])
    def dcreate(it, i, a, st):
        get(a[0], ('file',)); n = nm(it, st, a[1]); d = get(a[3], ('space',))
        if a[2] not in FIL: raise I.Bottom('unknown file type')
        db[n] = [FIL[a[2]], None, None, d]; return new('set', n)
    def size(d):
        n = 1
        for x in d: n *= x
        return n
    def wr(it, i, a, st):
        e = db[get(a[0], ('set',))]
        if a[1] not in MEM or a[2] != 0 or a[3] != 0: raise I.Bottom('memory type or space')
        z, k = MEM[a[1]]; e[1] = [it.load(st, I.Ptr(a[5].o, it.oadd(a[5].off, z*j)), ty(it, z, 'f' if k == 'f' else 'i')) for j in range(size(e[3]))]; e[2] = (z, k); return 0
    def rd(it, i, a, st):
        e = db[get(a[0], ('set',))]
        if a[1] not in MEM or a[2] != 0 or a[3] != 0: raise I.Bottom('memory type or space')
        z, k = MEM[a[1]]
        if e[1] is None or (k == 'f') != (e[0][1] == 'f') or z < e[0][0]: raise I.Bottom('values are read in a type that does not hold them')
        for j, x in enumerate(e[1]): it.store(st, I.Ptr(a[5].o, it.oadd(a[5].off, z*j)), x, ty(it, z, 'f' if k == 'f' else 'i'))
        return 0
    def gcreate(it, i, a, st): get(a[0], ('file',)); n = nm(it, st, a[1]); grp.add(n); log.append(('group', n)); return new('group', n)
    def remove(it, i, a, st): log.append(('remove', nm(it, st, a[0]))); return 0
    def lex(it, i, a, st): get(a[0], ('file',)); n = nm(it, st, a[1]); return 1 if n in db or n in grp else 0
    z = lambda it, i, a, st: 0
    mod = {'H5open': z, 'H5Eset_auto2': z, 'H5Fopen': fopen, 'H5Fcreate': fcreate, 'H5Fclose': close('file'), 'H5Dopen2': dopen, 'H5Dget_space': space, 'H5Sget_simple_extent_dims': dims, 'H5Sget_simple_extent_npoints': npts, 'H5Dclose': close('set'), 'H5Sclose': close('space'), 'H5Gclose': close('group'), 'H5Screate_simple': simple, 'H5Dcreate2': dcreate, 'H5Dwrite': wr, 'H5Dread': rd, 'H5Gcreate2': gcreate, 'H5Lexists': lex, 'remove': remove}
    s = c.session([m], models=mod); txt(s, 'pa', 'some/path.h5'); txt(s, 'gn', '/edge_v')
    for k, x in enumerate(('u16', 'u64', 'f32', 'f64', 'nn')): txt(s, x, '/edge_v/'+x)
    if not c.holds('store', s.call('mk', 'pa', 0) and s.call('gr', 'gn'), 'create', f'{HC}: {getattr(s, "why", "")}'): return
    c.holds('store', ('create', 'some/path.h5', 2) in log and not any(x[0] == 'open' for x in log) and ('group', '/edge_v') in log, 'new file', f'{HC} Hdf5: {log}')
    V = {}
    for x, sz, kd, put, n in (('u16', 2, 'i', 's16', 3), ('u64', 8, 'i', 's64', 5), ('f32', 4, 'f', 'sf', 4), ('f64', 8, 'f', 'sd', 2)):
        V[x] = [A.var(f'{x}_{j}') if kd == 'f' else (65535, 0, 7, 12345678901, 1)[j] for j in range(n)]
        for j, v in enumerate(V[x]): s.put('v'+x, sz*j, v, sz, kd)
        if not c.holds('store', s.call(put, x, n, ('v'+x, sz)), f'{x}: write', f'{HC} set: {getattr(s, "why", "")}'): return
        e = db.get('/edge_v/'+x)
        if not c.holds('store', e is not None and e[1] is not None, f'{x}: written', f'{HC} set: nothing is written'): return
        f, mt = e[0], e[2]; c.holds('store', (f[1] == 'f') == (mt[1] == 'f') and f[0] >= sz and mt[0] == sz and (f[1] != 's' or f[0] > 2), f'{x}: type', f'{HC} set: values of {sz*8} bits are stored as {f}')
        c.holds('store', e[3] == [n], f'{x}: size', f'{HC} set: size {e[3]} instead of {n}')
    def shut(w): c.holds('handles', all(k[0] in ('file', 'group') for k in opn.values()) and sum(k[0] == 'file' for k in opn.values()) == 1, f'open handles: {w}', f'{HC}: {opn}')
    shut('write')
    if not c.holds('handles', s.call('de'), 'close', f'{HC} ~Hdf5: {getattr(s, "why", "")}'): return
    c.holds('handles', not any(k[0] == 'file' for k in opn.values()), 'file closed', f'{HC} ~Hdf5: {opn}')
    log.clear()
    if not c.holds('store', s.call('mk', 'pa', 2), 'open', f'{HC}: {getattr(s, "why", "")}'): return
    c.holds('store', log == [('open', 'some/path.h5', 0)], 'read only', f'{HC} Hdf5: {log}')
    db['/edge_v/multi'] = [(4, 'f'), [A.var(f'mu{j}') for j in range(24)], (4, 'f'), [4, 3, 2]]; db['/edge_v/mult2'] = [(4, 'f'), [A.var(f'mv{j}') for j in range(10)], (4, 'f'), [5, 2]]
    for x, n in (('multi', 24), ('mult2', 10)): txt(s, x, '/edge_v/'+x); V[x] = db['/edge_v/'+x][1]
    for x, sz, kd, g in (('u16', 2, 'i', 'g16'), ('u64', 8, 'i', 'g64'), ('f32', 4, 'f', 'gf'), ('f64', 8, 'f', 'gd'), ('multi', 4, 'f', 'gf'), ('mult2', 4, 'f', 'gf')):
        n = len(V[x]); ok = s.call('nv', x); c.holds('store', ok and s.ret == n, f'{x}: number of values', f'{HC} nVas: {getattr(s, "ret", None)} instead of {n}')
        ok = s.call('ex', x); c.holds('store', ok and s.ret == 1, f'{x}: exists', f'{HC} exists: {getattr(s, "ret", None)}')
        if not c.holds('store', s.call(g, x, ('r'+x, sz)), f'{x}: read', f'{HC} get: {getattr(s, "why", "")}'): continue
        for j in range(n):
            if kd == 'f': c.same('store', f'{x}: value {j}', s.get('r'+x, j, 'f', 8*sz), V[x][j], f'{HC} get')
            else: v = s.int('r'+x, j, 8*sz); v = v & ((1 << 8*sz)-1) if isinstance(v, int) else v; c.holds('store', v == V[x][j], f'{x}: value {j}', f'{HC} get: {v} instead of {V[x][j]}')
    shut('read'); ok = s.call('ex', 'nn'); c.holds('store', ok and s.ret == 0, 'missing data set', f'{HC} exists: {getattr(s, "ret", None)}')
    c.holds('refuse', not alt(s).call('gf', 'nn', ('rnn', 4)) , 'read of a missing data set', f'{HC} get: no complaint')
def body(c):
    d = B.scratch()+'/inc'; os.makedirs(d, exist_ok=True)
    if not os.path.exists(d+'/edge_v'): os.symlink(B.REPO+'/tools/edge_v/src', d+'/edge_v')
    fl = B.edge_flags('elastic', 'TET4', 2, 32, 1, extra=['-fno-inline', '-I'+d]); hf = B.v_flags()
    c.prefetch([(None, fl, TXT), (None, hf, HTXT)])
    c.rule('annotation', 'time groups, their sizes and relative time steps are those of the annotation; an unannotated mesh is one group')
    c.rule('files', 'mesh and supplement are read from the given paths, with the requested periodicity'); c.rule('layout', 'the layout orders inner elements by group, then send elements by group')
    c.rule('comm', 'channels and send and receive faces are those of the annotation'); c.rule('relations', 'an element carries, for each face, exactly the relation of its group to that of the neighbor, also across ranks')
    c.rule('flags', 'flags of the mesh are added to those already set'); c.rule('ids', 'vertex and face ids of shared faces are those of the neighbor, also across ranks'); c.rule('data', 'data sets of the supplement are handed out'); c.rule('forward', 'the arrays of the mesh are handed out')
    c.rule('tables', 'the flags of the relations are distinct bits'); c.rule('refuse', 'inconsistent input is refused'); c.rule('store', 'what is written to a file is what is read from it'); c.rule('handles', 'every data set, space and file which is opened is closed once')
    m = c.driver(TXT, fl, 'mesh reader'); it = I.Interp([m]); o = it.glob_obj(m.globs['tabs']); t = it.mkty((8, 0, 'i')); st = I.State()
    tabs = [it.load(st, I.Ptr(o, 8*k), t) for k in range(22)]
    c.holds('tables', all(isinstance(x, int) and x > 0 and x & (x-1) == 0 for x in tabs[:21]) and len(set(tabs[:21])) == 21, 'distinct bits', f'src/dg/const_ader.inc: {[hex(x) for x in tabs]}')
    rnd = random.Random(c.seed); n = 3 if c.tier == 'quick' else 8
    EL = {'TET4': (5, 4), 'TRIA3': (3, 3), 'HEX8R': (4, 6), 'QUAD4R': (2, 4), 'LINE': (1, 2)}
    for z, (e, nf) in EL.items():
        world(c, m, f'{z} unannotated', World(rnd, nf, 1, False, False), e, tabs)
        for k in range(n):
            world(c, m, f'{z} groups {k}', World(rnd, nf, (3, 1, 2, 5)[k % 4], False), e, tabs)
            world(c, m, f'{z} ranks {k}', World(rnd, nf, (2, 1, 3, 4)[k % 4], True), e, tabs)
    W_ = lambda **k: World(random.Random(3), 4, 3, True, **k)
    def drop(x):
        def f(w): del w.db[x]
        return f
    def put(x, k, v):
        def f(w): w.db[x] = list(w.db[x]); w.db[x][k] = v
        return f
    def cut(x):
        def f(w): w.db[x] = w.db[x][:-1]
        return f
    world(c, m, 'base', W_(), 5, tabs)
    for x in ('in', 'se', 'rel', 'cs', 'sel', 'sfa', 'rel_', 'rfa', 'sv', 'sf'): refuse(c, m, f'without {DB[x]}', W_(), 5, tabs, drop(x))
    for x in ('cs', 'sel', 'sfa', 'rel_', 'rfa', 'sv', 'sf'): refuse(c, m, f'{DB[x]} is short', W_(), 5, tabs, cut(x))
    for k in (1, 2): refuse(c, m, f'rate {k}', W_(), 5, tabs, put('rel', k, Q(3)))
    refuse(c, m, 'own rank', W_(), 5, tabs, put('cs', 2, 1)); refuse(c, m, 'rank too large', W_(), 5, tabs, put('cs', 6, 3)); refuse(c, m, 'no channel', W_(), 5, tabs, lambda w: w.db.update(cs=[0]))
    refuse(c, m, 'ranks without need', W_(), 5, tabs, lambda w: None, 0, 1)
    def far(up):
        def f(w):
            a, b = (0, w.ni-1) if up else (w.ni-1, 0)
            w.ad[a][0] = b
        return f
    for up in (0, 1): refuse(c, m, f'groups two apart {up}', World(random.Random(3), 4, 3, False), 5, tabs, far(up), lts=True)
    def more(w): w.ad[0][0] = w.n
    refuse(c, m, 'element outside of all groups', World(random.Random(3), 4, 3, False), 5, tabs, more, lts=True)
    hdf5(c, c.driver(HTXT, hf, 'HDF5 interface'))
    return c.finish('the mesh reader is interpreted on annotated meshes with the mesh, gmsh and HDF5 interfaces as border; the HDF5 interface itself is interpreted above a typed store with tracked handles', ['meshes, groups and communication are enumerated (all element types, with and without groups and ranks)'], 500)
if __name__ == '__main__': H.main('C24', body)
