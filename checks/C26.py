import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
from checks.C04 import N, n, Doc
from checks.C25 import Expr, heap, txt
import random, copy
from fractions import Fraction as Q
TXT = r'''
#include <cstddef>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <limits>
#include <algorithm>
#include <iostream>
#include <fstream>
#include <sstream>
#include <new>
using std::isnan;
#include <pugixml.hpp>
#include "submodules/exprtk/exprtk.hpp"
#include "io/logging.h"
#pragma clang attribute push (__attribute__((noinline)), apply_to = function)
#include "constants.h"
#include "io/Gmsh.h"
#include "io/Hdf5.h"
#include "io/Csv.h"
#include "io/BgMeshMsh4.h"
#include "mesh/Mesh.h"
#include "mesh/Refinement.h"
#include "mesh/Partition.h"
#include "mesh/Communication.h"
#include "time/Cfl.h"
#include "time/Groups.h"
#pragma clang attribute pop
#include "io/Config.cpp"
#include "io/ExprTk.cpp"
#include "io/Grid.cpp"
#include "models/Constant.cpp"
#include "models/Model.cpp"
#include "models/GridExpression.cpp"
#include "models/seismic/Expression.cpp"
#ifdef PP_HAS_UCVM
#include "models/seismic/Rule.cpp"
#include "models/seismic/Ucvm.cpp"
#include "io/Ucvm.cpp"
extern "C" int ucvm_init_flag = 0;
#endif
extern "C" { void vp_cfl( void*, int, unsigned long, unsigned long, void const*, void const*, void const*, int ); void vp_spd( void*, unsigned long, double, double ); double *vp_ts( void* ); void vp_ref( void*, unsigned long, unsigned long, int, void const*, void const*, void const*, unsigned long ); void vp_rsp( void*, unsigned long, double ); }
namespace edge_v { namespace time {
  Cfl::Cfl( t_entityType const ty, t_idx nv, t_idx ne, t_idx const *ev, double const (*cr)[3], double const *in, bool el, models::Model &m ) {
    vp_cfl( this, ty, nv, ne, ev, cr, in, el ); t_idx n = el? ne: nv; for( t_idx i = 0; i < n; i++ ) vp_spd( this, i, m.getMinSpeed( i ), m.getMaxSpeed( i ) ); }
} }
namespace edge_v { namespace mesh {
  void Refinement::init( t_idx nv, t_idx ne, unsigned short k, t_idx const *ev, double const (*cr)[3], std::string const &e, models::Model const &m ) { vp_ref( this, nv, ne, k, ev, cr, e.c_str(), e.size() ); for( t_idx i = 0; i < nv; i++ ) vp_rsp( this, i, m.getMinSpeed( i ) ); }
  Refinement::~Refinement() {}
} }
#ifndef START_EASYLOGGINGPP
#define START_EASYLOGGINGPP(...)
#endif
#ifndef INITIALIZE_EASYLOGGINGPP
#define INITIALIZE_EASYLOGGINGPP
#endif
#define main vmain
#include "main.cpp"
#undef main
extern "C" { int vp_main( int n, char **a ) { return vmain( n, a ); } unsigned long tys[] = { edge_v::TRIA3, edge_v::TET4 }; }
'''
MN = 'tools/edge_v/src/main.cpp'
S_ = 'NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'
NV, NE = 5, 7
def ty(it, sz, kd):
    t = it.mkty((sz, 0, kd))
    if kd == 'f': t.w = 8*sz
    return t
class World:
    """what EDGE-V is run on (document, mesh before and after the reordering, grids) and what it does with it"""
    def __init__(s, c, m, key, rnd, **o):
        s.c, s.m, s.key, s.rnd = c, m, key, rnd
        d = dict(model='const', cen=0, npart=1, groups=1, an=0, dt=Q(3, 4), ts='', ref='', refout='', base='out/mesh', ext='.msh', per=None, ro=0, disp=0, dry=Q(-20), tet=False, args=('edge_v', '-x', 'conf.xml'), uc=False); d.update(o)
        for k, v in d.items(): setattr(s, k, v)
        s.log = []; s.obj = {}; s.files = {}; s.h5 = {}; s.cnt = 0; s.X = [Q(k) for k in range(-3, 6)]; s.Y = [Q(k, 2) for k in range(-6, 9, 2)]
        s.nv = 4 if s.tet else 3
        s.sz = [k for k in (2, 4, 1)] if s.npart == 3 else [NE-3, 3] if s.npart == 2 else [NE]
        pt = lambda: [Q(rnd.randint(-11, 19), 4), Q(rnd.randint(-11, 14), 4), Q(rnd.randint(-9, 9), 2)]
        s.ms = [dict(ev=sum((rnd.sample(range(NV), s.nv) for _ in range(NE)), []), ve=[pt() for _ in range(NV)], ce=[pt() for _ in range(NE)]) for _ in range(2)]
        s.gv = {}
        for g in ('bath.h5', 'd0.h5', 'd1.h5'):
            s.gv[g] = [rnd.choice([Q(-rnd.randint(22, 99)), Q(-rnd.randint(1, 19)), Q(rnd.randint(21, 90))]) if g == 'bath.h5' else Q(rnd.randint(-40, 40), 4) for _ in range(len(s.X)*len(s.Y))]
    def at(s, g, p):
        i, j = next(q for q in range(len(s.X)) if s.X[q] >= p[0]), next(q for q in range(len(s.Y)) if s.Y[q] >= p[1]); return s.gv[g][j*len(s.X)+i]
    def doc(s):
        u = n('ucvm', n('source_transformation', *[n(f'{"xyz"[a]}_{a}', '1') for a in range(3)]), n('projections', n('source', 'src'), n('destination', 'des')), n('models', 'cvms'), n('model_type', 'crust'), n('coordinate_mode', 'UCVM_COORD_GEO_ELEV')) if s.model == 'ucvm' else None
        t = n('tsunami', n('dry_tolerance', str(s.dry)), n('bathymetry', 'bath.h5') if s.model == 'tsunami' else None, *[n('displacements', f'd{k}.h5') for k in range(s.disp)], n('expression', 'texp'))
        return n('', n('edge_v', n('mesh', n('files', n('in', 'in.msh'), n('out', n('base', s.base), n('extension', s.ext)) if s.base else None), n('write_element_annotations', str(s.an)), n('periodic', str(s.per)) if s.per else None, n('reorder_only', str(s.ro)), n('n_partitions', str(s.npart))),
            n('velocity_model', n('seismic_expression', 'sexp') if s.model == 'seismic' else None, u, t), n('refinement', n('expression', s.ref), n('out', s.refout)), n('time', n('n_groups', str(s.groups)), n('fundamental_time_step', str(float(s.dt))), n('centroid_based_cfl', str(s.cen)), n('files', n('out', n('time_steps', s.ts))))))
    def new(s, kind, p, **f): s.cnt += 1; x = dict(kind=kind, alive=True, id=s.cnt, **f); s.obj[(p.o, p.off)] = x; return x
    def of(s, p, kind):
        x = s.obj.get((p.o, p.off)) if isinstance(p, I.Ptr) else None
        if x is None or x['kind'] != kind: raise I.Bottom(f'an object is used as {kind}')
        if not x['alive']: raise I.Bottom(f'a destroyed object ({kind}) is used')
        return x
    def tag(s, it, nm, vals=None, sz=8, kd='i', st=None):
        new = nm not in it.inputs; o = it.inputs.get(nm) or it.input_obj(nm)
        if new and vals is not None:
            for k, v in enumerate(vals): it.store(st, I.Ptr(o, sz*k), A.const(v) if kd == 'f' and not isinstance(v, A.T) else v, ty(it, sz, kd))
        return I.Ptr(o, 0)
    def nm(s, it, st, p):
        x = I.str_at(it, st, p)
        if x is None: raise I.Bottom('an unknown text is used')
        return x.decode()
    def who(s, p):
        return (getattr(p.o, 'name', '?') if p.off == 0 else f'{getattr(p.o, "name", "?")}+{p.off}') if isinstance(p, I.Ptr) else p
    def run(s):
        mod = {}; L = s.log; P = lambda x: isinstance(x, I.Ptr)
        def dtor(kind, note=None):
            def f(it, i, a, st):
                x = s.of(a[0], kind); x['alive'] = False
                if note: L.append((note, x.get('path')))
            return f
        def g(kind, f): return lambda it, i, a, st: f(s.of(a[0], kind), it, a, st)
        # gmsh
        G = '_ZN6edge_v2io4Gmsh'; GK = '_ZNK6edge_v2io4Gmsh'
        def both(nm, f): mod['_ZN6edge_v'+nm] = f; mod['_ZNK6edge_v'+nm] = f
        def ctor(cls, sig, f):
            for k in '12': mod[f'_ZN6edge_v{cls}C{k}E{sig}'] = f
        def dt(cls, f):
            for k in '12': mod[f'_ZN6edge_v{cls}D{k}Ev'] = f
        ctor('2io4Gmsh', 'v', lambda it, i, a, st: L.append(('gmsh',)) or (s.new('gmsh', a[0]) and None)); dt('2io4Gmsh', dtor('gmsh'))
        both(f'2io4Gmsh9setNumberERK{S_}d', lambda it, i, a, st: L.append(('set', s.nm(it, st, a[1]), A.cval(A.lift(a[2])))))
        both(f'2io4Gmsh4openERK{S_}', lambda it, i, a, st: L.append(('open', s.nm(it, st, a[1]))))
        both('2io4Gmsh8readMeshEv', lambda it, i, a, st: L.append(('read',)))
        both(f'2io4Gmsh5writeERK{S_}', lambda it, i, a, st: L.append(('write', s.nm(it, st, a[1]))))
        both('2io4Gmsh7reorderEPKm', lambda it, i, a, st: L.append(('reorder', s.who(a[1]))))
        both('2io4Gmsh9partitionEmPKm', lambda it, i, a, st: L.append(('partition', a[1], [it.load(st, I.Ptr(a[2].o, a[2].off+8*k), ty(it, 8, 'i')) for k in range(a[1])])))
        def elda(sz, kd):
            def f(it, i, a, st):
                p = a[2]; v = None
                if p.o.meta.get('heap'): v = [it.load(st, I.Ptr(p.o, p.off+sz*k), ty(it, sz, kd)) for k in range(NE)]
                L.append(('data', s.nm(it, st, a[1]), s.who(p) if v is None else v, s.nm(it, st, a[3])))
            return f
        for t, sz, kd in (('d', 8, 'f'), ('f', 4, 'f'), ('m', 8, 'i'), ('t', 2, 'i')): both(f'2io4Gmsh11writeElDataI{t}EEvRK{S_}PKT_SA_', elda(sz, kd))
        # mesh
        def mesh(it, i, a, st):
            k = sum(1 for x in L if x[0] == 'mesh')
            if k > 1: raise I.Bottom('a third mesh')
            s.of(a[1], 'gmsh'); s.new('mesh', a[0], k=k); L.append(('mesh', k, a[2]))
        ctor('4mesh4Mesh', 'RKNS_2io4GmshEi', mesh); dt('4mesh4Mesh', dtor('mesh'))
        M = '4mesh4Mesh'; q = lambda nm, f: both(M+nm, g('mesh', f))
        q('10printStatsEv', lambda x, *r: None); q('4nVesEv', lambda x, *r: NV); q('4nElsEv', lambda x, *r: NE); q('6nElVesEv', lambda x, *r: s.nv); q('9getTypeElEv', lambda x, *r: s.elty)
        q('7getElVeEv', lambda x, it, a, st: s.tag(it, f'm{x["k"]}.ev')); q('9getVeCrdsEv', lambda x, it, a, st: s.tag(it, f'm{x["k"]}.ve')); q('14getCentroidsElEv', lambda x, it, a, st: s.tag(it, f'm{x["k"]}.ce'))
        for nm_, z in (('9getElFaElEv', 'ad'), ('11getInDiasElEv', 'in'), ('7getFaVeEv', 'fv'), ('7getFaElEv', 'fe'), ('7getElFaEv', 'ef')): q(nm_, lambda x, it, a, st, z=z: s.tag(it, f'm{x["k"]}.{z}'))
        def ids(base):
            def f(x, it, a, st):
                if not isinstance(a[1], int): raise I.Bottom('number of faces')
                L.append(('ids', base, x['k'], a[1], a[2], s.who(a[3]), s.who(a[4])))
                for k in range(a[1]): it.store(st, I.Ptr(a[5].o, a[5].off+2*k), base+a[2]*20+k, ty(it, 2, 'i'))
            return f
        q('10getFaIdsAdEmmPKmPKtPt', ids(1000)); q('10getVeIdsAdEmmPKmPKtPt', ids(5000))
        # time steps and groups
        def cfl(it, i, a, st): s.new('cfl', a[0], sp={}); L.append(('cfl', a[1:4], [s.who(x) for x in a[4:7]], int(A.cval(A.lift(a[7]))), s.obj[(a[0].o, a[0].off)]))
        mod['vp_cfl'] = cfl; mod['vp_spd'] = lambda it, i, a, st: s.of(a[0], 'cfl')['sp'].__setitem__(a[1], (A.lift(a[2]), A.lift(a[3])))
        dt('4time3Cfl', dtor('cfl')); both('4time3Cfl10printStatsEv', g('cfl', lambda x, *r: None)); both('4time3Cfl12getTimeStepsEv', g('cfl', lambda x, it, a, st: s.tag(it, f'cfl{x["id"]}')))
        def groups(it, i, a, st):
            x = s.new('groups', a[0], dt=A.cval(A.lift(a[6])), n=a[4], rates=[A.cval(A.lift(it.load(st, I.Ptr(a[5].o, a[5].off+8*k), ty(it, 8, 'f')))) for k in range(a[4])]); L.append(('groups', a[1:3], s.who(a[3]), s.who(a[7]), x))
        ctor('4time6Groups', 'NS_12t_entityTypeEmPKmtPKddS6_', groups); dt('4time6Groups', dtor('groups')); both('4time6Groups10printStatsEv', g('groups', lambda x, *r: L.append(('stats', x)) and None)); both('4time6Groups10getSpeedUpEv', g('groups', lambda x, *r: A.const(s.speed(x['dt']))))
        both('4time6Groups14getTsIntervalsEv', g('groups', lambda x, it, a, st: s.tag(it, f'iv{x["id"]}'))); both('4time6Groups7getElTgEv', g('groups', lambda x, it, a, st: s.tag(it, f'tg{x["id"]}'))); both('4time6Groups7nGroupsEv', g('groups', lambda x, *r: x['n']+1))
        # partition
        def part(it, i, a, st): x = s.of(a[1], 'mesh'); s.new('part', a[0], n=1, mesh=x['k']); L.append(('part', x['k'], s.who(a[2])))
        ctor('4mesh9Partition', 'RKNS0_4MeshEPKt', part); dt('4mesh9Partition', dtor('part'))
        def kway(x, it, a, st):
            if x['n'] != 1: raise I.Bottom('partitioned twice')
            x['n'] = a[1]; L.append(('kway', a[1]))
        both('4mesh9Partition4kWayEmt', g('part', kway)); both('4mesh9Partition4nPasEv', g('part', lambda x, *r: x['n']))
        both('4mesh9Partition6nPaElsEv', g('part', lambda x, it, a, st: s.tag(it, f'sz{x["id"]}.{x["n"]}', s.sz if x['n'] > 1 else [NE], st=st))); both('4mesh9Partition7getElPaEv', g('part', lambda x, it, a, st: s.tag(it, f'pa{x["n"]}'))); both('4mesh9Partition7getElPrEv', g('part', lambda x, it, a, st: s.tag(it, f'pr{x["n"]}')))
        # communication
        def comm(it, i, a, st): s.new('comm', a[0], np=a[5]); L.append(('comm', a[1:4], s.who(a[4]), a[5], s.who(a[6]), s.who(a[7])))
        ctor('4mesh13Communication', 'tNS_12t_entityTypeEmPKmmS4_PKt', comm); dt('4mesh13Communication', dtor('comm'))
        def cg(nm_, z, f=None):
            def h(x, it, a, st):
                if not isinstance(a[1], int) or not a[1] < x['np']: raise I.Bottom('a partition which does not exist')
                return f(a[1]) if f else s.tag(it, f'{z}{a[1]}', [s.nch(a[1])]+[0]*4*s.nch(a[1]) if z == 'cs' else None, st=st)
            both('4mesh13Communication'+nm_, g('comm', h))
        cg('11nGroupElsInEm', 'gi'); cg('11nGroupElsSeEm', 'gs'); cg('5nSeReEm', '', lambda k: s.nsr(k)); cg('9getRecvElEm', 're'); cg('9getRecvFaEm', 'rf'); cg('9getSendElEm', 'se'); cg('9getSendFaEm', 'sf'); cg('9getStructEm', 'cs')
        # refinement
        def ref(it, i, a, st): L.append(('ref', a[1:4], s.who(a[4]), s.who(a[5]), (I.bytes_at(it, st, a[6], a[7]) or b'').decode(), {}))
        mod['vp_ref'] = ref; mod['vp_rsp'] = lambda it, i, a, st: next(x for x in reversed(L) if x[0] == 'ref')[5].__setitem__(a[1], A.lift(a[2]))
        both('4mesh10Refinement18getTargetLengthsVeEv', lambda it, i, a, st: s.tag(it, 'refv')); both('4mesh10Refinement18getTargetLengthsElEv', lambda it, i, a, st: s.tag(it, 'refe'))
        st_ = {}
        def ofs(it, i, a, st): st_[(a[0].o, a[0].off)] = s.nm(it, st, a[1]); L.append(('stream', s.nm(it, st, a[1])))
        mod[f'_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1ERK{S_[0:]}St13_Ios_Openmode'] = ofs
        mod['_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1ERKNSt7__cxx1112basic_stringIcS1_SaIcEEESt13_Ios_Openmode'] = ofs
        mod['_ZNSt14basic_ofstreamIcSt11char_traitsIcEEC1EPKcSt13_Ios_Openmode'] = lambda it, i, a, st: st_.__setitem__((a[0].o, a[0].off), (I.cstr_at(it, st, a[1]) or b'?').decode()) or L.append(('stream', st_[(a[0].o, a[0].off)]))
        mod['_ZNSt13basic_filebufIcSt11char_traitsIcEE5closeEv'] = lambda it, i, a, st: a[0]
        for z in ('_ZNSt12__basic_fileIcED1Ev', '_ZNSt6localeD1Ev', '_ZNSt8ios_baseD2Ev', '_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate', '_ZNSt14basic_ofstreamIcSt11char_traitsIcEED1Ev'): mod[z] = lambda it, i, a, st: None
        mod['_ZN6edge_v2io10BgMeshMsh45writeENS_12t_entityTypeEmmPKmPA3_KdPKfRSo'] = lambda it, i, a, st: L.append(('bg', a[0:3], [s.who(x) for x in a[3:6]], st_.get((a[6].o, a[6].off))))
        def csv(it, i, a, st):
            d = [s.who(it.load(st, I.Ptr(a[5].o, a[5].off+8*k), ty(it, 8, 'ptr'))) for k in range(a[1])]; L.append(('csv', s.nm(it, st, a[0]), a[1], a[2], [s.nm(it, st, I.Ptr(a[3].o, a[3].off+32*k)) for k in range(a[1])], d))
        mod[f'_ZN6edge_v2io3Csv5writeERK{S_}tmPS8_tPKPKd'] = csv
        # hdf5
        def hd(it, i, a, st):
            p = s.nm(it, st, a[1]); ro = a[2] in (1, True) or a[2] is A.TRUE; s.new('hdf5', a[0], path=p, ro=ro); L.append(('hopen', p, ro))
            if not ro:
                if p in s.h5: raise I.Bottom(f'{p} is written twice')
                s.h5[p] = {}
            elif p not in s.gv: raise I.Bottom(f'{p} is read')
        ctor('2io4Hdf5', f'RK{S_}b', hd); dt('2io4Hdf5', dtor('hdf5', 'hclose'))
        both(f'2io4Hdf511createGroupERK{S_}', g('hdf5', lambda x, it, a, st: s.h5[x['path']].__setitem__(s.nm(it, st, a[1]), ('group',))))
        def rd(x, k): return {'/x': s.X, '/y': s.Y, '/z': s.gv[x['path']]}[k]
        both(f'2io4Hdf54nVasERK{S_}', g('hdf5', lambda x, it, a, st: len(rd(x, s.nm(it, st, a[1])))))
        def hset(sz, kd):
            def f(x, it, a, st):
                k = s.nm(it, st, a[1]); f_ = s.h5[x['path']]
                if '/'+k.strip('/').split('/')[0] not in f_: raise I.Bottom(f'{k} is written to a group which does not exist')
                if k in f_: raise I.Bottom(f'{k} is written twice')
                v = [it.load(st, I.Ptr(a[3].o, a[3].off+sz*j), ty(it, sz, kd)) for j in range(a[2])] if a[3].o.meta.get('heap') else s.who(a[3]); f_[k] = (a[2], v)
            return f
        def hget(sz):
            def f(x, it, a, st):
                for j, v in enumerate(rd(x, s.nm(it, st, a[1]))): it.store(st, I.Ptr(a[2].o, a[2].off+sz*j), A.const(v), ty(it, sz, 'f'))
            return f
        for t, sz, kd in (('d', 8, 'f'), ('f', 4, 'f'), ('m', 8, 'i'), ('t', 2, 'i')): both(f'2io4Hdf53setERK{S_}mPK{t}', g('hdf5', hset(sz, kd)))
        both(f'2io4Hdf53getERK{S_}Pd', g('hdf5', hget(8))); both(f'2io4Hdf53getERK{S_}Pf', g('hdf5', hget(4)))
        # ucvm: as the interface of the reader
        def gv(it, i, a, st):
            for k in range(a[1]):
                x = [A.lift(it.load(st, I.Ptr(a[6].o, a[6].off+24*k+8*d), ty(it, 8, 'f'))) for d in range(3)]
                for j, w in enumerate(('vp', 'vs', 'rho')): it.store(st, I.Ptr(a[7+j].o, a[7+j].off+4*k), A.fn(w, *x), ty(it, 4, 'f'))
        mod[f'_ZN6edge_v2io4Ucvm7getVelsEmPA3_KdRK{S_}SC_SC_S4_PfSD_SD_'] = gv
        for z in ('ucvm_init', 'ucvm_add_model_list', 'ucvm_setparam'): mod[z] = lambda it, i, a, st: 0
        s.doc_ = Doc(s.doc()); E = Expr({'sexp': lambda x: {'vp': A.fn('svp', x['x'], x['y'], x['z']), 'vs': A.fn('svs', x['x'], x['y'], x['z'])}, 'texp': lambda x: {'max_speed': A.fn('tmx', x['x'], x['y'], x['data']), 'min_speed': A.fn('tmn', x['y'], x['z'], x['data'])}})
        s.freed = {}; mod.update(s.doc_.models()); mod.update(E.models()); mod.update(heap(s.freed)); ses = c_ = s.c.session([s.m], models=mod); s.s = ses; it, st = ses.it, ses.st
        o = it.glob_obj(s.m.globs['tys']); v = it.load(st, I.Ptr(o, 8*int(s.tet)), ty(it, 8, 'i')); s.elty = int(v.a[0]) if isinstance(v, A.T) else v
        for k, me in enumerate(s.ms):
            s.tag(it, f'm{k}.ev', me['ev'], 8, 'i', st); s.tag(it, f'm{k}.ve', sum(me['ve'], []), 8, 'f', st); s.tag(it, f'm{k}.ce', sum(me['ce'], []), 8, 'f', st)
        for k, x in enumerate(s.args):
            b = it.input_obj(f'arg{k}')
            for j, ch in enumerate(x.encode()+b'\0'): it.store(st, I.Ptr(b, j), ch, ty(it, 1, 'i'))
            ses.put('argv', 8*k, I.Ptr(b, 0), 8, 'ptr')
        ok = ses.call('vp_main', len(s.args), 'argv'); s.ret = ses.ret; return ok
    def speed(s, dt): return 5-abs(dt-Q(s.best))*3 if s.best else Q(1)
    best = None
    def nch(s, k): return 2+k
    def nsr(s, k): return 3+2*k
    def sp(s, k, el, i):
        """speeds of the model at a point of a mesh"""
        p = s.ms[k]['ce' if el else 've'][i]; x = [A.const(v) for v in p]
        if s.model == 'const': return A.ONE, A.ONE
        if s.model == 'seismic': return A.fn('svs', *x), A.fn('svp', *x)
        if s.model == 'ucvm': return A.abs_(A.fn('vs', *x)), A.abs_(A.fn('vp', *x))
        d = A.const(s.at('bath.h5', p)); return A.fn('tmn', x[1], x[2], d), A.fn('tmx', x[0], x[1], d)
    def check(s):
        c, key, L = s.c, s.key, s.log; h = lambda rule, cond, k, t: c.holds(rule, cond, f'{key}: {k}', f'{MN} main: {t}')
        if not h('order', s.run(), 'run', getattr(s.s, 'why', '')): return
        h('order', s.ret == 0, 'exit', f'returns {s.ret}')
        idx = lambda *t: [k for k, x in enumerate(L) if x[:len(t)] == t]
        one = lambda *t: (idx(*t) or [None])[0] if len(idx(*t)) == 1 else None
        per = s.per if s.per and s.per > 0 else 2**31-1
        o, r, m0 = one('open', 'in.msh'), (idx('read') or [None])[0], one('mesh', 0, per)
        if not h('order', None not in (o, r, m0) and o < r < m0, 'input mesh', f'the input is opened, read and used in the order {[x[:2] for x in L if x[0] in ("open", "read", "mesh")]}'): return
        sets = {x[1]: (x[2], k) for k, x in enumerate(L) if x[0] == 'set'}; wr = (idx('write') or [len(L)])[0]
        h('order', sets.get('Mesh.PartitionSplitMeshFiles', (0, 0))[0] == 1 and sets['Mesh.PartitionSplitMeshFiles'][1] < wr and sets.get('Mesh.PartitionCreateTopology', (1, 0))[0] == 0 and sets['Mesh.PartitionCreateTopology'][1] < wr, 'options', f'gmsh is not told to write one file per partition without topology: {sets}')
        dat = {x[1]: x for x in L if x[0] == 'data'} ; ndat = sum(1 for x in L if x[0] == 'data'); P = lambda nm_: s.base+'_'+nm_+s.ext; want = {}
        # refinement
        rf, bg = idx('ref'), idx('bg')
        if s.ref:
            if h('refinement', len(rf) == 1 and len(bg) == 1 and rf[0] < bg[0], 'computed and written once', f'{len(rf)} computed, {len(bg)} written'):
                x, b = L[rf[0]], L[bg[0]]
                h('refinement', x[1:5] == ([NV, NE, s.nv], 'm0.ev', 'm0.ve', s.ref), 'input', f'{x[1:5]}'); h('refinement', b[1:] == ([s.elty, NV, NE], ['m0.ev', 'm0.ve', 'refv'], s.refout), 'output', f'{b[1:]}')
                for i in range(NV): h('refinement', i in x[5] and A.equal(x[5][i], s.sp(0, False, i)[0]) is None, f'speed {i}', f'the speed at vertex {i} is {x[5].get(i)} instead of {s.sp(0, False, i)[0]}')
            if s.an and s.base: want['target_edge_length'] = ('refe', P('target_length_el'))
        else: h('refinement', not rf and not bg, 'none', 'a refinement is computed without an expression')
        if not s.base:
            h('order', not idx('cfl') and not idx('write') and not s.h5 and not idx('data') and not idx('csv'), 'no output', f'without output, {[x[0] for x in L]}'); s.dead(h); return
        # time steps
        cf = [x for x in L if x[0] == 'cfl']
        if not h('steps', len(cf) == 2, 'time steps', f'time steps are computed {len(cf)} times'): return
        for k, x in enumerate(cf):
            h('steps', x[1:4] == ([s.elty, NV, NE], [f'm{k}.ev', f'm{k}.ve', f'm{k}.in'], s.cen), f'mesh {k}', f'{x[1:4]}'); sp = x[4]['sp']
            for i in range(NE if s.cen else NV):
                for j in range(2):
                    g = sp.get(i, (None, None))[j]; w = s.sp(k, s.cen, i)[j]
                    h('steps', g is not None and A.equal(g, w) is None, f'mesh {k}, speed {i}, {j}', f'the {("minimum", "maximum")[j]} speed at {"centroid" if s.cen else "vertex"} {i} of the {("input", "reordered")[k]} mesh is {g} instead of {w}')
        ts = [f'cfl{x[4]["id"]}' for x in cf]
        # groups
        gr = [x for x in L if x[0] == 'groups']; p2 = [k for k, x in enumerate(L) if x[0] == 'mesh'][1] if len(idx('mesh')) == 2 else None
        if not h('order', p2 is not None and L[p2][2] == per, 'second mesh', f'{[x for x in L if x[0] == "mesh"]}'): return
        fin = [x for x in gr if idx('groups')[gr.index(x)] > p2]; pre = [x for x in gr if x not in fin]; pt = idx('part')
        if not h('groups', len(fin) == 1 and pre and pt, 'groups', f'{len(pre)}, {len(fin)} groupings'): return
        tg0 = L[pt[0]][2]; used = [x for x in pre if f'tg{x[4]["id"]}' == tg0]
        if not h('groups', len(used) == 1 and used[0] is pre[-1], 'groups of the partitioning', f'{tg0} is used for the partitioning'): return
        for k, x in [(0, y) for y in pre]+[(1, fin[0])]:
            h('groups', x[1:4] == ([s.elty, NE], f'm{k}.ad', ts[k]) and x[4]['n'] == s.groups-1 and all(v == 2 for v in x[4]['rates']), f'input {k}', f'{x[1:4]}, {x[4]}')
        d0, d1 = used[0][4]['dt'], fin[0][4]['dt']; h('groups', d0 == d1, 'same step', f'the fundamental time step is {d0}, then {d1}')
        if s.dt: h('groups', d0 == Q(float(s.dt)) and len(pre) == 1, 'given step', f'the fundamental time step is {d0} instead of {s.dt}')
        else:
            tr = [x[4]['dt'] for x in pre]; miss = [k for k in range(51, 101) if not any(abs(t-Q(k, 100)) < Q(1, 10**9) for t in tr)]
            h('groups', not miss, 'search', f'the time steps {miss} (in hundredths) are not tried'); h('groups', s.speed(d0) == max(s.speed(t) for t in tr), 'best step', f'the fundamental time step is {float(d0)} with a speed-up of {float(s.speed(d0))}, the best is {float(max(s.speed(t) for t in tr))}')
        # partitioning
        kw = idx('kway'); h('partition', L[pt[0]][1] == 0 and (kw == [] if s.npart == 1 else len(kw) == 1 and L[kw[0]] == ('kway', s.npart) and pt[0] < kw[0]), 'partitions', f'{[x for x in L if x[0] in ("part", "kway")]}')
        ro, np = idx('reorder'), 1 if s.ro else s.npart
        if not h('order', len(ro) == 1 and L[ro[0]] in (('reorder', f'pr{s.npart}'),)+((('reorder', f'pr{np}'),) if s.groups > 1 else ()) and (L[ro[0]][1] == 'pr1' or not kw or kw[0] < ro[0]), 'reordering', f'{[L[k] for k in ro]}'): return
        # the files count per time group: within a file the groups have to be contiguous, a priority by partition of a finer partitioning interleaves them
        if s.groups > 1: c.holds('layout', L[ro[0]][1] == f'pr{np}', ('reorder only' if s.ro else 'partitioned')+(' with several partitions' if s.npart > 1 else '')+' and time groups', f'{MN} main: elements are ordered by {s.npart} partitions, then by time group, but {np} file(s) with counts per time group are written: the elements of a group are not contiguous in the file')
        pa, w = idx('partition'), idx('write')
        h('order', (pa == [] if np == 1 else len(pa) == 1 and L[pa[0]][1:] == (np, s.sz) and ro[0] < pa[0]), 'stored partitions', f'{[L[k] for k in pa]}')
        path = s.base+('_1' if np == 1 else '')+s.ext; rd = [k for k in idx('read') if w and k > w[0]]
        h('order', len(w) == 1 and L[w[0]] == ('write', path) and max(ro+pa) < w[0], 'written mesh', f'{[L[k] for k in w]} instead of {path}')
        h('order', any(k < p2 and k > ro[0] for k in idx('read')), 'read again', 'the reordered mesh is used before gmsh\'s data is read again')
        # communication
        co = [x for x in L if x[0] == 'comm']; tg1 = f'tg{fin[0][4]["id"]}'
        if h('communication', len(co) == 1, 'communication', f'{len(co)} derived'):
            x = co[0]; h('communication', x[1:4] == ([s.groups, s.elty, NE], 'm1.ad', np) and x[4].startswith('sz') and x[4].endswith(f'.{np}') and x[5] == tg1, 'input', f'{x[1:]}')
        # support files
        files = {f'{s.base}_{k+1}.h5': k for k in range(np)}; h('support', set(s.h5) == set(files), 'files', f'{sorted(s.h5)} instead of {sorted(files)}'); first = 0; sz = s.sz if np > 1 else [NE]
        ave = lambda e, f: sum((f(s.ms[1]['ve'][v]) for v in s.ms[1]['ev'][e*s.nv:(e+1)*s.nv]), A.ZERO if s.model == 'ucvm' else Q(0))/s.nv
        def bath(e): b = ave(e, lambda p: s.at('bath.h5', p)); return max(b, -s.dry) if b > s.dry else b
        fl = {}
        if s.model == 'tsunami': fl['bath'] = [bath(e) for e in range(NE)]
        for k in range(s.disp): fl[f'disp_{k}'] = [ave(e, lambda p: s.at(f'd{k}.h5', p)) for e in range(NE)]
        if s.model == 'ucvm':
            for w_ in ('vp', 'vs', 'rho'): fl[w_] = [ave(e, lambda p: A.fn(w_, *(A.const(v) for v in p))) for e in range(NE)]
        for f, k in files.items():
            got = dict(s.h5.get(f, {})); exp = {'/edge_v': ('group',), '/edge_v/relative_time_steps': (s.groups+1, f'iv{fin[0][4]["id"]}'), '/edge_v/n_time_group_elements_inner': (s.groups, f'gi{k}'), '/edge_v/n_time_group_elements_send': (s.groups, f'gs{k}')}
            if np > 1: exp.update({'/edge_v/communication_structure': (1+4*s.nch(k), f'cs{k}'), '/edge_v/send_el': (s.nsr(k), f'se{k}'), '/edge_v/send_fa': (s.nsr(k), f'sf{k}'), '/edge_v/recv_el': (s.nsr(k), f're{k}'), '/edge_v/recv_fa': (s.nsr(k), f'rf{k}'), '/edge_v/send_face_ids': (s.nsr(k), [1000+first*20+j for j in range(s.nsr(k))]), '/edge_v/send_vertex_ids': (s.nsr(k), [5000+first*20+j for j in range(s.nsr(k))])})
            for nm_, v in fl.items(): exp['/edge_v/'+nm_] = (sz[k], [A.lift(x) if isinstance(x, A.T) else A.const(x) for x in v[first:first+sz[k]]])
            h('support', set(got) == set(exp), f'file {k}: data sets', f'{f} has {sorted(set(got)-set(exp))} too much, misses {sorted(set(exp)-set(got))}')
            for d, v in exp.items():
                u = got.get(d); ok = u is not None and u[0] == v[0] and (len(u) == 1 or (u[1] == v[1] if not isinstance(v[1], list) else isinstance(u[1], list) and len(u[1]) == len(v[1]) and all(A.equal(A.lift(a) if isinstance(a, A.T) else A.const(a), b if isinstance(b, A.T) else A.const(b)) is None for a, b in zip(u[1], v[1]))))
                h('support', ok, f'file {k}: {d}', f'{d} of {f} is {u} instead of {v}')
            first += sz[k]
        off = 0
        for k in range(np if np > 1 else 0):
            for b in (1000, 5000): h('support', ('ids', b, 1, s.nsr(k), off, f'se{k}', f'sf{k}') in L, f'ids {b}, {k}', f'{[x for x in L if x[0] == "ids"]}')
            off += sz[k]
        # annotations
        if s.an:
            want['cfl_time_step'] = (ts[0], P('cfl_time_step')); want['element_time_step_group'] = (tg0, P('element_time_step_group')); want['element_partition'] = (f'pa{s.npart}', P('element_partition')); want['element_id'] = ([k for k in range(NE)], P('element_id'))
            if s.model == 'tsunami': want['bath'] = (fl['bath'], P('bath'))
            if s.model == 'ucvm':
                for w_ in ('vp', 'vs', 'rho'): want[w_] = (fl[w_], P(w_))
        dsp = [x for x in L if x[0] == 'data' and x[1] == 'disp']; h('annotations', len(dsp) == (s.disp if s.an else 0), 'displacements', f'{len(dsp)} written')
        same = lambda u, v: u == v if not isinstance(v, list) else isinstance(u, list) and len(u) == len(v) and all(A.equal(a if isinstance(a, A.T) else A.const(a), b if isinstance(b, A.T) else A.const(b)) is None for a, b in zip(u, v))
        for k, x in enumerate(dsp): h('annotations', same(x[2], fl[f'disp_{k}']) and x[3] == P(f'disp_{k}'), f'displacement {k}', f'{x}')
        h('annotations', set(dat)-{'disp'} == set(want) and ndat == len(want)+len(dsp), 'set', f'{sorted(dat)} instead of {sorted(want)}')
        for k, v in want.items():
            x = dat.get(k); h('annotations', x is not None and same(x[2], v[0]) and x[3] == v[1], k, f'{x} instead of {v}')
        pre_ = {k for k, x in enumerate(L) if x[0] == 'data' and x[1] in ('cfl_time_step', 'element_time_step_group', 'element_partition', 'target_edge_length')}; post = {k for k, x in enumerate(L) if x[0] == 'data'}-pre_
        h('annotations', all(k < ro[0] for k in pre_) and all(k > max(ro[0], *[j for j in idx('read') if j < p2]) for k in post), 'order', 'data of the input mesh is written for the reordered one, or the other way around')
        cs = [x for x in L if x[0] == 'csv']; h('csv', cs == ([('csv', s.ts, 1, NE, ['ts_cfl'], [ts[0]])] if s.ts else []), 'time steps', f'{cs}')
        s.dead(h)
    def dead(s, h):
        al = [x['kind']+(' '+x['path'] if 'path' in x else '') for x in s.obj.values() if x['alive'] and x['kind'] == 'hdf5' and not x['ro']]; h('lifetime', not al, 'released', f'{al} are still open at the end')
def body(c):
    ex = ['-I/opt/vp/deps/include', '-I'+B.VERIF+'/stubs_ucvm', '-DPUGIXML_SOURCE="pugixml_source.h"', '-Wno-undefined-inline']; fs = [B.v_flags(extra=ex), B.v_flags(extra=ex+['-DPP_HAS_UCVM', '-DPP_UCVM_CONF="ucvm.conf"'])]
    c.prefetch([(None, f, TXT) for f in fs])
    for r, t in (('order', 'the mesh is read, reordered, partitioned, written and read again in this order'), ('refinement', 'the refinement is computed from the input mesh and written'), ('steps', 'time steps use the mesh at hand and the model\'s speeds at its vertices or centroids'), ('groups', 'time groups have rate two and the given or the best fundamental time step'), ('partition', 'the mesh is partitioned as configured'), ('communication', 'communication is derived from the reordered mesh'), ('layout', 'within a file the elements of a time group are contiguous'), ('support', 'every partition has a file with its part of the data'), ('annotations', 'annotations are complete, of the right mesh, and at their paths'), ('csv', 'time steps are written if requested'), ('lifetime', 'objects are not used after their destruction, files are closed'), ('usage', 'arguments')): c.rule(r, t)
    W = ((0, dict(model='seismic')), (0, dict(model='tsunami', cen=1, npart=3, groups=3, an=1, dt=Q(0), best=.83, ts='ts.csv', ref='rexp', refout='ref.pos', disp=2)), (0, dict(npart=3, ro=1, groups=2, an=1, per=7)), (0, dict(base='', ref='rexp', refout='r.pos', model='seismic', an=1)), (0, dict(base='', model='tsunami')), (0, dict(model='tsunami', npart=2, tet=True, dt=Q(0), best=.51, groups=2, disp=1)), (0, dict(npart=2, dt=Q(0), best=1.0, groups=4, ts='t.csv', an=1, disp=1)), (1, dict(model='ucvm', npart=2, an=1, cen=1, uc=True)), (1, dict(model='ucvm', tet=True, groups=2)), (1, dict(model='seismic', cen=1, an=1, npart=3, ref='rexp', refout='x')), (0, dict(model='seismic', an=1, per=-4, args=('edge_v', '--xml', 'conf.xml'))))
    ms = [c.driver(TXT, f, f'EDGE-V driver {k}') for k, f in enumerate(fs)]; rnd = random.Random(c.seed)
    for r in range(3 if c.tier == 'thorough' else 1):
        for k, (u, o) in enumerate(W): World(c, ms[u], f'run {k}'+(f', {r}' if r else ''), rnd, **o).check()
    for a, w in ((('edge_v',), 1), (('edge_v', '-h'), 0), (('edge_v', '--help'), 0), (('edge_v', '-y', 'conf.xml'), 1), (('edge_v', '-x'), 1), (('edge_v', '-x', 'a', 'b'), 1)):
        x = World(c, ms[0], f'arguments {a}', rnd, args=a); ok = x.run(); c.holds('usage', ok and (x.ret != 0) == (w != 0) and not x.log, f'{a}', f'{MN} main: {a} leads to {x.ret}, {x.log[:3]} {x.s.why}')
    return c.finish('the driver is interpreted with its configuration, models and grids; borders: gmsh, mesh, time steps and groups, partitioning, communication, HDF5 files', ['the components behind the borders fulfill their properties (C18-C22, C24, C25)'], 500)
if __name__ == '__main__': H.main('C26', body)
