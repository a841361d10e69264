import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
from fractions import Fraction as Q
import re, subprocess, functools
TXT = r'''
#include <cstddef>
#include "main.cpp"
typedef edge::data::Internal In; typedef edge::io::Config Co;
extern "C" unsigned long offI[] = { sizeof(In), offsetof(In,m_connect.faVe), offsetof(In,m_connect.faEl), offsetof(In,m_connect.elVe), offsetof(In,m_connect.elFa), offsetof(In,m_connect.elFaEl), offsetof(In,m_connect.vIdElFaEl), offsetof(In,m_connect.fIdElFaEl), offsetof(In,m_vertexChars), offsetof(In,m_faceChars), offsetof(In,m_elementChars), offsetof(In,m_elementModePrivate1), 0 };
extern "C" unsigned long offC[] = { sizeof(Co), offsetof(Co,m_meshInBase), offsetof(Co,m_meshInExt), offsetof(Co,m_periodic), offsetof(Co,m_separateWrks), offsetof(Co,m_endTime), offsetof(Co,m_waveFieldInt), offsetof(Co,m_syncMaxInt), offsetof(Co,m_recvCrds), offsetof(Co,m_recvNames), offsetof(Co,m_recvFreq), offsetof(Co,m_recvPath), offsetof(Co,m_spTypesDoms), offsetof(Co,m_spTypesVals), offsetof(Co,m_waveFieldType), offsetof(Co,m_waveFieldFile), offsetof(Co,m_waveFieldSpType), offsetof(Co,m_initValsExprStrs), offsetof(Co,m_refValsExprStrs), offsetof(Co,m_doc), offsetof(Co,m_errorNormsType), offsetof(Co,m_errorNormsFile) };
extern "C" unsigned long offV[] = { sizeof(t_vertexChars), offsetof(t_vertexChars,coords), offsetof(t_vertexChars,spType), sizeof(t_faceChars), offsetof(t_faceChars,area), offsetof(t_faceChars,outNormal), offsetof(t_faceChars,tangent0), offsetof(t_faceChars,tangent1), offsetof(t_faceChars,spType), sizeof(t_elementChars), offsetof(t_elementChars,volume), offsetof(t_elementChars,inDia), offsetof(t_elementChars,spType), sizeof(real_mesh), N_ENTRIES_CONTROL_FLOW, RECEIVER, N_QUANTITIES, N_ELEMENT_MODES, N_FACE_MODES, sizeof(edge::linalg::Domain< real_mesh, N_DIM, edge::linalg::HalfSpace >), N_CRUNS, sizeof(real_base), (unsigned long) C_LTS_EL[EL_INT_LT], (unsigned long) C_LTS_EL[EL_INT_GT], (unsigned long) T_SDISC.ELEMENT };
#ifdef PP_T_EQUATIONS_SEISMIC
typedef edge::seismic::io::Config Sc;
extern "C" unsigned long offE[] = { sizeof(t_bgPars), offsetof(t_bgPars,rho), offsetof(t_bgPars,lam), offsetof(t_bgPars,mu), offsetof(t_bgPars,qp), offsetof(t_bgPars,qs), offsetof(In,m_elementShared1), offsetof(In,m_globalShared1), offsetof(In,m_globalShared3), offsetof(In,m_globalShared4), offsetof(In,m_globalShared6), offsetof(Sc,m_ptSrcs), offsetof(Sc,m_velDoms), offsetof(Sc,m_velVals), offsetof(Sc,m_attFreqs), t_spTypeElastic::SOURCE, t_spTypeElastic::FREE_SURFACE, N_RELAXATION_MECHANISMS, sizeof(Sc),
#if PP_N_RELAXATION_MECHANISMS > 0
 offsetof(In,m_elementModePrivate2), N_QUANTITIES_A };
#else
 0, 0 };
#endif
#elif defined(PP_T_EQUATIONS_ADVECTION)
extern "C" unsigned long offE[] = { sizeof(t_bgPars), offsetof(In,m_elementShared1), offsetof(In,m_elementShared2), offsetof(In,m_elementShared3), offsetof(In,m_globalShared3), offsetof(In,m_globalShared4) };
#else
extern "C" unsigned long offE[] = { offsetof(In,m_elementModeShared1) };
#endif
'''

MC = 'src/main.cpp'
NVE, NFA, NEL = 9, 7, 8
INS, SES = [3, 1], [1, 3]
T_SP, T_LTS, T_CFG, T_PROP = 1 << 40, 1 << 41, 1 << 42, 1 << 43
FMAX = Q((2-Q(2)**-23)*Q(2)**127)
REL = [Q(1, 2), Q(1), Q(4)]
def tab(m, n):
    it = I.Interp([m]); o = it.glob_obj(m.globs[n]); t = it.mkty((8, 0, 'i')); st = I.State(); k = int(re.search(r'\[(\d+) x', str(m.globs[n].ty)).group(1)) if False else None
    out = []
    while True:
        try: v = it.load(st, I.Ptr(o, 8*len(out)), t)
        except Exception: break
        if not isinstance(v, int) or len(out) > 40: break
        out.append(v)
    return out
class W:
    """one analysis of the driver: what it reads (mesh, configuration) and what it hands to the solver"""
    def __init__(s, c, m, eq, key, sync, mesh=True, doms=0, inside=None, recv=(), sps=(False, False), srcs=0, errn=True, mpi=False, nd=2, nv=3):
        s.c, s.m, s.eq, s.key = c, m, eq, key; s.sync, s.mesh, s.doms, s.inside, s.recv, s.sps, s.srcs, s.errn, s.mpi = sync, mesh, doms, inside, recv, sps, srcs if eq not in ('advection', 'swe') else 0, errn, mpi; s.full = mesh is True; s.nd, s.nv = nd, nv
        s.oI, s.oC, s.oV, s.oE = (TAB(m, n) for n in ('offI', 'offC', 'offV', 'offE'))
        s.seen = set(); s.log = []; s.arg = {}; s.reg = []; s.sim = []; s.wf = []; s.norms = None; s.bgin = None; s.numa = []; s.dt = None; s.tgs = None; s.dg = None
        c_ = s.oV; s.nq, s.nm, s.nfm, s.crs = c_[16], c_[17], c_[18], c_[20]
    def ld(s, it, st, p, off=0, sz=8, kd='i'):
        t = it.mkty((sz, 0, kd))
        if kd == 'f': t.w = sz*8
        return it.load(st, I.Ptr(p.o, p.off+off), t)
    def wr(s, it, st, p, off, v, sz=8, kd='i'):
        t = it.mkty((sz, 0, kd))
        if kd == 'f': t.w = sz*8
        it.store(st, I.Ptr(p.o, p.off+off), v, t)
    def ip(s, it, st, k): return s.ld(it, st, s.ptr['I'], s.oI[k], 8, 'p')
    def run(s):
        m, c = s.m, s.c; s.ptr = {}; mod = {}
        obj = lambda it, n: I.Ptr(it.inputs.get(n) or it.input_obj(n), 0)
        noop = lambda it, i, a, st: None
        def rec(n, f=None, ret=None):
            def g(it, i, a, st):
                s.log.append(n); s.arg.setdefault(n, []).append(a)
                if f: return f(it, i, a, st)
                return ret
            return g
        def getter(n): return lambda it, i, a, st: obj(it, n)
        def const(v): return lambda it, i, a, st: v
        cfgd = {}
        def vec(it, st, p, off, name, n, esz):
            o = obj(it, name)
            for k, v in enumerate((0, n*esz, n*esz)): s.wr(it, st, p, off+8*k, I.Ptr(o.o, v), 8, 'p')
            return o
        def cfg(it, i, a, st):
            p = a[0]; o = s.oC; s.ptr['C'] = p; s.log.append('config')
            S = lambda k, t: I.set_str(it, st, I.Ptr(p.o, p.off+o[k]), t)
            S(1, b'in/mesh'); S(2, b'.msh')
            s.wr(it, st, p, o[3], 77, 4); s.wr(it, st, p, o[4], 1)
            for k, v in zip((5, 6, 7), s.sync): s.wr(it, st, p, o[k], A.const(v), 8, 'f')
            vec(it, st, p, o[8], 'rcrd', 3 if s.recv else 0, 24); vec(it, st, p, o[9], 'rnam', 3 if s.recv else 0, 32)
            s.wr(it, st, p, o[10], A.var('rfreq'), 8, 'f')
            for k in range(3):
                on = k > 0 and s.sps[k-1]
                vec(it, st, p, o[12]+24*k, f'spd{k}', 1 if on else 0, s.oV[19]); vec(it, st, p, o[13]+24*k, f'spv{k}', 1 if on else 0, 8)
            s.wr(it, st, p, o[16], -1)
            I.set_str(it, st, I.Ptr(p.o, p.off+o[11]), b'out/recv'); S(14, b'vtk_ascii'); S(15, b'out/wf'); S(20, b'xml'); S(21, b'out/err')
        def scfg(it, i, a, st):
            p = a[0]; o = s.oE; s.ptr['S'] = p; s.log.append('seismic config')
            if a[1].o is not s.ptr['C'].o or a[1].off != s.ptr['C'].off+s.oC[19]: raise I.Bottom('the seismic part is read from another document')
            vec(it, st, p, o[11], 'psrc', s.srcs, 32); vec(it, st, p, o[12], 'vdom', s.doms, s.oV[19]); v = vec(it, st, p, o[13], 'vval', s.doms, 5*s.oV[21])
            for d in range(s.doms):
                for k in range(5): s.wr(it, st, v, s.oV[21]*(5*d+k), A.var(f'dom{d}.{k}'), s.oV[21], 'f')
            for k in range(2): s.wr(it, st, p, o[14]+8*k, A.var(f'att{k}'), 8, 'f')
        def edgev(it, i, a, st):
            s.ptr['E'] = a[0]; s.log.append('mesh'); s.path = (I.str_at(it, st, a[1]), I.str_at(it, st, a[2]), a[3])
        def alloc(it, i, a, st): return I.m_alloc(it, i, [a[0]], st)
        def scratch(it, i, a, st): s.ptr['I'] = a[0]
        def nvas(it, i, a, st):
            n = (I.str_at(it, st, a[1]) or b'?').decode().lstrip('/')
            if n.startswith('edge_v/') and (s.mesh if isinstance(s.mesh, bool) else n[7:] in s.mesh): return NEL
            return 0
        def getdata(it, i, a, st):
            n = (I.str_at(it, st, a[1]) or b'?').decode().lstrip('/')
            for e in range(NEL): s.wr(it, st, a[2], 4*e, A.var(f'{n[7:]}[{e}]'), 4, 'f')
        def massinv(it, i, a, st):
            n = a[1]
            for k in range(n*n): s.wr(it, st, a[2], s.oV[21]*k, A.var(f'mi{k//n}') if k//n == k % n else A.ZERO, s.oV[21], 'f')
            s.massarg = (n, a[3])
        def enrecv(it, i, a, st):
            n = len(s.recv); o = obj(it, 'enr')
            for k, v in enumerate(s.recv): s.wr(it, st, o, 8*k, v)
            for k, v in enumerate((0, 8*n, 8*n)): s.wr(it, st, a[1], 8*k, I.Ptr(o.o, v), 8, 'p')
        def den2sp(it, i, a, st):
            s.log.append('denseToSparse'); s.arg.setdefault('denseToSparse', []).append(a)
            for k in range(2): s.wr(it, st, a[5], 8*k, [2, 1][k]); s.wr(it, st, a[6], 8*k, [1, 2][k])
            if s.srcs: s.toks(it, st, 'denseToSparse', el=s.oE[15], some=(1, 2))
            s.chk('sources', (a[0], a[1]) == (2, s.oE[15]) and s.at(a[3], 'ins') and s.at(a[4], 'ses') and s.eqp(a[2], s.ip(it, st, 10)), 'the sparse source ranges are derived from other data')
        def orr(it, st, p, k, bit, n=None):
            z, o, m_ = ((0, 2, NVE), (3, 8, NFA), (9, 12, NEL))[k]
            for e in (range(m_) if n is None else n): s.wr(it, st, p, s.oV[z]*e+s.oV[o], s.iv(s.ld(it, st, p, s.oV[z]*e+s.oV[o])) | bit)
        def ltst(it, i, a, st):
            s.log.append('lts'); s.chk('mesh', s.eqp(a[1], s.ip(it, st, 10)), 'the LTS relations are set elsewhere'); orr(it, st, a[1], 2, T_LTS)
        def seids(it, i, a, st):
            s.log.append('ids'); s.chk('mesh', s.eqp(a[1], s.ip(it, st, 6)) and s.eqp(a[2], s.ip(it, st, 7)), 'the vertex and face ids of faces across partitions are exchanged elsewhere')
        def spt(it, i, a, st):
            k = 1 if s.iv(a[0]) == NFA else 2; s.log.append(f'spt{k}')
            s.chk('mesh', s.iv(a[0]) == (NFA, NEL)[k-1] and s.at(a[1], ('faVe', 'elVe')[k-1]) and s.at(a[2], f'spv{k}') and s.eqp(a[3], s.ptr['C'], s.oC[12]+24*k) and s.eqp(a[4], s.ip(it, st, 8)) and s.eqp(a[5], s.ip(it, st, 8+k)), 'the configured sparse types are set for other entities'); s.geom(it, st, 'sparse types')
            orr(it, st, a[5], k, T_CFG)
        def prop(it, i, a, st):
            s.log.append('propAdj'); s.toks(it, st, 'propagation of the free surface', fa=T_SP | (T_CFG if s.sps[0] else 0))
            s.chk('mesh', s.iv(a[0]) == NFA and s.iv(a[1]) == 2 and s.at(a[2], 'faEl') and s.iv(a[3]) == s.iv(a[4]) == s.oE[16] and s.eqp(a[5], s.ip(it, st, 9)) and s.eqp(a[6], s.ip(it, st, 10)), 'the free surface is propagated to other entities'); orr(it, st, a[6], 2, T_PROP)
        def recvi(it, i, a, st):
            s.log.append('recv'); s.geom(it, st, 'receivers')
            s.chk('receivers', [s.iv(x) for x in (a[1], a[2], a[5])] == [s.oV[24], 2, 3] and s.at(a[3], 'ins') and s.at(a[4], 'ses') and s.recvdir(it, st, a[6]) == b'out/recv' and s.at(a[7], 'rnam') and s.at(a[8], 'rcrd') and EQ(A.lift(a[9]), A.var('rfreq')) and s.at(a[10], 'elVe') and s.eqp(a[11], s.ip(it, st, 8)) and (len(a) < 14 or EQ(A.lift(a[13]), A.ZERO)), 'the receivers of the configuration are set up with other data')
        def speed(it, i, a, st):
            s.log.append('speed'); s.chk('material', s.iv(a[0]) == NEL and s.eqp(a[1], s.ipE(it, st, 1)), 'the wave speeds are set elsewhere')
            for e in range(NEL):
                for k in range(s.oE[0]//4): s.wr(it, st, a[1], s.oE[0]*e+4*k, A.var(f'w{k}[{e}]'), 4, 'f')
        def solv(it, i, a, st):
            s.log.append('solvers'); s.geom(it, st, 'solvers'); s.mats(it, st, 'flux solvers'); s.toks(it, st, 'flux solvers', fa=T_SP | (T_CFG if s.sps[0] else 0))
            s.chk('solver', [s.iv(x) for x in a[:4]] == [sum(INS), sum(SES), NFA, 5] and all(s.at(x, n) for x, n in zip(a[4:10], ('rfa', 'rel_', 'elVe', 'faEl', 'elFa', 'elFaEl'))) and s.eqp(a[10], s.ip(it, st, 8)) and s.eqp(a[11], s.ip(it, st, 9)) and s.eqp(a[12], s.ipE(it, st, 1)) and s.bgin is not None and s.eqp(a[13], s.bgin) and s.eqp(a[14], s.ipE(it, st, 3)), 'the flux solvers are set up with other data')
        def dist(it, i, a, st):
            s.log.append('distinit'); nb = s.nq*(s.nm if s.eq == 'advection' else s.nfm)*s.crs*s.oV[21]
            s.chk('solver', [s.iv(x) for x in a[1:5]] == [2, 6 if s.nv == 8 else 3, NEL, nb] and all(s.at(x, n) for x, n in zip(a[5:10], ('cs', 'sfa', 'sel', 'rfa', 'rel_'))), 'the communication is set up with another structure or message size')
        def inside(it, i, a, st):
            d = a[0].off//s.oV[19]; nd = s.nd
            if a[0].o.name != 'vdom': raise I.Bottom('the domain tested is not one of the velocity model')
            got = tuple(A.lift(s.ld(it, st, a[1], 8*k, 8, 'f')) for k in range(nd))
            for e in range(NEL):
                ave = [A.div(functools.reduce(A.add, (A.var(f'crd[{v}][{k}]') for v in s.elve[e])), A.const(len(s.elve[e]))) for k in range(nd)]
                if all(EQ(x, y) for x, y in zip(got, ave)): return A.TRUE if s.inside[e][d] else A.FALSE
            raise I.Bottom('a velocity domain is queried at a point other than the average of an element\'s vertices')
        def sptypes(it, i, a, st):
            s.log.append('setSpTypes')
            ok = all(s.eqp(a[1+k], s.ip(it, st, 8+k)) for k in range(3))
            for k, (n, z, o) in enumerate(((NVE, 0, 2), (NFA, 3, 8), (NEL, 9, 12))):
                for e in range(n):
                    if ok and s.iv(s.ld(it, st, a[1+k], s.oV[z]*e+s.oV[o])) != 0: ok = False
                    s.wr(it, st, a[1+k], s.oV[z]*e+s.oV[o], T_SP)
            s.chk('mesh', ok, 'the sparse types of the mesh are not set on top of zeroed types of all entities')
        def flex(it, i, a, st):
            s.log.append('flex'); s.toks(it, st, 'time buffers', el=T_LTS); nb = 1 if s.eq == 'advection' else s.nq
            s.chk('solver', [s.iv(x) for x in a[1:4]] == [NEL, 2, nb] and [s.iv(s.ld(it, st, a[4], 8*k)) for k in range(2)] == [s.oV[22], s.oV[23]] and [s.iv(s.ld(it, st, a[5], 8*k)) for k in range(2)] == [nb, nb] and s.eqp(a[6], s.ip(it, st, 10)), 'the time buffers do not have one entry per element and one per element with a neighbour of another group'); s.arg['flex'] = [(a, [s.ld(it, st, a[4], 8*k) for k in range(a[2])], [s.ld(it, st, a[5], 8*k) for k in range(a[2])])]
            o = obj(it, 'flexp')
            for k in range(3*NEL):
                g, e = divmod(k, NEL); null = g > 0 and (e+g) % 2
                s.wr(it, st, o, 8*k, I.NULL if null else I.Ptr(obj(it, 'flexd').o, s.oV[21]*s.nq*s.nm*s.crs*k), 8, 'p')
            return o
        def stats(it, i, a, st):
            s.log.append('stats'); s.geom(it, st, 'time step'); s.mats(it, st, 'time step')
            s.chk('solver', s.iv(a[0]) == NEL and s.eqp(a[1], s.ip(it, st, 10)) and s.eqp(a[2], s.ip(it, st, 11) if s.eq == 'swe' else s.ipE(it, st, 1 if s.eq == 'advection' else 6)), 'the time step is derived from other data')
            for k in range(3): s.wr(it, st, a[-3+k], 0, A.var(('dtmin', 'dtave', 'dtmax')[k]), 8, 'f')
        def allred(it, i, a, st):
            n = a[2]; op = OPS.get(s.iv(a[4]), str(a[4]))
            for k in range(n): s.wr(it, st, a[1], 8*k, A.var(f'{op}({A.show(A.lift(s.ld(it, st, a[0], 8*k, 8, "f")), 200)})'), 8, 'f')
            return 0
        def sync(it, i, a, st):
            s.log.append('syncData'); nb = s.iv(a[2]); s.bgin = a[4]
            s.chk('solver', s.iv(a[1]) == 0 and nb == s.oE[0], 'the materials are not exchanged by face')
            s.mats(it, st, 'exchange of the materials')
            for k in range(5):
                w = s.want(s.sel[k])
                for n, o in s.bgf(): s.c.same('solver', f'{s.key}: material sent for channel face {k}, {n}', s.ld(it, st, a[3], nb*k+o, 4, 'f'), w[n], MC)
        def err(it, i, a, st):
            s.log.append('err')
            s.chk('norms', [s.iv(x) for x in a[:2]] == [0, NEL] and s.eqp(a[2], s.ptr['C'], s.oC[18]) and s.at(a[4], 'elVe') and s.eqp(a[5], s.ip(it, st, 8)) and s.eqp(a[6], s.ip(it, st, 10)) and s.eqp(a[7], s.ip(it, st, 11)), 'the error norms are computed from other data')
            for k in range(3):
                for q in range(s.nq*s.crs): s.wr(it, st, a[-3+k], 8*q, A.var(f'n{k}.{q}'), 8, 'f')
        def nwrite(it, i, a, st):
            s.norms = [[s.ld(it, st, a[1], 8*(k*s.nq*s.crs+q), 8, 'f') for q in range(s.nq*s.crs)] for k in range(3)]
        def reg(it, i, a, st):
            sp = [s.ld(it, st, a[8], 8*k) for k in range(s.iv(a[7]))] if s.iv(a[7]) else []
            s.reg.append(tuple(s.iv(x) for x in a[1:6])+(tuple(s.iv(x) for x in sp),)); s.log.append('reg')
            if sp:
                s.chk('regions', s.eqp(a[9], s.ip(it, st, 10)), 'the receivers of a region are found by other flags')
                s.toks(it, st, 'registration of a region with receivers', el=s.oV[15], some=s.recv)
        def tgctor(it, i, a, st):
            s.log.append('tg'); s.wr(it, st, a[0], 0, s.iv(a[2]))
            s.chk('groups', s.iv(a[1]) == 2 and s.eqp(a[3], s.ptr['I']) and s.iv(a[4]) == 1 and s.at(a[5], 'sp') and s.at(a[6], 'rp'), 'a time group is set up with other data')
        def manager(it, i, a, st):
            s.log.append('manager'); s.dt = a[1]
            b, e = (s.ld(it, st, a[4], 8*k, 8, 'p') for k in range(2)); n = (e.off-b.off); s.tgs = [s.ld(it, st, I.Ptr(b.o, b.off+k*(n//2))) for k in range(2)] if n else []
            s.final(it, st)
        def simulate(it, i, a, st):
            v = A.lift(a[1]); s.sim.append(v.a[0] if A.isc(v) else v); s.log.append('simulate')
        def write(it, i, a, st): s.wf.append(len(s.sim)); s.log.append('write')
        def wfctor(it, i, a, st):
            s.log.append('wavefield'); s.geom(it, st, 'wave field'); s.final(it, st)
            s.chk('output', (I.str_at(it, st, a[1]), I.str_at(it, st, a[2])) == (b'vtk_ascii', b'out/wf') and [s.iv(x) for x in a[3:5]] == [NVE, NEL] and s.eqp(a[5], s.ip(it, st, 8)) and s.eqp(a[6], s.ip(it, st, 10)) and s.at(a[7], 'elVe') and s.eqp(a[8], s.ip(it, st, 11)) and s.iv(a[9]) == -1, 'the wave field writer is set up with other data')
        def psinit(it, i, a, st):
            s.log.append('psinit'); s.geom(it, st, 'point sources')
            s.chk('sources', s.eqp(a[0], s.ptr['I'], s.oE[8]) and s.at(a[1], 'psrc') and [s.iv(x) for x in a[2:4]] == [s.oE[15], NEL] and s.at(a[4], 'elVe') and s.eqp(a[5], s.ip(it, st, 8)) and s.eqp(a[7], s.ip(it, st, 10)), 'the point sources are set up with other data')
            for k in range(s.nm): s.c.same('sources', f'{s.key}: inverse mass matrix {k}', s.ld(it, st, a[6], s.oV[21]*k, s.oV[21], 'f'), A.var(f'mi{k}'), MC)
            orr(it, st, a[7], 2, s.oE[15], (1, 2))
            return A.TRUE
        def aderdg(it, i, a, st):
            s.log.append('aderdg'); s.dg = a[0]
            if s.eq == 'advection': return
            s.geom(it, st, 'solver'); s.mats(it, st, 'solver'); s.toks(it, st, 'solver', fa=T_SP | (T_CFG if s.sps[0] else 0), el=T_LTS | T_SP | (T_CFG if s.sps[1] else 0))
            s.chk('solver', [s.iv(x) for x in a[1:5]] == [sum(INS), sum(SES), NFA, 5] and all(s.at(x, n) for x, n in zip(a[5:10], ('rfa', 'rel_', 'faEl', 'elVe', 'elFa'))) and all(s.eqp(a[10+k], s.ip(it, st, 8+k)) for k in range(3)) and s.eqp(a[13], s.ipE(it, st, 6)) and s.bgin is not None and s.eqp(a[14], s.bgin) and all(EQ(A.lift(a[15+k]), A.var(f'att{k}')) for k in range(2)), 'the solver is set up with other data')
        def dg(it, i, a, st):
            s.log.append('dg'); s.geom(it, st, 'initial DOFs')
            s.chk('initial', [s.iv(x) for x in a[:2]] == [0, NEL] and s.eqp(a[2], s.ptr['C'], s.oC[17]) and s.at(a[4], 'elVe') and s.eqp(a[5], s.ip(it, st, 8)) and s.eqp(a[6], s.ip(it, st, 11)), 'the initial values are set with other data')
        def dof0(it, i, a, st): s.log.append('numaInit'); s.numa.append((s.iv(a[1]), s.iv(a[4]), a[5].o, a[5].off, s.at(a[2], 'ins') and s.at(a[3], 'ses')))
        def star(it, i, a, st):
            s.log.append('star'); s.geom(it, st, 'star matrices'); s.mats(it, st, 'star matrices')
            s.chk('solver', s.iv(a[0]) == NEL and s.eqp(a[1], s.ip(it, st, 8)) and s.at(a[2], 'elVe') and s.eqp(a[3], s.ipE(it, st, 1)) and s.eqp(a[4], s.ipE(it, st, 2)), 'the star matrices are set up with other data')
        EV = {'nVesEv': const(NVE), 'nFasEv': const(NFA), 'nElsEv': const(NEL), 'nElsInEv': const(sum(INS)), 'nElsSeEv': const(sum(SES)), 'nTgsEv': const(2), 'nTgElsInEv': getter('ins'), 'nTgElsSeEv': getter('ses'), 'getFaVeEv': getter('faVe'), 'getFaElEv': getter('faEl'), 'getElVeEv': getter('elVe'), 'getElFaEv': getter('elFa'), 'getElFaElEv': getter('elFaEl'), 'getVeCrdsEv': getter('crd'), 'getVolumesElEv': getter('vol'), 'getAreasFaEv': getter('area'), 'getInDiasElEv': getter('dia'), 'getNormalsFaEv': getter('nrm'), 'getTangentsFaEv': getter('tan'), 'getRelDtEv': getter('rel'), 'getCommStructEv': getter('cs'), 'getSendFaEv': getter('sfa'), 'getSendElEv': getter('sel'), 'getRecvFaEv': getter('rfa'), 'getRecvElEv': getter('rel_'), 'nCommElFaEv': const(5)}
        R = [('4mesh5EdgeVC', edgev), ('4mesh5EdgeVD', noop), ('EdgeV10setSpTypes', sptypes), ('EdgeV14setSeVeFaIdsAd', seids), ('EdgeV11setLtsTypes', ltst), ('EdgeV4nVas', nvas), ('EdgeV7getData', getdata),
             ('seismic2io6ConfigC', scfg), ('edge2io6ConfigC', cfg), ('2io6ConfigD', noop), ('Internal11initScratch', scratch), ('Internal8finalize', noop), ('4data6common8allocate', alloc), ('4data6common7release', noop), ('4data6common[0-9]+print', noop),
             ('Basis15getMassInvDense', massinv), ('Receivers9getEnRecv', enrecv), ('Receivers4init', recvi), ('SparseEntities13denseToSparse', den2sp), ('SparseEntities7propAdj', prop), ('4data7Dynamic4flex', flex), ('6common[0-9]+getTimeStepStat', stats), ('FiniteVolume', stats), ('Distributed8syncData', sync), ('MPI_Allreduce', allred), ('InitialDofs', None), ('Shared9regWrkRgn', reg), ('Shared8numaInit', dof0),
             ('TimeGroupStaticC', tgctor), ('7ManagerC', manager), ('Manager8simulate', simulate), ('WaveFieldC', wfctor), ('WaveField5write', write), ('ErrorNormsC', noop), ('ErrorNorms10outEnabled', const(A.TRUE if s.errn else A.FALSE)), ('ErrorNorms5write', nwrite), ('PointSourcesI', psinit), ('SparseTypes', spt), ('13printNeighRel', noop), ('setConstantSpeed', speed), ('setupStarM', star), ('12setupSolvers', solv), ('6DomainI.*6insideI', inside),
             ('nCommBuffersEv', const(1)), ('getSendPtrsEv', getter('sp')), ('getRecvPtrsEv', getter('rp')), ('TimeGroupStatic13getUpdatesPer', const(3))]
        for f in list(m.fns):
            h = None; own = f.startswith(('_ZN4edge', '_ZNK4edge', '__vp', 'MPI_', '_ZN8edge_v', '_ZNK8edge_v'))
            if not own or f.startswith('__vp'):
                if f == '_ZNSt7__cxx119to_stringEi': h = lambda it, i, a, st: I.set_str(it, st, a[0], str(s.iv(a[1])).encode())
                elif 'basic_stringIcSt11char_traitsIcESaIcEED' in f: h = noop
                elif f.startswith('_ZNSt7__cxx1112basic_string'): h = STR.get(f.split('IcESaIcEE', 1)[1])
                if h: mod[f] = h
                continue
            for k, g in EV.items():
                if ('5EdgeV'+str(len(k)-2)+k) in f: h = g
            if re.search(r'D[012]Ev$', f): h = noop
            if h is None:
                for k, g in R:
                    if re.search(k, f): h = g; break
                if 'InitialDofs' in f: h = dg if '2dgI' in f else err
                if 'AderDg' in f and re.search(r'AderDg.*C[12]', f): h = aderdg
                if 'PointSources' in f and not re.search(r'E4init', f): h = noop if re.search(r'(C|D)[0-9]Ev', f) else h
                if 'Distributed' in f or 'MpiRemix' in f:
                    h = h or (dist if re.search(r'(DistributedDummy|MpiRemix)4init', f) else rec('fin') if f.endswith('3finEv') else noop)
            if h is None and (not m.fns[f].defined if hasattr(m.fns[f], 'defined') else False): h = noop
            if h is None and re.search(r'setups3Cpu|2io7logging|7monitor5Timer|12OptionParser|8parallel6Shared|4data7Dynamic|2dg5Basis|QuadratureEval|2io9Receivers|8parallel9Gaspi', f): h = noop
            if h is None and f.startswith('MPI_'): h = const(0)
            if h: mod[f] = h
        ss = c.session([m], models=mod); s.s = ss; ss.it.pos = ()
        for g, v in (('6g_rankE', 2), ('8g_nRanksE', 3)):
            for n in m.globs:
                if n.endswith(g): ss.st.wr(ss.it.glob_obj(m.globs[n])).cells[0] = (4, v, 'i')
        s.elve = [[(e+x) % NVE for x in range(s.nv)] for e in range(NEL)]
        for e in range(NEL):
            for k in range(s.nv): ss.put('elVe', 8*(s.nv*e+k), s.elve[e][k])
            ss.put('vol', 8*e, A.var(f'vol[{e}]'), 8, 'f'); ss.put('dia', 8*e, A.var(f'dia[{e}]'), 8, 'f')
        for v in range(NVE):
            for k in range(3): ss.put('crd', 8*(3*v+k), A.var(f'crd[{v}][{k}]'), 8, 'f')
        for f in range(NFA):
            ss.put('area', 8*f, A.var(f'area[{f}]'), 8, 'f')
            for k in range(3):
                ss.put('nrm', 8*(3*f+k), A.var(f'nrm[{f}][{k}]'), 8, 'f')
                for j in range(2): ss.put('tan', 8*(6*f+3*j+k), A.var(f'tan{j}[{f}][{k}]'), 8, 'f')
        for k in range(2): ss.put('ins', 8*k, INS[k]); ss.put('ses', 8*k, SES[k])
        for k in range(3): ss.put('rel', 8*k, A.const(REL[k]), 8, 'f')
        s.sel = [7, 5, 4, 7, 6]
        for k in range(5): ss.put('sel', 8*k, s.sel[k])
        return ss.call(s.entry(), 1, ('argv', 8))
    def entry(s): return 'main'
    def iv(s, v): return int(v.a[0]) if isinstance(v, A.T) else v
    def eqp(s, p, q, off=0): return isinstance(p, I.Ptr) and isinstance(q, I.Ptr) and p.o is q.o and s.iv(p.off) == s.iv(q.off)+off
    def at(s, p, n): return isinstance(p, I.Ptr) and p.o is s.s.it.inputs.get(n) and p.off == 0
    def recvdir(s, it, st, p): return I.str_at(it, st, p)
    def chk(s, rule, ok, text): s.c.holds(rule, ok, f'{s.key}: {text}', f'{MC}: {text}')
    def ipE(s, it, st, k, load=True):
        p = I.Ptr(s.ptr['I'].o, s.ptr['I'].off+s.oE[k]); return s.ld(it, st, p, 0, 8, 'p')
    def toks(s, it, st, w, el=0, fa=0, some=None):
        """typestate of the flags: what a consumer needs has been produced"""
        for k, (bit, n, z, o) in enumerate(((fa, NFA, 3, 8), (el, NEL, 9, 12))):
            p = s.ip(it, st, 9+k)
            for e in (range(n) if some is None or not k else some) if bit else ():
                v = s.iv(s.ld(it, st, p, s.oV[z]*e+s.oV[o])); s.chk('order', isinstance(v, int) and v & bit == bit, f'{w}: the flags of {("face", "element")[k]} {e} are not set by then')
    def geom(s, it, st, w):
        if w in s.seen: return
        s.seen.add(w); V, F, E = (s.ip(it, st, 8+k) for k in range(3)); bad = []
        def t(p, off, n):
            v = s.ld(it, st, p, off, 8, 'f')
            if not EQ(A.lift(v), A.var(n)): bad.append((n, v))
        o = s.oV
        for v in range(NVE):
            for k in range(3): t(V, o[0]*v+o[1]+8*k, f'crd[{v}][{k}]')
        for f in range(NFA):
            t(F, o[3]*f+o[4], f'area[{f}]')
            for k in range(3):
                t(F, o[3]*f+o[5]+8*k, f'nrm[{f}][{k}]'); t(F, o[3]*f+o[6]+8*k, f'tan0[{f}][{k}]'); t(F, o[3]*f+o[7]+8*k, f'tan1[{f}][{k}]')
        for e in range(NEL): t(E, o[9]*e+o[10], f'vol[{e}]'); t(E, o[9]*e+o[11], f'dia[{e}]')
        s.chk('mesh', not bad, f'{w}: the geometry handed over is not that of the mesh: {bad[0][0] if bad else ""}')
        con = [n for k, n in enumerate(('faVe', 'faEl', 'elVe', 'elFa', 'elFaEl')) if not s.at(s.ip(it, st, 1+k), n)]
        s.chk('mesh', not con, f'{w}: the adjacency handed over is not that of the mesh: {con}')
    def bgf(s):
        if s.eq == 'advection': return [(f'w{k}', 4*k) for k in range(s.oE[0]//4)]
        return list(zip(('rho', 'lam', 'mu', 'qp', 'qs'), s.oE[1:6]))
    def want(s, e):
        if s.eq == 'advection': return {n: A.var(f'{n}[{e}]') for n, _ in s.bgf()}
        d = next((d for d in range(s.doms) if s.inside[e][d]), None)
        if d is not None:
            v = [A.var(f'dom{d}.{k}') for k in range(5)]; w = {'rho': v[0], 'lam': v[1], 'mu': v[2]}
            w['qp'], w['qs'] = (v[3], v[4]) if s.oE[17] else (A.const(FMAX), A.const(FMAX))
            return w
        r, p, q = (A.var(f'{n}[{e}]') for n in ('rho', 'vp', 'vs')); mu = A.mul(A.mul(q, q), r)
        return {'rho': r, 'mu': mu, 'lam': A.sub(A.mul(A.mul(p, p), r), A.mul(A.const(2), mu)), 'qs': A.mul(A.const(Q(0.1)), q), 'qp': A.mul(A.const(Q(0.2)), q)}
    def mats(s, it, st, w):
        if 'm'+w in s.seen: return
        s.seen.add('m'+w)
        if s.eq == 'swe':
            p = s.ipE(it, st, 0); h = s.ip(it, st, 11)
            for e in range(NEL):
                b = A.var(f'bath[{e}]') if s.full else A.ZERO
                s.c.same('material', f'{s.key}: {w}: bathymetry of element {e}', s.ld(it, st, p, 4*e, 4, 'f'), b, MC)
                for r in range(s.crs if s.full else 0):
                    x = A.sub(A.var(f'disp_{r}[{e}]'), b); x = A.ite(A.gt(x, A.ZERO), x, A.ZERO)
                    for q in range(s.nq): s.c.same('material', f'{s.key}: {w}: initial {("water column", "momentum", "momentum", "quantity 3")[q]} of element {e}, run {r}', s.ld(it, st, h, 4*((e*s.nq+q)*s.crs+r), 4, 'f'), A.ZERO if q else x, MC)
            return
        p = s.ipE(it, st, 1 if s.eq == 'advection' else 6)
        for e in range(NEL):
            t = s.want(e)
            for n, o in s.bgf(): s.c.same('material', f'{s.key}: {w}: {n} of element {e}', s.ld(it, st, p, s.oE[0]*e+o, 4, 'f'), t[n], MC)
    def final(s, it, st):
        if 'final' in s.seen: return
        s.seen.add('final'); s.toks(it, st, 'time stepping', el=0)
        p = s.ip(it, st, 10); src = s.oE[15] if s.eq in ('elastic', 'viscoelastic2') else 0
        for e in range(NEL):
            t = T_SP | T_LTS | (T_CFG if s.sps[1] else 0) | (s.oV[15] if e in s.recv else 0) | (T_PROP | (src if s.srcs and e in (1, 2) else 0) if src else 0)
            s.chk('mesh', s.iv(s.ld(it, st, p, s.oV[9]*e+s.oV[12])) == t, f'flags of element {e}')
        if s.eq != 'swe':
            k = s.oE[10] if s.eq != 'advection' else s.oE[4]; b = I.Ptr(s.ptr['I'].o, s.ptr['I'].off+k)
            q = [s.ld(it, st, b, 8*g, 8, 'p') for g in range(3)]
            s.chk('solver', all(isinstance(x, I.Ptr) and x.o is it.inputs['flexp'] and s.iv(x.off) == 8*NEL*g for g, x in enumerate(q)), 'the three time buffers are not the three parts of the allocation')
            if src:
                bad = []
                for g in (1, 2):
                    for e in range(NEL):
                        d = s.ld(it, st, I.Ptr(it.inputs['flexp'], 8*(NEL*g+e)), 0, 8, 'p')
                        if isinstance(d, I.Ptr):
                            for z in range(s.nq*s.nm*s.crs):
                                if not EQ(A.lift(s.ld(it, st, d, 4*z, 4, 'f')), A.ZERO): bad.append((g, e, z))
                s.chk('initial', not bad, f'a time buffer is not zero initially: {bad[:1]}')
                want = [(2, s.nq*s.nm*s.crs, s.ip(it, st, 11))]+([(2, s.oE[20]*s.nm*s.crs, s.ipE(it, st, 19))] if s.oE[17] else [])+[(2, s.nq*s.nm*s.crs, I.Ptr(it.inputs['flexd'], 0))]
                got = [(n, v, I.Ptr(o, f)) for n, v, o, f, ok in s.numa if ok]
                s.chk('initial', len(got) == len(want) and all(any((g[0], g[1]) == (w_[0], w_[1]) and s.eqp(g[2], w_[2]) for g in got) for w_ in want), 'the DOFs and time buffers of all elements are not set to zero')
                if 'dg' in s.log: s.chk('order', max(k for k, x in enumerate(s.log) if x == 'numaInit') < s.log.index('dg'), 'DOFs are set to zero after the initial values')
            d = s.ipE(it, st, 9 if src else 5)
            s.chk('solver', s.dg is not None and s.eqp(d, s.dg), 'the time groups use another solver')
OPS = {21: 'SUM', 22: 'MIN', 23: 'MAX'}
def EQ(a, b):
    try: return A.equal(A.lift(a), A.lift(b)) is None
    except (TypeError, AttributeError): return False
def strop(get, put):
    def f(it, i, a, st):
        b = get(it, a, st)
        if b is None: return I.NOTMODELLED
        I.set_str(it, st, a[0], b); return a[0]
    return f
def cat(*p): return None if None in p else b''.join(p)
STR = {'C2EPKcRKS3_': strop(lambda it, a, st: I.cstr_at(it, st, a[1]), 0), 'C2ERKS4_': strop(lambda it, a, st: I.str_at(it, st, a[1]), 0), 'C2EOS4_': strop(lambda it, a, st: I.str_at(it, st, a[1]), 0),
       '6appendEPKc': strop(lambda it, a, st: cat(I.str_at(it, st, a[0]), I.cstr_at(it, st, a[1])), 0), 'pLERKS4_': strop(lambda it, a, st: cat(I.str_at(it, st, a[0]), I.str_at(it, st, a[1])), 0),
       '6insertEmPKc': strop(lambda it, a, st: (lambda x, y: None if x is None or y is None else x[:a[1]]+y+x[a[1]:])(I.str_at(it, st, a[0]), I.cstr_at(it, st, a[2])), 0)}
for k in list(STR):
    if k.startswith('C2'): STR['C1'+k[2:]] = STR[k]
def TAB(m, n):
    it = I.Interp([m]); o = it.glob_obj(m.globs[n]); t = it.mkty((8, 0, 'i')); st = I.State()
    k = {'offI': 13, 'offC': 22, 'offV': 25}.get(n); out = []
    if k is None: k = {True: 21}.get(any('7seismic' in f for f in m.fns), 6 if any('9advection' in f for f in m.fns) else 1)
    return [it.load(st, I.Ptr(o, 8*j), t) for j in range(k)]
HUGE = Q(2)**1022
SYNC = [(Q(1), Q(1, 4), Q(1, 8)), (Q(1), Q(1, 4), HUGE), (Q(1), HUGE, Q(1, 3)), (Q(1), Q(2, 5), Q(3, 10)), (Q(1), Q(3, 10), Q(1, 20)), (Q(7), Q(2), Q(5)), (Q(1), HUGE, HUGE), (Q(1), Q(3, 7), Q(2, 7)), (Q(0), Q(1), Q(1)), (Q(3, 2), Q(1), Q(1)), (Q(1), Q(10), Q(2)), (Q(2), Q(1, 10), Q(3))]
def loop(c, w, key):
    end, wi, mx = w.sync
    if not c.holds('sync', all(isinstance(x, Q) or isinstance(x, int) for x in w.sim), f'{key}: intervals', f'{MC}: the intervals {w.sim[:3]} are not determined by the configuration'): return
    c.holds('sync', all(x > 0 for x in w.sim), f'{key}: a synchronisation interval is not positive', f'{MC}: {[str(x) for x in w.sim]}')
    c.holds('sync', sum(w.sim) == end, f'{key}: the simulation does not stop at the end time', f'{MC}: {sum(w.sim)} instead of {end}')
    c.holds('sync', all(x <= mx and x <= wi for x in w.sim), f'{key}: a synchronisation interval is larger than configured', f'{MC}: {[str(x) for x in w.sim]}')
    at = [sum(w.sim[:k]) for k in w.wf]; want = [k*wi for k in range(int(end/wi)+1)] if wi < end else []
    c.holds('sync', at == want, f'{key}: the wave field is not written at the multiples of its interval', f'{MC}: written at {[str(x) for x in at]} instead of {[str(x) for x in want]}')
def after(c, w, key, eq):
    c.holds('mesh', w.path == (b'in/mesh_3.msh', b'in/mesh_3.h5', 77), f'{key}: mesh', f'{MC}: the mesh of rank 2 is read from {w.path}')
    n = lambda x: w.log.count(x)
    once = ['mesh', 'config', 'setSpTypes', 'lts', 'ids', 'stats', 'manager', 'wavefield', 'fin']+{'swe': [], 'advection': ['distinit', 'flex', 'dg', 'speed', 'aderdg', 'star', 'syncData', 'solvers']}.get(eq, ['distinit', 'flex', 'propAdj', 'seismic config', 'dg', 'syncData', 'aderdg', 'denseToSparse'])+(['recv'] if w.recv else [])+(['psinit'] if w.srcs else [])+[f'spt{k+1}' for k in range(2) if w.sps[k]]+(['dg'] if eq == 'swe' and not w.full else [])+(['err'] if w.errn and eq != 'swe' else [])
    bad = [x for x in once if n(x) != 1]; c.holds('order', not bad, f'{key}: once', f'{MC}: {bad} not exactly once')
    if bad: return
    L = w.log.index
    for a, b in (('config', 'mesh'), ('setSpTypes', 'lts'), ('stats', 'manager'), ('lts', 'wavefield'), ('distinit', 'syncData'), ('distinit', 'tg'), ('distinit', 'manager'), ('flex', 'dg'), ('syncData', 'solvers'), ('syncData', 'aderdg' if eq != 'advection' else 'solvers'), ('ids', 'manager')):
        if a in w.log and b in w.log: c.holds('order', L(a) < L(b), f'{key}: {a} before {b}', f'{MC}: {b} happens before {a}')
    if w.recv and eq in ('elastic', 'viscoelastic2'): c.holds('order', L('recv') < L('reg'), f'{key}: receivers', f'{MC}: regions are registered before the receivers')
    sim = [k for k, x in enumerate(w.log) if x == 'simulate']
    if sim: c.holds('order', max(L(x) for x in once if x not in ('fin', 'err')) < sim[0] and max(k for k, x in enumerate(w.log) if x == 'reg') < sim[0] and L('fin') > sim[-1], f'{key}: time stepping', f'{MC}: time stepping starts before the setup is complete or goes on after the communication is shut down')
    if sim and 'err' in w.log: c.holds('norms', L('err') > sim[-1], f'{key}: errors at the end', f'{MC}: the errors are computed before the end')
    c.holds('groups', w.tgs == [0, 1] and n('tg') == 2, f'{key}: time groups', f'{MC}: the time groups are {w.tgs}')
    dt = A.mul(A.const(REL[0]), A.var('MIN(dtmin)' if w.mpi else 'dtmin'))
    c.same('groups', f'{key}: time step of the smallest time group', w.dt, dt, MC)
    if eq == 'swe': want = [(0, 0, 0, 0, NFA, ()), (0, 1, 1, 0, NEL, ())]
    else:
        want = []; nE = w.oV[14]; st = [0, 1] if eq == 'advection' else [0, 1, 2]; fd = fs = 0
        for se, (den, src) in enumerate(((INS, [2, 1]), (SES, [1, 2]))):
            for tg in range(2):
                for x in st:
                    sp = eq != 'advection' and x == 1
                    want.append((tg, x, tg*nE+2*x+se, fs if sp else fd, src[tg] if sp else den[tg], (w.oV[15],) if eq != 'advection' and x == 0 else ()))
                fd += den[tg]; fs += src[tg]
    miss = [x for x in want if x not in w.reg]; more = [x for x in w.reg if x not in want]
    c.holds('regions', not miss and not more and len(w.reg) == len(want), f'{key}: work regions', f'{MC}: (group, step, id, first, size, sparse types) {more[:2]} instead of {miss[:2]}')
    if w.errn and eq != 'swe':
        w_ = lambda op, t: A.var(f'{op}({t})') if w.mpi else A.var(t); nq = 1 if eq == 'advection' else w.nq
        for q in range(nq*w.crs):
            for k, (op, f) in enumerate((('SUM', lambda x: x), ('SUM', A.sqrt), ('MAX', lambda x: x))):
                if c.holds('norms', w.norms is not None, f'{key}: written', f'{MC}: the error norms are not written'): c.same('norms', f'{key}: norm {k} of quantity {q//w.crs}, run {q % w.crs}', w.norms[k][q], f(w_(op, f'n{k}.{q}')), MC, pos=('n1.', 'SUM(n1.'))
def body(c):
    d = B.scratch()+'/inc'; os.makedirs(d, exist_ok=True)
    if not os.path.exists(d+'/edge_v'): os.symlink(B.REPO+'/tools/edge_v/src', d+'/edge_v')
    ex = ('-fno-inline', '-I'+d, '-idirafter', B.REPO+'/tools/edge_v/src'); mp = ex+('-DPP_USE_MPI', '-I'+B.VERIF+'/stubs_mpi')
    fl = {(eq, x is mp): B.edge_flags(eq, 'HEX8R' if eq == 'elastic' and x is ex else 'TRIA3', o, 32, 2, extra=x) for eq, o in (('elastic', 2), ('viscoelastic2', 2), ('advection', 2), ('swe', 1)) for x in (ex, mp)}
    c.prefetch([(None, f, TXT) for f in fl.values()])
    c.rule('mesh', 'geometry, adjacency and flags of the vertices, faces and elements are those of the mesh and the configuration')
    c.rule('material', 'the material of an element is that of the mesh, or of the first configured domain that contains the average of its vertices')
    c.rule('initial', 'DOFs and time buffers are zero before the initial values are set for all elements')
    c.rule('solver', 'the solver gets the data of all elements and the materials of the faces\' neighbours on other ranks')
    c.rule('receivers', 'the configured receivers are set up with the mesh')
    c.rule('sources', 'the configured sources are set up with the mesh and their elements form the sparse ranges')
    c.rule('regions', 'the registered regions of a step contain every element exactly once, with its time group and role')
    c.rule('groups', 'every time group is set up once, in order; the time step is the minimum over all ranks')
    c.rule('order', 'whatever is used has been set up before')
    c.rule('output', 'the wave field writer gets the solution of all elements')
    c.rule('sync', 'the synchronisation intervals are positive, within the limits, sum to the end time, and stop at the multiples of the wave field interval')
    c.rule('norms', 'the error norms are reduced over all ranks')
    for (eq, mpi), f in fl.items():
        m = c.driver(TXT, f, f'{eq}{" MPI" if mpi else ""}')
        se = eq in ('elastic', 'viscoelastic2'); g3 = dict(nd=3, nv=8) if eq == 'elastic' and not mpi else {}
        two = [[e % 3 == 0, e % 2 == 0] for e in range(NEL)]; al = [[e % 3 == 0, True, e % 2 == 0] for e in range(NEL)]
        S = [('mesh', dict(mesh=True, recv=(2, 5), srcs=1)), ('no extras', dict(mesh=not se and eq == 'swe', doms=3, inside=al, errn=False))]
        if se: S += [('domains override', dict(doms=2, inside=two, sps=(True, True), recv=(0,))), ('domains only', dict(mesh=False, doms=3, inside=al, srcs=2)), ('half a model', dict(mesh={'vp', 'vs'}, doms=3, inside=al))]
        if eq == 'swe': S += [('no data', dict(mesh=False)), ('no displacement', dict(mesh={'bath'})), ('half a displacement', dict(mesh={'bath', 'disp_0'}))]
        else: S += [('sparse types', dict(doms=3, inside=al, sps=(True, False)))]
        for k, (n, kw) in enumerate(S):
            key = f'{eq}{", MPI" if mpi else ""}: {n}'
            w = W(c, m, eq, key, SYNC[k], mpi=mpi, **kw, **g3)
            if c.holds('order', w.run(), f'{key}: end', f'{MC}: {w.s.why}'): after(c, w, key, eq); loop(c, w, key)
        if eq == 'advection' or c.tier == 'thorough':
            for sy in SYNC:
                key = f'{eq}{", MPI" if mpi else ""}: end {sy[0]}, wave field {sy[1] if sy[1] < HUGE else "off"}, limit {sy[2] if sy[2] < HUGE else "off"}'
                w = W(c, m, eq, key, sy, mpi=mpi, **g3, **({} if eq != 'swe' else {'mesh': True}))
                if c.holds('sync', w.run(), f'{key}: end', f'{MC}: {w.s.why}'): loop(c, w, key)
        if se:
            for n, kw in (('no model', dict(mesh=False)), ('outside of all domains', dict(mesh=False, doms=2, inside=[[e != 5, e not in (3, 5)] for e in range(NEL)]))):
                w = W(c, m, eq, f'{eq}: {n}', SYNC[0], mpi=mpi, **kw, **g3); w.quiet = True
                c.holds('material', not w.run(), f'{eq}{", MPI" if mpi else ""}: {n}', f'{MC}: elements without material are accepted')
    return c.finish('main is interpreted for a rank with two time groups; mesh data, materials and communication are symbolic or recorded at the borders of the driver, whose own code (main.cpp and its setup files) is analysed as is; the flags act as typestates', ['the components behind the borders are the other properties', 'real arithmetic'], 500)
if __name__ == '__main__': H.main('C15', body)
