import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
TXT = r'''
#include <new>
#include <limits>
#include "constants.hpp"
#include "parallel/global.h"
#include "parallel/Distributed.h"
#include "time/Manager.h"
#include "time/Manager.cpp"
#include "time/TimeGroupStatic.cpp"
using namespace edge;
alignas(64) static char bI[sizeof(data::Internal)], bR[sizeof(io::Receivers)], bS[sizeof(parallel::Shared)], bM[sizeof(time::Manager)], bV[sizeof(std::vector<time::TimeGroupStatic>)];
static unsigned char *pt[4][4];
#define V (*(std::vector<time::TimeGroupStatic>*) bV)
#define M ((time::Manager*) bM)
struct D: parallel::Distributed {
  D(): parallel::Distributed( 0, nullptr ) {}
  void beginSends( bool, unsigned short ) {} void beginRecvs( bool, unsigned short ) {} void comm() {}
  bool finSends( bool, unsigned short ) const { return true; } bool finRecvs( bool, unsigned short ) const { return true; }
};
alignas(64) static char bD[sizeof(D)];
extern "C" {
  void h_pass();
  void mk( int n, double dt ) { new (bV) std::vector<time::TimeGroupStatic>; new (bD) D; V.reserve( 8 ); for( int t = 0; t < n; t++ ) V.push_back( time::TimeGroupStatic( n, t, *(data::Internal*) bI, 1, (unsigned char * const * const *) pt, (unsigned char * const * const *) pt ) );
    new (bM) time::Manager( dt, *(parallel::Shared*) bS, *(D*) bD, V, *(io::Receivers*) bR ); }
  void cmp() { M->compute(); }
  void *tgp( int t ) { return &V[t]; }
  void *recvs() { return bR; }
  void sim( double t ) { M->simulate( t ); }
  bool mfin() { return M->m_finished; }
  void setfin( bool b ) { M->m_finished = b; }
  unsigned short cf( int t, int e ) { return M->m_cflow[t][e]; }
  void setcf( int t, int e, unsigned short v ) { M->m_cflow[t][e] = v; }
  void setUp( int t, double dt, double time ) { V[t].setUp( dt, time ); }
  void upd( int t ) { V[t].updateTsInfo(); }
  bool last( int t ) { return V[t].lastTimeStep(); }
  bool fin( int t ) { return V[t].finished(); }
  double cov( int t ) { return V[t].getCovSimTime(); }
  unsigned long cnt( int t, int k ) { auto &g = V[t]; return k == 0 ? g.getUpdatesSync() : k == 1 ? g.getUpdatesPer() : k == 2 ? g.nTimePredInner() : k == 3 ? g.nTimePredSend() : k == 4 ? g.nDofUpInner() : k == 5 ? g.nDofUpSend() : k == 6 ? g.nSendSync() : g.nRecvSync(); }
  void inc( int t, int k ) { auto &g = V[t]; if( k == 2 ) g.updateTimePredInner(); if( k == 3 ) g.updateTimePredSend(); if( k == 4 ) g.updateDofUpInner(); if( k == 5 ) g.updateDofUpSend(); if( k == 6 ) g.updateSend(); if( k == 7 ) g.updateRecv(); }
  void setI( int k, void *p ) { data::Internal &i = *(data::Internal*) bI;
#define S(n,f) if( k == n ) i.f = (decltype(i.f)) p;
    S(0,m_elementChars) S(1,m_faceChars) S(2,m_connect.elFa) S(3,m_connect.elFaEl) S(4,m_connect.fIdElFaEl) S(5,m_connect.vIdElFaEl) S(6,m_connect.faEl) S(7,m_elementModePrivate1)
#if defined PP_T_EQUATIONS_SEISMIC
    if( k == 8 ) i.m_globalShared4[0] = (decltype(i.m_globalShared4[0])) p;
#if PP_N_RELAXATION_MECHANISMS > 0
    S(9,m_elementModePrivate2)
#endif
#elif defined PP_T_EQUATIONS_ADVECTION
    if( k == 8 ) i.m_globalShared4[0] = (decltype(i.m_globalShared4[0])) p;
    S(10,m_elementShared2) S(11,m_elementShared3)
#else
    S(12,m_elementModeShared1) S(13,m_faceModePrivate1)
#endif
  }
  void *tdofs() { data::Internal &i = *(data::Internal*) bI;
#if defined PP_T_EQUATIONS_SEISMIC
    return i.m_globalShared6;
#elif defined PP_T_EQUATIONS_ADVECTION
    return i.m_globalShared3;
#else
    return nullptr;
#endif
  }
  void *srcs() {
#if defined PP_T_EQUATIONS_SEISMIC
    return ((data::Internal*) bI)->m_globalShared3;
#else
    return nullptr;
#endif
  }
  void step( int t, int st, int_el first, int_el size, int_el *sp ) { V[t].computeStep( st, first, size, sp, *(io::Receivers*) bR ); }
}
extern "C" unsigned long long en[] = { N_ENTRIES_CONTROL_FLOW, parallel::Shared::WAI, parallel::Shared::IPR, parallel::Shared::FIN, sizeof(int_el) };
'''
class TG(I.Interp):
    """a truncated number of full cycles is chosen from outside; the truncated value is recorded"""
    choice = None; casts = None
    def cast(s, op, v, ft, tt):
        if op in ('fptosi', 'fptoui') and s.choice is not None and not A.isc(I.term(v)): s.casts.append(s.unround(op, I.term(v))); return s.choice
        return super().cast(op, v, ft, tt)
F, MF = 'src/time/TimeGroupStatic.cpp', 'src/time/Manager.cpp'
FL = {'seismic': ('elastic', 'TET4', 2, 64, 1), 'seismic anelastic': ('viscoelastic2', 'TRIA3', 2, 64, 1), 'advection': ('advection', 'TRIA3', 2, 64, 1), 'swe': ('swe', 'QUAD4R', 1, 64, 1)}
# step -> (function, {argument: meaning}); this is argument 0 of member functions
SIG = {'seismic': {0: ('AderDg', '5local', dict(first=1, size=2, even=3, time=4, dt=5, sp=6)), 1: ('PointSources', '5apply', dict(first=1, size=2, time=3, end=4)), 2: ('AderDg', '5neigh', dict(first=1, size=2, even=3))},
       'advection': {0: ('AderDg', '5local', dict(first=1, size=2, even=3, dt=4)), 1: ('AderDg', '5neigh', dict(first=1, size=2, even=3))},
       'swe': {0: ('FiniteVolume', '4nusN', dict(first=0, size=1)), 1: ('FiniteVolume', '6update', dict(first=0, size=1, dt=2))}}
FLD = ['element characteristics', 'face characteristics', 'faces of elements', 'neighbours of elements', 'faces ids of neighbours', 'vertex ids of neighbours', 'elements of faces', 'degrees of freedom', 'solver', 'anelastic degrees of freedom', 'star matrices', 'flux solvers', 'bathymetry', 'net updates']
# step -> argument -> what it has to be; 't' time integrated degrees of freedom, 's' sources, 'r' receivers
DAT = {'seismic': {0: {0: 8, 7: 0, 8: 5, 9: 7, 10: 9, 11: 't', 13: 'r'}, 1: {0: 's', 5: 7}, 2: {0: 8, 4: 1, 5: 0, 6: 2, 7: 3, 8: 4, 9: 5, 10: 't', 11: 7, 12: 9}},
       'advection': {0: {0: 8, 5: 0, 6: 10, 7: 11, 8: 7, 9: 't'}, 1: {0: 8, 4: 1, 5: 0, 6: 11, 7: 2, 8: 3, 9: 4, 10: 5, 11: 't', 12: 7}},
       'swe': {0: {2: 6, 3: 1, 4: 7, 5: 12, 6: 13}, 1: {3: 6, 4: 2, 5: 1, 6: 0, 7: 13, 8: 7}}}
INC = {'seismic': 'src/impl/seismic/steps.inc', 'advection': 'src/impl/advection/inc/time/tgs_steps.inc', 'swe': 'src/impl/swe/inc/time/tgs_steps.inc'}
T = lambda s: s.ret is A.TRUE or s.ret == 1
def body(c):
    fl = {k: B.edge_flags(*v, extra=('-fno-inline',)) for k, v in FL.items()}
    c.prefetch([(None, v, TXT) for v in fl.values()])
    c.rule('count', 'a group takes all steps of the full cycles and one more cycle, rate-2 relative to the next group, and then is finished')
    c.rule('dt', 'steps of full cycles have the time step of the group, all steps of the last cycle share the rest; no step is negative or larger')
    c.rule('sum', 'the steps of a synchronisation interval cover exactly its time, for all groups alike, and simulation time only moves with them')
    c.rule('args', 'a step gets the range, sparse offset, time and time step of its group and knows which step of a pair it is')
    c.rule('work', 'a worker marks a package as in progress, does the step of its group with its range, and marks it as finished; threads with further duties return after one package')
    c.rule('reset', 'every synchronisation interval starts with fresh counters, statuses and control flow of all groups and ends when the scheduler says so')
    mods = {k: c.driver(TXT, fl[k], k) for k in FL}
    dt, r = A.var('dt'), A.var('r')
    for eqn, m in mods.items():
        eq = eqn.split()[0]; cap = []
        models = {}
        for st, (cl, fn, sig) in SIG[eq].items():
            fns = [n for n in m.fns if cl in n and fn in n]
            c.need(len(fns) == 1, f'{eqn}: {cl}::{fn[1:]} called by step {st} not found ({fns})')
            def model(it, i, a, s_, fn=fn): cap.append((fn, list(a)))
            models[fns[0]] = model
        for nt in (1, 2, 3, 4) if eqn != 'swe' else (1,):
            for K in (0, 1, 2):
                s = c.session([m], models, cls=TG, pos={'dt', 'r'})
                if not c.holds('reset', s.call('mk', nt, dt), f'{eqn}, {nt} groups: creation', f'{F}: {s.why}'): continue
                for k in range(len(FLD)): s.call('setI', k, f'F{k}')
                s.call('tdofs'); td = s.ret; s.call('srcs'); sr = s.ret
                start = A.ZERO; per = [0]*nt
                for ph, K2 in enumerate((K, (K+1) % 3)):
                    cyc = 2**(nt-1); dtMax = A.mul(dt, A.const(cyc)); time = A.add(A.mul(dtMax, A.const(K2)), r)
                    s.it.choice = K2; s.it.casts = []
                    key = f'{eqn}, {nt} groups, interval {ph} of {K2} full cycles'
                    tr = []
                    for t in range(nt):
                        for k in range(2, 8): s.call('inc', t, k)
                        if not c.holds('count', s.call('setUp', t, dt, time), f'{key}, group {t}', f'{F} setUp: {s.why}'): return c.finish('', min_obl=0)
                    for x in s.it.casts: c.same('count', f'{key}: number of full cycles', A.mul(x, dtMax), time, f'{F} setUp')
                    c.holds('count', len(s.it.casts) == nt, f'{key}: number of full cycles is derived', f'{F} setUp: {len(s.it.casts)} truncations in {nt} groups')
                    for t in range(nt):
                        n = 2**(nt-1-t)*(K2+1); d0 = A.mul(dt, A.const(2**t)); dS = A.mul(r, A.const(1, 2**(nt-1-t)) if False else A.inv(A.const(2**(nt-1-t))))
                        for k in (0, 2, 3, 4, 5, 6, 7):
                            s.call('cnt', t, k); c.holds('reset', s.ret == 0, f'{key}, group {t}: counter {k}', f'{F} setUp: counter {k} starts at {s.ret}')
                        tot = A.ZERO; steps = []
                        s.call('cov', t); now = s.ret = I.term(s.ret)
                        c.same('sum', f'{key}, group {t}: time at start', now, start, F)
                        for i in range(n+1):
                            s.call('fin', t); fin = T(s)
                            if not c.holds('count', fin == (i == n), f'{key}, group {t}: finished after {i} of {n} steps', f'{F}: finished is {fin}'): break
                            if i == n: break
                            s.call('last', t); c.holds('count', T(s) == (i == n-1), f'{key}, group {t}: last of {n} steps at {i}', f'{TGH}: last is {s.ret}')
                            full = i < n-2**(nt-1-t)
                            s.call('cov', t); now = I.term(s.ret)
                            steps.append(None)
                            for st, (cl, fn, sig) in SIG[eq].items():
                                cap.clear(); s.put('sp', 0, 77)
                                s.put('sp', 8, 78)
                                k2 = f'{key}, group {t}, step {i}, {fn[1:]}'
                                if not c.holds('args', s.call('step', t, st, 5, 9, 'sp') and len(cap) == 1 and cap[0][0] == fn, k2, f'{INC[eq]}: step {st} calls {[x[0][1:] for x in cap]}, expected {fn[1:]} ({s.why})'): continue
                                a = cap[0][1]; g = {nm: a[k] for nm, k in sig.items()}
                                g = {nm: (int(v.a[0]) if isinstance(v, A.T) and A.isc(v) and nm in ('first', 'size', 'sp') else v) for nm, v in g.items()}
                                if i == 0 and ph == 0:
                                    for k, w in DAT[eq][st].items():
                                        if w == 9 and eqn == 'seismic': ok, nm = a[k] is I.NULL or isinstance(a[k], I.Null), 'no anelastic degrees of freedom'
                                        elif w == 'r': ok, nm = isinstance(a[k], I.Ptr) and a[k].o is s.it.glob_obj(m.globs['_ZL2bR'] if '_ZL2bR' in m.globs else None), 'receivers'
                                        else:
                                            p = td if w == 't' else sr if w == 's' else I.Ptr(s.it.inputs[f'F{w}'], 0); nm = 'time integrated degrees of freedom' if w == 't' else 'sources' if w == 's' else FLD[w]
                                            ok = isinstance(a[k], I.Ptr) and a[k].o is p.o and a[k].off == p.off
                                        c.holds('args', ok, f'{k2} {nm}', f'{INC[eq]}: argument {k} of {fn[1:]} is {a[k]}, expected the {nm}')
                                c.holds('args', g['first'] == 5 and g['size'] == 9, k2+' range', f'{INC[eq]}: range is [{g["first"]}, +{g["size"]}), expected [5, +9)')
                                if 'sp' in g: c.holds('args', g['sp'] == 77, k2+' sparse', f'{INC[eq]}: first sparse receiver is {g["sp"]}, expected 77')
                                if 'even' in g: c.holds('args', (g['even'] is A.TRUE or g['even'] == 1) == (i % 2 == 0), k2+' first of pair', f'{INC[eq]}: first of pair is {g["even"]} in step {i}')
                                if 'time' in g: c.same('args', k2+' time', g['time'], now, INC[eq])
                                if 'end' in g: c.same('args', k2+' end', g['end'], A.add(now, d0 if full else dS), INC[eq])
                                if 'dt' in g:
                                    c.same('dt', k2, g['dt'], d0 if full else dS, INC[eq], pos={'dt', 'r'})
                                    if steps[-1] is None: steps[-1] = g['dt']; tot = A.add(tot, I.term(g['dt']))
                            s.call('upd', t); per[t] += 1
                            s.call('cnt', t, 0); c.holds('count', s.ret == i+1, f'{key}, group {t}: step counter {i}', f'{F} updateTsInfo: {s.ret} steps counted after {i+1}')
                            s.call('cnt', t, 1); c.holds('count', s.ret == per[t], f'{key}, group {t}: total step counter {i}', f'{F} updateTsInfo: {s.ret} steps counted after {per[t]}')
                            s.call('cov', t); c.same('sum', f'{key}, group {t}: simulation time after step {i}', I.term(s.ret), A.add(start, tot), f'{F} updateTsInfo', pos={'dt', 'r'})
                        c.same('sum', f'{key}, group {t}: covered time', tot, time, F, pos={'dt', 'r'})
                    start = A.add(start, time)
        # rounding may leave a slightly negative rest
        for nt in (1, 3) if eqn != 'swe' else (1,):
            s = c.session([m], models, cls=TG, pos={'dt', 'r'}); s.call('mk', nt, dt); s.it.choice = 1; s.it.casts = []
            for t in range(nt):
                s.call('setUp', t, dt, A.sub(A.mul(dt, A.const(2**(nt-1))), r))
                for i in range(2**(nt-1-t)): s.call('upd', t)
                s.call('cov', t); a = I.term(s.ret); s.call('upd', t); s.call('cov', t)
                c.same('dt', f'{eqn}, {nt} groups, group {t}: rest below zero', I.term(s.ret), a, f'{F} setUp', pos={'dt', 'r'})
        # a synchronisation interval of the manager
        for nt in (1, 3) if eqn != 'swe' else (1,):
            for roles in range(8):
                log = []; su = []
                def mset(it, i, a, st): su.append([a[1], a[2], a[0]])
                def status(it, i, a, st): log.append(('reset', int(a[1].a[0]) if isinstance(a[1], A.T) else a[1]))
                mo = dict(models); fn = {k: [n for n in m.fns if k in n] for k in ('TimeGroupStatic5setUp', 'Manager8scheduleEv', 'Manager11communicateEv', 'Manager7computeEv')}
                c.need(all(len(v) == 1 for v in fn.values()), f'{eqn}: {fn}')
                mo[fn['TimeGroupStatic5setUp'][0]] = mset
                for k, w in (('Manager8scheduleEv', 'schedule'), ('Manager11communicateEv', 'comm'), ('Manager7computeEv', 'compute')):
                    def f(it, i, a, st, w=w):
                        log.append(w)
                        if log.count('schedule') >= 2 or not roles & 1 and len(log) > 12: _, ns = it.call('setfin', [A.TRUE], st); it._newst = ns
                    mo[fn[k][0]] = f
                for nm, bit in (('isWrk', 4), ('isSched', 1), ('isComm', 2)):
                    for n in list(m.fns)+[f'_ZN4edge8parallel6Shared{len(nm)}{nm}Ev']:
                        if f'Shared{len(nm)}{nm}Ev' in n: mo[n] = (lambda it, i, a, st, bit=bit: A.TRUE if roles & bit else A.FALSE)
                mo['_ZN4edge8parallel6Shared11resetStatusENS1_8t_statusE'] = status
                mo['_ZN4edge8parallel6Shared7balanceEv'] = lambda it, i, a, st: log.append('balance')
                mo['_ZN4edge8parallel13LoadBalancing7balanceEv'] = lambda it, i, a, st: log.append('balance')
                mo['_ZN4edge8parallel11Distributed5resetEv'] = lambda it, i, a, st: log.append('dreset')
                if not roles: continue
                s = c.session([m], mo); s.call('mk', nt, dt); key = f'{eqn}, {nt} groups, roles {roles}'
                s.call('setfin', A.TRUE)
                for t in range(nt): s.call('setcf', t, 0, 4); s.call('setcf', t, 7, 2)
                if not c.holds('reset', s.call('sim', A.var('T')), key, f'{MF} simulate: {s.why}'): continue
                c.holds('reset', len(su) == nt and len({(x[2].o, x[2].off) for x in su}) == nt, key+' groups', f'{MF} simulate: {len(su)} set-ups of {nt} groups')
                for x in su: c.same('reset', key+' time step', I.term(x[0]), dt, MF); c.same('reset', key+' time', I.term(x[1]), A.var('T'), MF)
                o = s.it.glob_obj(m.globs['en']); ent = s.it.load(I.State(), I.Ptr(o, 0), s.it.mkty((8, 0, 'i'))); ent = int(ent.a[0]) if isinstance(ent, A.T) else ent
                wai = s.it.load(I.State(), I.Ptr(o, 8), s.it.mkty((8, 0, 'i'))); wai = int(wai.a[0]) if isinstance(wai, A.T) else wai
                # the control flow the first pass of the scheduler sees: unmodified since, as scheduling is a stand-in here
                cfs = [(s.call('cf', t, e), s.ret)[1] for t in range(nt) for e in range(ent)]
                c.holds('reset', all(v in (65535, -1) for v in cfs), key+' control flow', f'{MF} simulate: control flow starts at {cfs}')
                first = next((i for i, x in enumerate(log) if x in ('schedule', 'comm', 'compute')), 0)
                c.holds('reset', [x for x in log[:first] if x[0] == 'reset'] != [] and 'dreset' in log[:first] and all(x[1] == wai for x in log if x[0] == 'reset'), key+' statuses', f'{MF} simulate: calls before the first pass: {log[:first]}')
                want = {w for w, b in (('schedule', 1), ('comm', 2), ('compute', 4)) if roles & b}
                c.holds('reset', want <= set(log) and not ({'schedule', 'comm', 'compute'}-want) & set(log), key+' duties', f'{MF} simulate: a thread with duties {sorted(want)} does {sorted(set(x for x in log if isinstance(x, str)))}')
                c.holds('reset', log.count('schedule') <= 2, key+' end', f'{MF} simulate: goes on after the scheduler is done')
        # a worker: packages taken, marked, computed and marked again
        s0 = c.session([m]); o = s0.it.glob_obj(m.globs['en'])
        iv = lambda x: int(x.a[0]) if isinstance(x, A.T) else x
        ipr, finS, IW = (iv(s0.it.load(I.State(), I.Ptr(o, 8*k), s0.it.mkty((8, 0, 'i')))) for k in (2, 3, 4))
        nt = 3 if eqn != 'swe' else 1
        for roles in (4, 5, 6, 7):
            for pat in ((1, 1), (1, 0, 1), (0, 1, 1), (0, 0), (1,)):
                log = []; q = list(pat); pk = iter(range(100))
                def get(it, i, a, st):
                    if not q:
                        _, ns = it.call('setfin', [A.TRUE], st); it._newst = ns; log.append(('get', 0)); return A.FALSE
                    w = q.pop(0); log.append(('get', w))
                    if not w: return A.FALSE
                    k = next(pk)
                    for x, wd, v in zip(a[1:6], (2, 2, 4, IW, IW), ((k+nt-1) % nt, 40+k, 60+k, 500+k, 700+k)): st.wr(x.o).cells[x.off] = (wd, v, 'i')
                    for e in range(4): st.wr(a[6].o).cells[a[6].off+IW*e] = (IW, 900+10*k+e, 'i')
                    return A.TRUE
                def std(it, i, a, st): 
                    v = a[2]; v = it.load(st, v, it.mkty((4, 0, 'i'))) if isinstance(v, I.Ptr) else v
                    log.append(('set', iv(a[1]), iv(v)))
                def cst(it, i, a, st): log.append(('step', (a[0].o, a[0].off), iv(a[1]), iv(a[2]), iv(a[3]), [iv(it.load(st, I.Ptr(a[4].o, a[4].off+IW*e), it.mkty((IW, 0, 'i')))) for e in range(4)] if isinstance(a[4], I.Ptr) else None, (a[5].o, a[5].off) if isinstance(a[5], I.Ptr) else None))
                mo = dict(models)
                for nm, bit in (('isWrk', 4), ('isSched', 1), ('isComm', 2)):
                    for n in list(m.fns)+[f'_ZN4edge8parallel6Shared{len(nm)}{nm}Ev']:
                        if f'Shared{len(nm)}{nm}Ev' in n: mo[n] = (lambda it, i, a, st, bit=bit: A.TRUE if roles & bit else A.FALSE)
                fc = [n for n in m.fns if 'TimeGroupStatic11computeStep' in n]; c.need(len(fc) == 1, f'{eqn}: computeStep not found')
                mo[fc[0]] = cst
                ext = lambda k: [n for n in m.fns if k in n]
                g_, s_ = ext('Shared8getWrkTd'), ext('Shared11setStatusTd'); c.need(len(g_) == 1 and len(s_) == 1, f'{eqn}: functions of the shared memory parallelisation not found')
                mo[g_[0]] = get; mo[s_[0]] = std
                s = c.session([m], mo); s.call('mk', nt, dt); s.call('setfin', A.FALSE)
                tgp = [(s.call('tgp', t), s.ret)[1] for t in range(nt)]
                s.call('recvs'); rv = s.ret
                key = f'{eqn}, roles {roles}, packages {pat}'
                if not c.holds('work', s.call('cmp'), key, f'{MF} compute: {s.why}'): continue
                want = []; k = 0; once = roles != 4
                for j, w in enumerate(pat):
                    want.append(('get', w))
                    if w:
                        tp = tgp[(k+nt-1) % nt]
                        want += [('set', ipr, 60+k), ('step', (tp.o, tp.off), 40+k, 500+k, 700+k, [900+10*k+e for e in range(4)] if eq == 'seismic' else None, (rv.o, rv.off) if eq == 'seismic' else None), ('set', finS, 60+k)]; k += 1
                    if once: break
                if not once: want.append(('get', 0))
                if eq != 'seismic': log = [x[:5]+(None, None) if x[0] == 'step' else x for x in log]
                c.holds('work', log == want, key, f'{MF} compute: {log}, expected {want}')
    return c.finish('Time groups, their steps and synchronisation intervals, for symbolic time steps and rests and all numbers of groups and cycles in the bounds.', ['exact arithmetic: rounding of the number of full cycles is not modelled', 'up to four groups and two full cycles per interval'], min_obl=1500)
TGH = 'src/time/TimeGroupStatic.h'
if __name__ == '__main__': H.main('C17', body)
