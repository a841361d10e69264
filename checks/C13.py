import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
import concurrent.futures as cf
TXT = r'''
#include <new>
#include <limits>
#include "constants.hpp"
#include "parallel/global.h"
#include "parallel/Distributed.h"
#include "time/Manager.h"
#include "time/Manager.cpp"
#include "time/TimeGroupStatic.cpp"
using namespace edge;
extern "C" { void h_begS( bool, unsigned short ); void h_begR( bool, unsigned short ); bool h_finS( bool, unsigned short ); bool h_finR( bool, unsigned short ); void h_comm(); void h_flush(); }
struct D: parallel::Distributed {
  D(): parallel::Distributed( 0, nullptr ) {}
  void beginSends( bool l, unsigned short t ) { h_begS( l, t ); }
  void beginRecvs( bool l, unsigned short t ) { h_begR( l, t ); }
  void comm() { h_comm(); }
  bool finSends( bool l, unsigned short t ) const { return h_finS( l, t ); }
  bool finRecvs( bool l, unsigned short t ) const { return h_finR( l, t ); }
};
struct Rc: io::Receivers { void flushIf( unsigned int ) { h_flush(); } };
alignas(64) static char bI[sizeof(data::Internal)], bS[sizeof(parallel::Shared)], bR[sizeof(Rc)], bD[sizeof(D)], bM[sizeof(time::Manager)], bV[sizeof(std::vector<time::TimeGroupStatic>)];
#define M ((time::Manager*) bM)
#define V (*(std::vector<time::TimeGroupStatic>*) bV)
extern "C" {
  void mk( int n ) { new (bV) std::vector<time::TimeGroupStatic>; new (bD) D; new (bR) Rc; V.reserve( 8 ); for( int t = 0; t < n; t++ ) V.push_back( time::TimeGroupStatic( n, t, *(data::Internal*) bI, 1, nullptr, nullptr ) );
    new (bM) time::Manager( 1.0, *(parallel::Shared*) bS, *(D*) bD, V, *(io::Receivers*) bR ); M->m_finished = false; }
  void full( int t, unsigned long n ) { V[t].m_nTsReqFull = n; }
  void setc( int t, int e, unsigned short v ) { M->m_cflow[t][e] = v; }
  unsigned short getc_( int t, int e ) { return M->m_cflow[t][e]; }
  void sett( int t, unsigned long n, unsigned long pi, unsigned long ps, unsigned long ui, unsigned long us, unsigned long s, unsigned long r ) { auto &g = V[t]; g.m_nTsSync = n; g.m_nTsPer = 0; g.m_nTimePredSync[0] = pi; g.m_nTimePredSync[1] = ps; g.m_nDofUpSync[0] = ui; g.m_nDofUpSync[1] = us; g.m_nSendSync = s; g.m_nRecvSync = r; g.m_covSimTime = 0; g.m_dt = 0; g.m_dtFull = 0; g.m_dtSync = 0; }
  unsigned long gett( int t, int k ) { auto &g = V[t]; return k == 0 ? (unsigned long) g.m_nTsSync : k == 1 ? g.m_nTimePredSync[0] : k == 2 ? g.m_nTimePredSync[1] : k == 3 ? g.m_nDofUpSync[0] : k == 4 ? g.m_nDofUpSync[1] : k == 5 ? g.m_nSendSync : g.m_nRecvSync; }
  void sched() { M->schedule(); }
  bool fin() { return M->m_finished; }
}
extern "C" int ent[] = { N_ENTRIES_CONTROL_FLOW, parallel::Shared::RDY, parallel::Shared::FIN };
'''
# roles of the work regions: (kind, part); part 0 inner, 1 send
LAY = {'seismic': [('local', 0), ('local', 1), ('src', 0), ('src', 1), ('neigh', 0), ('neigh', 1)], 'advection': [('local', 0), ('local', 1), ('neigh', 0), ('neigh', 1)], 'swe': [('nus', 0), ('up', 0)]}
def extract(c, m, eq, nt, K):
    """transition of one scheduler pass as terms over the words of the scheduler, the time groups and the protocol's ghost counters"""
    roles = LAY[eq]; nr = len(roles); comm = eq != 'swe'
    tot = [2**(nt-1-t)*(K+1) for t in range(nt)]
    g = {}
    it0 = I.Interp([m]); o = it0.glob_obj(m.globs['ent']); ent, RDY, FIN = [it0.load(I.State(), I.Ptr(o, 4*i), it0.mkty((4, 0, 'i'))) for i in range(3)]
    names = [f'c{t}_{e}' for t in range(nt) for e in range(ent)] + [f't{t}_{k}' for t in range(nt) for k in range(7)]
    gh = [f'L{t}_{r}' for t in range(nt) for r in range(nr)] + [f'{x}{t}' for t in range(nt) for x in ('S', 'Sl', 'R', 'Rl')]
    env = [f'D{t}_{r}' for t in range(nt) for r in range(nr)] + [f'{x}{t}' for t in range(nt) for x in ('Sd', 'Rd')]
    off = {n: 8*i for i, n in enumerate(gh)}
    vio = {}
    V = A.var
    D = lambda t, r: V(f'D{t}_{r}')
    reg = lambda kind, part=None: [r for r, (k, p) in enumerate(roles) if k == kind and (part is None or p == part)]
    def rdg(it, st, n):
        cell = st.wr(it.inputs['gh']).cells.get(off[n]); return I.term(cell[1])
    def wrg(it, st, n, v): st.wr(it.inputs['gh']).cells[off[n]] = (8, v, 'i')
    def must(it, st, name, cond):
        if name not in vio: vio[name] = 4096+8*len(vio)
        cs = st.wr(it.inputs['gh']).cells; old = cs.get(vio[name]); old = old[1] if old else A.FALSE
        cs[vio[name]] = (8, A.or_(old, A.not_(cond)), 'i')
    half = lambda n, t: A.fn('idiv', n, A.const(2))
    def nTs(it, st, t):
        return I.term(it.load(st, tptr[t], it.mkty((8, 0, 'i'))))
    def launch(it, i, a, st):
        stt, id_ = a[1], a[2]
        must(it, st, 'only ready packages are handed out', A.TRUE if stt == RDY else A.FALSE)
        if not isinstance(id_, int) or not 0 <= id_ < nt*ent: must(it, st, f'work region {id_}', A.FALSE); return None
        t, r = divmod(id_, ent)
        if r >= nr: must(it, st, f'work region {id_}', A.FALSE); return None
        kind, part = roles[r]; pn = ('inner', 'send')[part]
        n = rdg(it, st, f'L{t}_{r}'); w = f'group {t} {kind} {pn}: '
        ge = lambda x, y: A.ge(x, y)
        ok = lambda what, cond: must(it, st, w+what, cond)
        ok('its previous step is still running', A.eq(D(t, r), n))
        ok('more steps than required', A.lt(n, A.const(tot[t])))
        ok('the step counter of the group is not the step', A.eq(nTs(it, st, t), n))
        adj = lambda kinds: [x for k in kinds for x in reg(k)]
        if kind == 'local':
            for x in reg('neigh'): ok('previous neighbouring step not complete', ge(D(t, x), n))
            for x in reg('src', part): ok('previous sources not complete', ge(D(t, x), n))
            if t > 0:
                for x in reg('neigh'): ok('data not consumed by the group with smaller steps', ge(D(t-1, x), n*2))
            if t < nt-1:
                for x in reg('neigh'): ok('data not consumed by the group with larger steps', A.or_(A.not_(A.eq(A.fn('imod', n, A.const(2)), A.ZERO)), ge(D(t+1, x)*2, n)))
            if part and comm: ok('previous send not complete', A.and_(A.eq(rdg(it, st, f'S{t}'), n), A.eq(V(f'Sd{t}'), n)))
        elif kind == 'src':
            for x in reg('local', part): ok('local step not complete', ge(D(t, x), n+1))
            for x in reg('neigh', part): ok('neighbouring step launched already', A.eq(rdg(it, st, f'L{t}_{x}'), n))
        elif kind == 'neigh':
            for x in reg('local'): ok('local step not complete', ge(D(t, x), n+1))
            for x in reg('src', part): ok('sources not complete', ge(D(t, x), n+1))
            if t > 0:
                for x in reg('local'): ok('data of the group with smaller steps not available', ge(D(t-1, x), n*2+2))
            if t < nt-1:
                for x in reg('local'): ok('data of the group with larger steps not available', ge(D(t+1, x), half(n, 2)+1))
            if part: ok('remote data not received', ge(V(f'Rd{t}'), n+1))
        elif kind == 'nus': ok('previous update not complete', ge(D(t, 1), n))
        elif kind == 'up': ok('net-updates not complete', ge(D(t, 0), n+1))
        wrg(it, st, f'L{t}_{r}', n+1)
        return None
    def query(it, i, a, st):
        id_ = a[2]; t, r = divmod(id_, ent) if isinstance(id_, int) else (nt, 0)
        if t >= nt or r >= nr: must(it, st, f'work region {id_}', A.FALSE); return A.FALSE
        must(it, st, 'packages are asked for completion', A.TRUE if a[1] == FIN else A.FALSE)
        n = rdg(it, st, f'L{t}_{r}')
        return A.and_(A.gt(n, A.ZERO), A.eq(n, D(t, r)))
    odd = lambda n: A.not_(A.eq(A.fn('imod', n, A.const(2)), A.ZERO))
    bl = lambda it, v: v if isinstance(v, A.T) and A.isbool(v) else (A.TRUE if v else A.FALSE) if isinstance(v, int) else A.not_(A.eq(v, A.ZERO))
    def begS(it, i, a, st):
        t = a[1]; lt = bl(it, a[0]); n = rdg(it, st, f'S{t}'); w = f'group {t} send: '
        must(it, st, w+'local step not complete', A.ge(D(t, 1), n+1)); must(it, st, w+'previous send not complete', A.eq(V(f'Sd{t}'), n))
        must(it, st, w+'sums are sent with complete pairs of steps only', A.not_(A.xor_(lt, odd(n))))
        must(it, st, w+'more sends than steps', A.lt(n, A.const(tot[t])))
        wrg(it, st, f'Sl{t}', A.ite(lt, A.ONE, A.ZERO)); wrg(it, st, f'S{t}', n+1)
    def begR(it, i, a, st):
        t = a[1]; lt = bl(it, a[0]); n = rdg(it, st, f'R{t}'); w = f'group {t} receive: '
        must(it, st, w+'previous data not consumed', A.ge(D(t, reg('neigh', 1)[0]), n)); must(it, st, w+'previous receive not complete', A.eq(V(f'Rd{t}'), n))
        must(it, st, w+'data of larger steps is received with the first of two steps only', A.xor_(lt, odd(n)))
        must(it, st, w+'more receives than steps', A.lt(n, A.const(tot[t])))
        wrg(it, st, f'Rl{t}', A.ite(lt, A.ONE, A.ZERO)); wrg(it, st, f'R{t}', n+1)
    def fin_(x):
        def f(it, i, a, st):
            t = a[1]; lt = bl(it, a[0]); n = rdg(it, st, f'{x}{t}'); d = V(f'{x}d{t}'); w = f'group {t} {"send" if x == "S" else "receive"}: '
            on = A.gt(n, d)
            must(it, st, w+'completion is asked for other messages than those under way', A.or_(A.not_(on), A.or_(lt, A.eq(rdg(it, st, f'{x}l{t}'), A.ZERO))))
            return A.not_(on)
        return f
    models = {'h_begS': begS, 'h_begR': begR, 'h_finS': fin_('S'), 'h_finR': fin_('R'), 'h_comm': lambda *a: None, 'h_flush': lambda *a: None}
    for nm in m.fns:
        if 'Shared12setStatusAll' in nm: models[nm] = launch
        elif 'Shared12getStatusAll' in nm: models[nm] = query
        elif 'ReceiversC' in nm or 'ReceiversD' in nm: pass
        elif 'TimeGroupStatic5setDt' in nm: models[nm] = lambda *a: None
    # a step of a group may only be closed while none of its work is under way
    s = c.session([m], models)
    it = s.it
    for i, n in enumerate(gh): s.put('gh', off[n], V(n))
    for i in range(600): s.put('gh', 4096+8*i, A.FALSE)
    c.need(s.call('mk', nt), f'scheduler cannot be set up: {s.why}')
    tptr = {}
    for t in range(nt):
        s.call('full', t, (tot[t] // 2**0) - 2**(nt-1-t))
        for e in range(ent): s.call('setc', t, e, V(f'c{t}_{e}'))
        s.call('sett', t, *[V(f't{t}_{k}') for k in range(7)])
    # locate the step counters: the cells holding the variable put there
    for o_, mem in s.st.mem.items():
        for off_, cell in mem.cells.items():
            for t in range(nt):
                if cell[1] is V(f't{t}_0') and cell[0] == 8: tptr[t] = I.Ptr(o_, off_)
    c.need(len(tptr) == nt, 'step counters not found')
    c.need(s.call('sched'), f'scheduler pass does not return: {s.why}')
    outs = {}
    for t in range(nt):
        for e in range(ent): s.call('getc_', t, e); outs[f'c{t}_{e}'] = I.term(s.ret)
        for k in range(7): s.call('gett', t, k); outs[f't{t}_{k}'] = I.term(s.ret)
    for n in gh: outs[n] = rdg(it, s.st, n)
    s.call('fin'); outs['finished'] = s.ret if isinstance(s.ret, A.T) else (A.TRUE if s.ret else A.FALSE)
    cs = s.st.wr(it.inputs['gh']).cells
    for n, o_ in vio.items(): outs['!'+n] = cs[o_][1]
    return dict(nt=nt, tot=tot, ent=ent, nr=nr, roles=roles, comm=comm, state=names+gh, env=env, outs=outs, vio=list(vio), eq=eq, K=K)
def codegen(x):
    """the extracted transition as straight-line code over the abstract words"""
    ln = []; nm = {}
    def go(t):
        if t.id in nm: return nm[t.id]
        st = [t]
        while st:
            y = st[-1]
            if y.id in nm: st.pop(); continue
            ch = [z for z in y.a if isinstance(z, A.T)]
            todo = [z for z in ch if z.id not in nm]
            if todo: st.extend(todo); continue
            st.pop(); op = y.op; q = [nm[z.id] for z in ch]
            if op == 'c':
                if y.a[0].denominator != 1: raise H.Broken('fraction in a scheduler word')
                nm[y.id] = str(int(y.a[0])); continue
            if op == 'v': nm[y.id] = y.a[0]; continue
            if op in ('true', 'false'): nm[y.id] = op.capitalize(); continue
            if op == '+': e = f'{q[0]}+{q[1]}'
            elif op == '*': e = f'{q[0]}*{q[1]}'
            elif op == 'gt0': e = f'{q[0]}>0'
            elif op == 'ge0': e = f'{q[0]}>=0'
            elif op == 'eq0': e = f'{q[0]}==0'
            elif op == 'not': e = f'not {q[0]}'
            elif op == 'and': e = f'{q[0]} and {q[1]}'
            elif op == 'ite': e = f'{q[1]} if {q[0]} else {q[2]}'
            elif op == 'fn' and y.a[0] == 'imod': e = f'{q[0]}%{q[1]}'
            elif op == 'fn' and y.a[0] == 'idiv': e = f'{q[0]}//{q[1]}'
            elif op == 'fn' and y.a[0] == 'bitand': e = f'{q[0]}&{q[1]}'
            else: raise H.Broken(f'scheduler term {A.show(y, 3)}')
            n = f'x{len(nm)}'; ln.append(f' {n}={e}'); nm[y.id] = n
        return nm[t.id]
    outs = x['outs']
    so = [go(outs[n]) for n in x['state']]; vo = [go(outs['!'+n]) for n in x['vio']]; f = go(outs['finished'])
    src = f'def f(S,E):\n ({",".join(x["state"])},)=S\n ({",".join(x["env"])},)=E\n' + '\n'.join(ln) + f'\n return ({",".join(so)},),({",".join(vo)},),{f}\n'
    d = {}; exec(compile(src, 'sched', 'exec'), d); return d['f']
def fix(x, coarse):
    """typestate fixpoint: all reachable words of scheduler and protocol"""
    f = codegen(x); nt, nr, ent, tot, comm = x['nt'], x['nr'], x['ent'], x['tot'], x['comm']
    si = {n: i for i, n in enumerate(x['state'])}; ei = {n: i for i, n in enumerate(x['env'])}
    S0 = tuple(-1 if n[0] == 'c' else 0 for n in x['state']); E0 = (0,)*len(x['env'])
    jobs = [(si[f'L{t}_{r}'], ei[f'D{t}_{r}'], t) for t in range(nt) for r in range(nr)] + ([(si[f'{a}{t}'], ei[f'{a}d{t}'], t) for t in range(nt) for a in 'SR'] if comm else [])
    seen = {(S0, E0)}; todo = [(S0, E0)]; viol = {}; n = 0; finals = 0
    ts = [(si[f't{t}_0'], [(si[f'L{t}_{r}'], ei[f'D{t}_{r}']) for r in range(nr)]) for t in range(nt)]
    while todo:
        S, E = todo.pop(); n += 1
        if n > 400000: return n, {'the state space of the scheduler does not stay finite': ''}, finals
        S2, vo, fin = f(S, E)
        for v, name in zip(vo, x['vio']):
            if v: viol.setdefault(name, f'state {dict((k, S[i]) for k, i in si.items())} completed {dict((k, E[i]) for k, i in ei.items())}')
        for t, (i, rs) in enumerate(ts):
            if S2[i] != S[i] and (any(S[l] > E[d] for l, d in rs) or any(E[d] < S2[i] for l, d in rs) or S2[i] != S[i]+1):
                viol.setdefault(f'group {t}: step closed while work of it is missing or under way', f'step {S[i]} -> {S2[i]}, launched {[S[l] for l, d in rs]}, complete {[E[d] for l, d in rs]}')
        moves = [(l, d, t) for l, d, t in jobs if S[l] > E[d]]
        nx = []
        if fin:
            finals += 1
            for t in range(nt):
                if any(E[ei[f'D{t}_{r}']] != tot[t] or S2[si[f'L{t}_{r}']] != tot[t] for r in range(nr)): viol.setdefault(f'group {t}: finished before all steps are complete', f'{E}')
                if S2[si[f't{t}_0']] != tot[t]: viol.setdefault(f'group {t}: finished with a wrong number of steps', f'{S2}')
                if comm and (S2[si[f'S{t}']] != tot[t] or S2[si[f'R{t}']] != tot[t]): viol.setdefault(f'group {t}: finished with messages missing', f'{S2}')
                if comm and (E[ei[f'Sd{t}']] != tot[t] or E[ei[f'Rd{t}']] != tot[t]): viol.setdefault(f'group {t}: finished with messages under way', f'{E}')
        else:
            if S2 == S and not moves: viol.setdefault('the scheduler is stuck before all steps are complete', f'state {dict((k, S[i]) for k, i in si.items())}')
            if S2 != S: nx.append((S2, E))
        if coarse:
            for g in range(nt):
                mv = [d for l, d, t in moves if t == g]
                if mv: E2 = list(E); [E2.__setitem__(d, E2[d]+1) for d in mv]; nx.append((S, tuple(E2)))
        else:
            for l, d, t in moves: E2 = list(E); E2[d] += 1; nx.append((S, tuple(E2)))
        for y in nx:
            if y not in seen: seen.add(y); todo.append(y)
        if len(viol) > 8: break
    if not finals and not viol: viol['the scheduler never finishes'] = ''
    return n, viol, finals
FL = {'seismic': ('elastic', 'TET4', 2, 64, 1), 'advection': ('advection', 'TRIA3', 2, 64, 1), 'swe': ('swe', 'QUAD4R', 1, 64, 1)}
INC = {'seismic': 'src/impl/seismic/inc/time/man_sched.inc', 'advection': 'src/impl/advection/inc/time/man_sched.inc', 'swe': 'src/impl/swe/inc/time/man_sched.inc'}
def body(c):
    fl = {k: B.edge_flags(*v) for k, v in FL.items()}
    c.prefetch([(None, v, TXT) for v in fl.values()])
    c.rule('guard', 'a step or message is launched only once everything it reads is complete and everything it overwrites is consumed, and only once per time step')
    c.rule('live', 'whatever the order in which work and messages complete, the scheduler never gets stuck and finishes with all steps of all groups')
    mods = {k: c.driver(TXT, fl[k], k) for k in FL}
    confs = [('swe', 1, 0, 0), ('swe', 1, 2, 0), ('seismic', 1, 0, 0), ('seismic', 1, 3, 0), ('advection', 1, 0, 0), ('advection', 1, 3, 0), ('seismic', 2, 0, 0), ('seismic', 2, 1, 1), ('seismic', 2, 2, 1),
             ('advection', 2, 0, 0), ('advection', 2, 1, 0), ('advection', 2, 2, 1), ('seismic', 3, 0, 1), ('seismic', 3, 1, 1), ('advection', 3, 0, 0), ('advection', 3, 1, 1), ('seismic', 4, 0, 1), ('advection', 4, 0, 1)]
    if c.tier == 'thorough': confs += [('seismic', 2, 1, 0), ('advection', 2, 3, 0), ('advection', 3, 2, 1), ('seismic', 3, 2, 1)]
    xs = [(extract(c, mods[eq], eq, nt, K), co) for eq, nt, K, co in confs]
    tot = 0
    import multiprocessing as mp
    global XS; XS = xs
    with mp.get_context('fork').Pool(8) as p: res = p.map(work, range(len(xs)), 1)
    for (x, co), (n, viol, finals) in zip(xs, res):
        if os.environ.get('VP_DBG'): print(x['eq'], x['nt'], x['K'], co, n, finals)
        T = f'{x["eq"]}, {x["nt"]} time groups, {x["tot"]} steps{", work of a group completes together" if co else ""}'
        for v in x['vio']: c.holds('guard', v not in viol, f'{T}: {v}', f'{INC[x["eq"]]}: {v}; {viol.get(v, "")[:900]}')
        for v in [k for k in viol if k not in x['vio']]: c.holds('guard' if 'group' in v else 'live', False, f'{T}: {v}', f'{INC[x["eq"]]}: {v}; {viol[v][:900]}')
        c.holds('live', finals > 0, f'{T}: finishes', f'{INC[x["eq"]]}: no state of {n} finishes')
        c.holds('live', not [k for k in viol if k not in x['vio']], f'{T}: progress in {n} states', f'{INC[x["eq"]]}: {list(viol)}')
        tot += n
    c.notes.append(f'{tot} states')
    return c.finish(f'Typestate fixpoint over the transition of one scheduler pass, extracted as terms from the scheduling code of all equations: {tot} reachable words of the scheduler and of the work and message protocol.',
                    ['work packages follow the protocol decided by C14', 'messages under way complete', 'up to three rate-2 time groups and three synchronisation-free cycles'], min_obl=200)
def work(i): return fix(*XS[i])
if __name__ == '__main__': H.main('C13', body)
