import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
import itertools
TXT = r'''
#include <new>
#include "constants.hpp"
#include "parallel/Shared.h"
#include "parallel/global.h"
#include "parallel/global.cpp"
#include "parallel/Shared.cpp"
#include "parallel/LoadBalancing.cpp"
using edge::parallel::Shared;
alignas(64) static char buf[sizeof(Shared)];
#define S ((Shared*) buf)
struct chars { int_spType spType; };
extern "C" {
  void mk( int n, int off ) { new (buf) Shared; S->m_nWrks = n; S->m_wrkOff = off; S->m_balancing.init( n ); }
  void init( bool sep ) { new (buf) Shared; S->init( sep ); }
  void thr( int t ) { edge::parallel::g_thread = t; }
  void nthr( int t ) { edge::parallel::g_nThreads = t; }
  int nW() { return S->m_nWrks; }
  int roles() { return ( S->isWrk() ? 1 : 0 ) + ( S->isSched() ? 2 : 0 ) + ( S->isComm() ? 4 : 0 ); }
  int wrk() { return S->worker( edge::parallel::g_thread ); }
  void reg( int tg, int step, int id, unsigned long first, unsigned long size, int prio, int nTy, int_spType *ty, chars const *ch ) { S->regWrkRgn( tg, step, id, first, size, prio, nTy, ty, ch ); }
  bool get( unsigned short *tg, unsigned short *step, unsigned int *id, int_el *first, int_el *size, int_el *sp ) { return S->getWrkTd( *tg, *step, *id, *first, *size, sp ); }
  void lbget( int rg, int wo, int_el *first, int_el *size, int_el *sp ) { S->m_balancing.getWrkTd( rg, wo, *first, *size, sp ); }
  void ela( int rg, int wo, double e ) { S->m_balancing.m_wrkRgns[rg].wrkPkgs[wo].timer.m_elapsed = e; }
  void bal() { S->m_balancing.balance(); }
  void setAll( int st, int id ) { S->setStatusAll( (Shared::t_status) st, id ); }
  void setTd( int st, int id ) { S->setStatusTd( (Shared::t_status) st, id ); }
  bool getAll( int st, int id ) { return S->getStatusAll( (Shared::t_status) st, id ); }
  void reset( int st ) { S->resetStatus( (Shared::t_status) st ); }
  int gstat( int pos, int wo ) { return S->m_wrkRgns[pos].wrkPkgs[wo].status; }
  void sstat( int pos, int wo, int st ) { S->m_wrkRgns[pos].wrkPkgs[wo].status = (Shared::t_status) st; }
  void numa( unsigned long n, int *a ) { S->numaInit( n, a ); }
  void numaTg( unsigned short n, int const *in, int const *se, unsigned long v, int *a ) { S->numaInit( n, in, se, v, a ); }
}
extern "C" long long en[] = { Shared::RDY, Shared::IPR, Shared::FIN, Shared::WAI, sizeof(int_el) };
'''
class LB(I.Interp):
    """a truncated share of the work may come out as any number of entities: choices are taken from a list"""
    choice = None
    def cast(s, op, v, ft, tt):
        if op in ('fptosi', 'fptoui') and s.choice is not None and tt.w >= 32: return s.choice.pop(0)
        return super().cast(op, v, ft, tt)
SH, LBC = 'src/parallel/Shared', 'src/parallel/LoadBalancing.cpp'
def body(c):
    fl = B.edge_flags('elastic', 'TET4', 2, 64, 1); fo = B.edge_flags('elastic', 'TET4', 2, 64, 1, omp=True, extra=(f'-I{B.VERIF}/stubs_omp',))
    c.prefetch([(None, fl, TXT), (None, fo, TXT)])
    m = c.driver(TXT, fl, 'shared'); mo = c.driver(TXT, fo, 'shared omp')
    c.rule('partition', 'the packages of a region are contiguous, disjoint, in order of the workers and together exactly the region')
    c.rule('sparse', 'a package starts at the sparse entities in front of its first entity')
    c.rule('status', 'statuses move waiting/finished -> ready -> in progress -> finished; any other move is refused')
    c.rule('own', 'a status change of a thread touches the own package of the given region only; a change of all touches all packages of that region only')
    c.rule('query', 'all packages are reported to have a status exactly if they have')
    c.rule('pick', 'a thread is given its own ready package of the highest priority (first registered first), with group, step and id of the region, and nothing if it has none')
    c.rule('roles', 'thread 0 schedules and communicates; workers are distinct and cover all packages')
    c.rule('numa', 'every entry of an array is initialised by exactly one worker')
    it = I.Interp([m]); o = it.glob_obj(m.globs['en'])
    RDY, IPR, FIN, WAI, IE = [it.load(I.State(), I.Ptr(o, 8*i), it.mkty((8, 0, 'i'))) for i in range(5)]
    T = lambda s: s.ret is A.TRUE or s.ret == 1
    def setup(n, off, regs, thread=0, cls=None, mod=m, models=None):
        s = c.session([mod], models, cls=cls); s.call('thr', thread); s.call('nthr', n-off); s.call('mk', n, off)
        return s
    # ---- partition: any integer shares, three classes of measured times
    spt = [1, 3, 0, 2, 3, 1, 3, 3, 0, 1, 3, 2]
    W = {'quick': 3, 'thorough': 4}[c.tier if c.tier == 'thorough' else 'quick']
    for n in range(1, W+1):
        for N, first in ((0, 2), (1, 3), (3, 0), (4, 2)) if n < 4 else ((3, 1),):
            cb = list(itertools.product(range(N+1), repeat=n))
            for ci, ch in enumerate(cb):
                s = setup(n, 0, [], cls=LB); it_ = s.it
                for i, v in enumerate(spt): s.put('ch', 8*i, v)
                s.put('ty', 0, 1); s.put('ty', 8, 2)
                fine = True
                for ph in range(3):
                    it_.choice = list(ch) + [0]*64
                    if ph == 0: ok = s.call('reg', 0, 0, 7, first, N, 0, 2, 'ty', 'ch'); nm = 'registration'
                    else:
                        es = [A.const(e) for e in ([1, 2, 3, 4] if ph == 1 else [5, 5, 5, 5])]
                        for w in range(n): s.call('ela', 0, w, es[w])
                        ok = s.call('bal'); nm = 'rebalancing' if ph == 1 else 'balanced run'
                    key = f'{nm} of {N} entities at {first} over {n} workers with shares {list(ch)}'
                    if not c.holds('partition', ok, key, f'{LBC}: no valid partition is reached ({s.why})'): fine = False; break
                    pos = first
                    pk = []
                    for w in range(n):
                        if not s.call('lbget', 0, w, ('f', IE), ('z', IE), ('sp', IE)): c.holds('partition', False, key, f'{LBC}: package of worker {w} cannot be read ({s.why})'); fine = False; break
                        f, z = s.int('f', 0, 8*IE), s.int('z', 0, 8*IE); pk.append((f, z))
                        if not c.holds('partition', f == pos and isinstance(z, int) and 0 <= z <= N, key, f'{LBC}: worker {w} gets [{f},{f}+{z}), expected to start at {pos}; packages {pk}'): fine = False; break
                        for t, bit in ((0, 1), (1, 2)):
                            e = sum(1 for x in spt[:f] if x & bit == bit)
                            g = s.int('sp', t, 8*IE)
                            if not c.holds('sparse', g == e, key, f'{LBC}: worker {w} starts at sparse entity {g} of type {t}, expected {e}'): fine = False; break
                        pos += z
                    if not fine: break
                    if not c.holds('partition', pos == first+N, key, f'{LBC}: the packages {pk} are not the region [{first},{first+N})'): fine = False; break
                if not fine: break
    # ---- status protocol with two regions and three workers
    regs = [(0, 0, 7, 1), (1, 2, 3, 5), (0, 1, 9, 5), (1, 1, 4, 0)]          # tg, step, id, prio; sorted by priority, first come first
    order = [1, 2, 0, 3]
    def world(thread, stats, off=0):
        s = setup(3, off, [], thread); s.call('thr', 0)
        for k, (tg, st, id_, pr) in enumerate(regs): s.call('reg', tg, st, id_, 10*k, 6, pr, 0, None, None)
        s.call('thr', thread)
        for p in range(4):
            for w in range(3): s.call('sstat', p, w, stats[p][w])
        return s
    rd = lambda s: [[(s.call('gstat', p, w), s.ret)[1] for w in range(3)] for p in range(4)]
    s = setup(3, 0, []); 
    for k, (tg, st, id_, pr) in enumerate(regs): s.call('reg', tg, st, id_, 10*k, 6, pr, 0, None, None)
    c.holds('status', all(x == WAI for r in rd(s) for x in r), 'registration', f'{SH}.h regWrkRgn: packages do not wait after registration')
    base = [[WAI, RDY, IPR], [FIN, FIN, FIN], [RDY, IPR, FIN], [IPR, WAI, RDY]]
    nmS = {RDY: 'ready', IPR: 'in progress', FIN: 'finished', WAI: 'waiting'}
    for off in (0, -1):
        for w in range(3):
            for p in range(4):
                for old in (RDY, IPR, FIN, WAI):
                    for new in (RDY, IPR, FIN, WAI):
                        st = [list(r) for r in base]; st[p][w] = old
                        s = world(w-off, st, off)
                        ok = s.call('setTd', new, regs[order[p]][2])
                        legal = (old, new) in ((RDY, IPR), (IPR, FIN))
                        key = f'worker {w} region {p}: {nmS[old]} to {nmS[new]}'
                        if not c.holds('status', ok == legal, key, f'{SH}.cpp setStatusTd: move is {"refused" if legal else "accepted"}'): continue
                        if ok:
                            st[p][w] = new; c.holds('own', rd(s) == st, key, f'{SH}.cpp setStatusTd: statuses {rd(s)}, expected {st}')
                        if off == 0 and w == 0:
                            for w2 in range(3):
                                st = [list(r) for r in base]; st[p] = [FIN, WAI, FIN]; st[p][w2] = old
                                s = world(1, st); ok = s.call('setAll', new, regs[order[p]][2]); legal = new == RDY and old in (FIN, WAI)
                                key = f'all of region {p}, worker {w2} {nmS[old]} to {nmS[new]}'
                                if not c.holds('status', ok == legal, key, f'{SH}.cpp setStatusAll: move is {"refused" if legal else "accepted"}'): continue
                                if ok: st[p] = [new]*3; c.holds('own', rd(s) == st, key, f'{SH}.cpp setStatusAll: statuses {rd(s)}, expected {st}')
                                st = [list(r) for r in base]; st[p] = [new]*3; st[p][w2] = old
                                s = world(2, st); s.call('getAll', new, regs[order[p]][2])
                                c.holds('query', T(s) == (old == new), f'region {p}, worker {w2} is {nmS[old]}, others {nmS[new]}', f'{SH}.cpp getStatusAll: answers {s.ret}')
    for new in (WAI, RDY):
        s = world(0, base); s.call('reset', new)
        c.holds('own', rd(s) == [[new]*3]*4, f'reset to {nmS[new]}', f'{SH}.cpp resetStatus: statuses {rd(s)}')
    # ---- picking of work
    for off in (0, -1):
        for w in range(3):
            for ready in itertools.product((0, 1), repeat=4):
                st = [[RDY]*3 for _ in range(4)]
                for p in range(4): st[p][w] = RDY if ready[p] else (IPR, FIN, WAI)[(p+w) % 3]
                s = world(w-off, st, off); key = f'worker {w} ready in {[p for p in range(4) if ready[p]]} offset {off}'
                if not c.holds('pick', s.call('get', ('tg', 2), ('stp', 2), ('id', 4), ('f', IE), ('z', IE), ('sp', IE)), key, f'{SH}.cpp getWrkTd: {s.why}'): continue
                first = next((p for p in range(4) if ready[p]), None)
                if first is None: c.holds('pick', not T(s), key, f'{SH}.cpp getWrkTd: gets work without any ready package'); continue
                k = order[first]; tg, sp_, id_, pr = regs[k]
                got = (T(s), s.int('tg', 0, 16), s.int('stp', 0, 16), s.int('id', 0, 32), s.int('f', 0, 8*IE), s.int('z', 0, 8*IE))
                c.holds('pick', got == (True, tg, sp_, id_, 10*k+2*w, 2), key, f'{SH}.cpp getWrkTd: (found, group, step, id, first, size) = {got}, expected {(True, tg, sp_, id_, 10*k+2*w, 2)}')
                c.holds('own', rd(s) == st, key+' untouched', f'{SH}.cpp getWrkTd: statuses change')
    # ---- roles, with the OpenMP team modelled by its threads
    for nt in (1, 2, 4):
        for sep in (0, 1):
            ws = []
            for t in range(nt):
                def fork(it_, i, a, st):
                    f = a[2].f if isinstance(a[2], I.FPtr) else None
                    for th in ([0] if t == 0 else [0, t]):
                        cur[0] = th
                        g = I.Obj('gtid', 'local'); st.wr(g).cells[0] = (4, th, 'i')
                        _, ns = it_.run_fn(it_.find_fn(f.name), [I.Ptr(g, 0), I.Ptr(g, 0)] + list(a[3:]), st); st = ns
                    it_._newst = st
                cur = [0]
                tn = lambda it_, i, a, st: cur[0]
                mods_ = {'__kmpc_fork_call': fork, 'omp_get_thread_num': tn, 'omp_get_num_threads': lambda *a: nt, '__kmpc_barrier': lambda *a: None, '__kmpc_global_thread_num': tn}
                s = c.session([mo], mods_); ok = s.call('init', A.TRUE if sep else A.FALSE)
                key = f'{nt} threads, thread {t}, {"separate" if sep else "joint"} workers'
                if not c.holds('roles', ok, key, f'{SH}.cpp init: {s.why}'): break
                s.call('nW'); nw = s.ret; s.call('roles'); r = s.ret; s.call('wrk'); w = s.ret
                en = nt-1 if sep and nt > 1 else nt; ew = t-1 if sep and nt > 1 else t
                c.holds('roles', nw == en, key+' number of workers', f'{SH}.cpp init: {nw} workers, expected {en}')
                c.holds('roles', (r & 1) == (ew >= 0) and (r & 6) == (6 if t == 0 else 0) and (ew < 0 or w == ew), key, f'{SH}.cpp: role bits {r}, worker {w}, expected worker {ew}')
    # ---- first-touch initialisation
    for nw, off in ((1, 0), (2, 0), (3, -1), (4, 0)):
        for N in (0, 1, 2, 3, 5, 7, 8, 12):
            cnt = [0]*(N+1); full = [0]*24
            for w in range(nw):
                s = setup(nw, off, [], w-off)
                if not c.holds('numa', s.call('numa', N, ('a', 4)), f'{N} over {nw}', f'{SH}.h numaInit: {s.why}'): break
                for i in range(N+1):
                    v = s.get('a', i, 'i', 32)
                    if A.isc(v) and v.a[0] == 0: cnt[i] += 1
            c.holds('numa', cnt == [1]*N+[0], f'{N} entries over {nw} workers', f'{SH}.h numaInit: entries are initialised {cnt} times')
        for tin, tse in (([3, 1], [2, 0]), ([0, 2, 1], [1, 1, 2])):
            tot = 2*(sum(tin)+sum(tse)); cnt = [0]*(tot+1)
            for w in range(nw):
                s = setup(nw, off, [], w-off)
                for i, v in enumerate(tin): s.put('in', 4*i, v, 4)
                for i, v in enumerate(tse): s.put('se', 4*i, v, 4)
                s.call('numaTg', len(tin), ('in', 4), ('se', 4), 2, ('a', 4))
                for i in range(tot+1):
                    v = s.get('a', i, 'i', 32)
                    if A.isc(v) and v.a[0] == 0: cnt[i] += 1
            c.holds('numa', cnt == [1]*tot+[0], f'groups {tin} {tse} over {nw} workers', f'{SH}.h numaInit: entries are initialised {cnt} times')
    return c.finish('Work regions with all integer shares the load balancing may compute, all statuses and moves of packages, all patterns of ready packages, worker roles and first-touch initialisation.',
                    ['regions of up to four entities, up to three workers (thorough: four)', 'truncated shares may be any number between zero and the size of the region', 'threads see a consistent state of the packages (flushes are not modelled)'], min_obl=2000)
if __name__ == '__main__': H.main('C14', body)
