import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); 
from engine import harness as H, build as B, algebra as A, absint as I
TXT = r'''
#include <new>
#include <limits>
#include <mpi.h>
#include "constants.hpp"
#include "parallel/global.h"
#include "parallel/global.cpp"
#include "parallel/Distributed.cpp"
#include "parallel/MpiRemix.cpp"
#include "parallel/Gaspi.cpp"
#include "time/TimeGroupStatic.cpp"
using namespace edge;
using parallel::MpiRemix; using parallel::Gaspi; using parallel::Distributed;
alignas(64) static char bM[sizeof(MpiRemix)], bG[sizeof(Gaspi)], bI[sizeof(data::Internal)], bT[sizeof(time::TimeGroupStatic)], bY[sizeof(data::Dynamic)], bR[sizeof(io::Receivers)];
#define M ((MpiRemix*) bM)
#define G ((Gaspi*) bG)
#define T ((time::TimeGroupStatic*) bT)
static Distributed *d;
extern "C" {
  int rank() { return parallel::g_rank; }
  void mkM() { d = new (bM) MpiRemix( 0, nullptr ); }
  void mkG() { d = new (bG) Gaspi( 0, nullptr ); }
  void initM( unsigned short nTg, unsigned short nFa, unsigned long nEl, unsigned long nBy, unsigned long *cs, unsigned short *sf, unsigned long *se, unsigned short *rf, unsigned long *re, unsigned long it ) { M->init( nTg, nFa, nEl, nBy, cs, sf, se, rf, re, *(data::Dynamic*) bY, it ); }
  void initG( unsigned short nTg, unsigned short nFa, unsigned long nEl, unsigned long nBy, unsigned long *cs, unsigned short *sf, unsigned long *se, unsigned short *rf, unsigned long *re ) { G->init( nTg, nFa, nEl, nBy, cs, sf, se, rf, re, *(data::Dynamic*) bY ); }
  void sendsM( bool lt, unsigned short tg ) { M->beginSends( lt, tg ); }   void recvsM( bool lt, unsigned short tg ) { M->beginRecvs( lt, tg ); }
  void sendsG( bool lt, unsigned short tg ) { G->beginSends( lt, tg ); }   void recvsG( bool lt, unsigned short tg ) { G->beginRecvs( lt, tg ); }
  bool finSM( bool lt, unsigned short tg ) { return M->finSends( lt, tg ); } bool finRM( bool lt, unsigned short tg ) { return M->finRecvs( lt, tg ); }
  bool finRG( bool lt, unsigned short tg ) { return G->finRecvs( lt, tg ); }
  void commM() { M->comm(); }
  void resetD() { d->reset(); }
  void syncd( unsigned long nCh, unsigned long nFa, unsigned char const *s, unsigned char *r ) { d->syncData( nCh, nFa, s, r ); }
  void minD( unsigned long n, double *v, unsigned short *o ) { Distributed::min( n, v, o ); }
  int nCB() { return d->nCommBuffers(); }
  void step( unsigned short nTg, unsigned short tg, unsigned long u, int st ) { new (bT) time::TimeGroupStatic( nTg, tg, *(data::Internal*) bI, d->nCommBuffers(), d->getSendPtrs(), d->getRecvPtrs() ); T->m_nTsSync = u; int_el sp[8] = {0}; T->computeStep( st, 0, 0, sp, *(io::Receivers*) bR ); }
  void tabS( unsigned char ** p, unsigned long i, unsigned char **o ) { *o = p[i]; }
}
'''
# worlds: rank -> channels (own group, adjacent rank, adjacent group, faces)
W = {'3 ranks, 3 groups': (3, [[(0, 1, 0, 2), (0, 1, 1, 1), (0, 2, 0, 1), (1, 1, 0, 2), (1, 2, 2, 1), (2, 2, 1, 3)], [(0, 0, 0, 2), (0, 0, 1, 2), (1, 0, 0, 1)], [(0, 0, 0, 1), (1, 0, 2, 3), (2, 0, 1, 1)]]),
     '2 ranks, 1 group': (1, [[(0, 1, 0, 4)], [(0, 0, 0, 4)]]),
     '2 ranks, other order': (2, [[(1, 1, 0, 1), (0, 1, 1, 2), (1, 1, 1, 2)], [(1, 0, 1, 2), (1, 0, 0, 2), (0, 0, 1, 1)]]),
     'no neighbours': (2, [[]])}
NFA, NBY = 4, 24
DI, MR, GA = 'src/parallel/Distributed.cpp', 'src/parallel/MpiRemix.cpp', 'src/parallel/Gaspi.cpp'
class Rank:
    """one rank of a world: the abstract state of its communication object and the log of the messages it starts"""
    def __init__(s, c, m, wn, r, kind, names, deliver=None):
        s.c, s.r, s.kind = c, r, kind; nTg, chs = W[wn]; s.nTg, s.chs, s.nr = nTg, chs[r], len(chs)
        s.log = []; s.req = {}; s.done = lambda k: True; s.cap = None; s.mail = []; s.deliver = deliver; s.got = {}; s.segs = {}; s.writes = []; s.arr = set(); s.waits = []; s.n = 0; s.sizes = {}
        i_ = lambda v: int(v.a[0]) if isinstance(v, A.T) else v
        def isend(it, i, a, st):
            s.n += 1; s.log.append(('S', a[0], i_(a[1]), i_(a[3]), i_(a[4]))); s.req[s.n] = s.log[-1]; st.wr(a[6].o).cells[a[6].off] = (8, s.n, 'i')
            if s.mailing: s.mail.append((i_(a[3]), i_(a[4]), [it.load(st, I.Ptr(a[0].o, a[0].off+8*k), s.i64) for k in range(i_(a[1])//8)]))
            return 0
        def irecv(it, i, a, st):
            s.n += 1; s.log.append(('R', a[0], i_(a[1]), i_(a[3]), i_(a[4]))); s.req[s.n] = s.log[-1]; st.wr(a[6].o).cells[a[6].off] = (8, s.n, 'i')
            if s.mailing and s.deliver:
                k = s.got.get((i_(a[3]), i_(a[4])), 0); s.got[(i_(a[3]), i_(a[4]))] = k+1
                for j, v in enumerate(s.deliver(i_(a[3]), i_(a[4]), k) or []): st.wr(a[0].o).cells[a[0].off+8*j] = (8, v, 'i')
            return 0
        def test(it, i, a, st):
            v = it.load(st, a[0], s.i64); v = i_(v)
            st.wr(a[1].o).cells[a[1].off] = (4, 1 if v == 0 or s.done(s.req.get(v)) else 0, 'i'); s.tests.append(v)
            return 0
        def waitall(it, i, a, st):
            s.log.append(('W', [i_(it.load(st, I.Ptr(a[1].o, a[1].off+8*k), s.i64)) for k in range(i_(a[0]))])); return 0
        def wrint(k, v):
            def f(it, i, a, st): st.wr(a[k].o).cells[a[k].off] = (s.w[k], v() if callable(v) else v, 'i'); return 0
            return f
        def out(k, v, w=4):
            def f(it, i, a, st): st.wr(a[k].o).cells[a[k].off] = (w, v, 'i'); return 0
            return f
        def alloc(it, i, a, st):
            p = I.m_alloc(it, i, [a[1]], st); s.sizes[p.o] = i_(a[1]); return p
        def allred(it, i, a, st):
            n = i_(a[2]); w, k = (8, 'f') if i_(a[3]) == 13 else (4, 'i')
            s.red.append([it.load(st, I.Ptr(a[0].o, a[0].off+w*j), it.mkty((w, 0, k))) for j in range(n)])
            s.redop.append((i_(a[3]), i_(a[4])))
            v = s.redval(len(s.red)-1, n)
            for j in range(n): st.wr(a[1].o).cells[a[1].off+w*j] = (w, v[j], k)
            return 0
        def seg(it, i, a, st): s.segs[i_(a[0])] = (a[1], i_(a[2])); return 0
        def write(it, i, a, st): s.writes.append([i_(x) for x in a[:7]]); return 0
        def wsome(it, i, a, st):
            k = (i_(a[0]), i_(a[1])); s.waits.append(k)
            if k in s.arr: st.wr(a[3].o).cells[a[3].off] = (2, k[1], 'i'); return 0
            return 1
        def nreset(it, i, a, st): s.arr.discard((i_(a[0]), i_(a[1]))); st.wr(a[2].o).cells[a[2].off] = (4, 1, 'i'); return 0
        ok = lambda *a: 0
        mo = {'MPI_Isend': isend, 'MPI_Irecv': irecv, 'MPI_Test': test, 'MPI_Waitall': waitall, 'MPI_Allreduce': allred, 'MPI_Initialized': out(0, 1), 'MPI_Comm_size': out(1, s.nr), 'MPI_Comm_rank': out(1, r), 'MPI_Get_version': ok, 'MPI_Barrier': ok, 'MPI_Init': ok, 'MPI_Init_thread': ok,
              'gaspi_proc_init': ok, 'gaspi_proc_rank': out(0, r, 2), 'gaspi_proc_num': out(0, s.nr, 2), 'gaspi_version': ok, 'gaspi_queue_size_max': out(0, 64), 'gaspi_queue_size': out(1, 0), 'gaspi_queue_num': out(0, 2), 'gaspi_wait': ok, 'gaspi_segment_use': seg, 'gaspi_notification_num': out(0, 4096),
              'gaspi_write_notify': write, 'gaspi_notify_waitsome': wsome, 'gaspi_notify_reset': nreset, '_ZN4edge4data7Dynamic8allocateEmmbb': alloc}
        for nm, k in names.items():
            def cap(it, i, a, st, k=k): s.cap = a[k]
            mo[nm] = cap
        s.s = c.session([m], mo); s.i64 = s.s.it.mkty((8, 0, 'i')); s.mailing = False; s.tests = []; s.red = []; s.redop = []; s.redval = lambda k, n: [A.var(f'red{k}[{j}]') for j in range(n)]
        x = s.s
        x.put('cs', 0, len(s.chs))
        for ch, q in enumerate(s.chs):
            for j, v in enumerate(q): x.put('cs', 8*(1+4*ch+j), v)
        # communicating faces: every face of a channel distinct, receive faces listed in the order of the sender
        s.nf = sum(q[3] for q in s.chs); s.nEl = s.nf+2
        s.send = [((3*k+1) % s.nEl, k % NFA) for k in range(s.nf)] if s.nEl % 3 else [((2*k+1) % s.nEl if s.nEl % 2 else k, k % NFA) for k in range(s.nf)]
        rv = []; k = 0
        for q in s.chs: rv += s.send[k:k+q[3]][::-1]; k += q[3]
        s.recv = rv
        for nm, l, w, j in (('sf', s.send, 2, 1), ('se', s.send, 8, 0), ('rf', s.recv, 2, 1), ('re', s.recv, 8, 0)):
            x.put(nm, 0, 0, w)
            for k, v in enumerate(l): x.put(nm, w*k, v[j], w)
        s.ok = x.call('mk'+kind)
        s.mailing = True
        s.ok = s.ok and x.call('init'+kind, nTg, NFA, s.nEl, NBY, 'cs', ('sf', 2), 'se', ('rf', 2), 're', *([2] if kind == 'M' else []))
        s.mailing = False; s.log = []
    def table(s, u, which):
        """pointers of all faces in the table a time step is given: (element, face) -> pointer or None"""
        s.cap = None
        if not s.s.call('step', s.nTg, 0, u, 0 if which == 'send' else s.nst): return None
        p = s.cap
        if not isinstance(p, I.Ptr): return None
        t = {}
        for el in range(s.nEl):
            for fa in range(NFA):
                if not s.s.call('tabS', p, el*NFA+fa, 'out'): return None
                t[el, fa] = s.s.it.load(s.s.st, I.Ptr(s.s.it.inputs['out'], 0), s.s.it.mkty((8, 0, 'p')))
        return t
def body(c):
    GF = lambda eq, el: B.edge_flags(eq, el, 2, 64, 1, extra=('-fno-inline', '-DPP_USE_MPI', f'-I{B.VERIF}/stubs_mpi', f'-I{B.VERIF}/stubs_gaspi'))
    fl = {'seismic': GF('elastic', 'TET4'), 'advection': GF('advection', 'TRIA3')}
    c.prefetch([(None, f, TXT) for f in fl.values()])
    c.rule('match', 'a message has the size and tag the adjacent rank expects and no two messages of a pair of ranks share a tag')
    c.rule('place', 'a face finds its own disjoint part of the message, at the same place on both sides; faces without remote neighbour have none')
    c.rule('buffer', 'a time step writes the buffer its message is sent from and reads the buffer the message it waits for is delivered to')
    c.rule('begin', 'the messages of a time group are started, those to slower groups only at the end of a pair of steps')
    c.rule('fin', 'messages of a time group are reported as complete exactly if all of them are')
    c.rule('sync', 'set-up data of a channel reaches the channel of the adjacent rank, and all of it before use')
    c.rule('min', 'exactly one rank owns a global minimum, and it attains it')
    mods = {k: c.driver(TXT, f, k) for k, f in fl.items()}
    for eq, m in mods.items():
        names = {}
        for nm in m.fns:
            if 'AderDg' in nm and '5local' in nm: names[nm] = 12 if eq == 'seismic' else 10
            if 'AderDg' in nm and '5neigh' in nm: names[nm] = 13
        c.need(len(names) == 2, f'{eq}: local and neighbouring step of the solver not found ({len(names)})')
        for wn in W:
            nr = len(W[wn][1])
            for kind in 'MG':
                NM = 'MPI' if kind == 'M' else 'GASPI'
                rk = [Rank(c, m, wn, r, kind, names) for r in range(nr)]
                if kind == 'G':
                    old = rk
                    rk = [Rank(c, m, wn, r, kind, names, deliver=lambda src, tag, k, r=r: ([v for d, t, v in old[src].mail if d == r and t == tag]+[None])[k]) for r in range(nr)]
                for x in rk: x.nst = 2 if eq == 'seismic' else 1
                key = f'{eq}, {NM}, {wn}'
                if not all([c.holds('begin', x.ok, f'{key}: set-up of rank {x.r}', f'{DI} init: {x.s.why}') for x in rk]): continue
                world(c, eq, kind, wn, rk, key, f'{MR if kind == "M" else GA}')
    setup(c, mods['seismic'])
    return c.finish('Message tables, buffers and step pointers of all ranks of small worlds, composed across ranks for the MPI and the GASPI transport over all steps of the buffer cycle, and the set-up exchange.', ['channels of both sides of a pair of ranks list the same faces in the same order', 'worlds of up to three ranks and three time groups', 'MPI and GASPI deliver messages as specified'], min_obl=500)
def rel(p, q): return p.off-q.off if isinstance(p, I.Ptr) and isinstance(q, I.Ptr) and p.o is q.o and isinstance(p.off, int) and isinstance(q.off, int) else None
def world(c, eq, kind, wn, rk, key, SRC):
    U = 8
    tabS = [[x.table(u, 'send') for u in range(U)] for x in rk]; tabR = [[x.table(u, 'recv') for u in range(U)] for x in rk]
    for x in rk:
        if not c.holds('buffer', all(t is not None for t in tabS[x.r]+tabR[x.r]), f'{key}: step pointers of rank {x.r}', f'src/time/TimeGroupStatic.cpp computeStep: no pointers are passed ({x.s.why})'): return
    # start every message of every step; MPI: memory of a message directly; GASPI: by segment and offset
    sent = [{} for _ in rk]; recv = [{} for _ in rk]
    for x in rk:
        for tg in range(x.nTg):
            x.s.call('resetD')
            for u in range(U):
                for lt in ([u % 2 == 1] if kind == 'G' else [False, True]):
                    x.log = []; x.writes = []
                    want = [ch for ch, q in enumerate(x.chs) if q[0] == tg and (q[0] >= q[2] or lt)]
                    k2 = f'{key}: rank {x.r} group {tg} step {u} {"with" if lt else "without"} slower neighbours'
                    if not c.holds('begin', x.s.call('sends'+kind, A.TRUE if lt else A.FALSE, tg), k2, f'{SRC} beginSends: {x.s.why}'): continue
                    got = [(l[3], l[4]) for l in x.log] if kind == 'M' else [(w[2], w[6]) for w in x.writes]
                    if not c.holds('begin', len(got) == len(want) and sorted(g[0] for g in got) == sorted(x.chs[ch][1] for ch in want), k2, f'{SRC} beginSends: messages to {got}, expected to ranks {[x.chs[ch][1] for ch in want]}'): continue
                    if lt != (u % 2 == 1) and any(x.chs[ch][0] < x.chs[ch][2] for ch in want): continue
                    if kind == 'M':
                        for l in x.log: sent[x.r].setdefault((tg, u), []).append(dict(mem=l[1], size=l[2], rank=l[3], tag=l[4])) if lt == (u % 2 == 1) else None
                    else:
                        for w in x.writes:
                            base, sz = x.segs.get(w[0], (None, 0)); c.holds('place', base is not None and isinstance(w[1], int) and w[1]+w[5] <= sz, k2, f'{SRC}: [{w[1]},+{w[5]}) leaves the segment of {sz} bytes')
                            if base is None: return
                            y = rk[w[2]]; rb, rs = y.segs.get(w[3], (None, 0))
                            if not c.holds('place', rb is not None and isinstance(w[4], int) and w[4]+w[5] <= rs, k2+' remote', f'{SRC}: [{w[4]},+{w[5]}) leaves the remote segment of {rs} bytes'): return
                            sent[x.r].setdefault((tg, u), []).append(dict(mem=I.Ptr(base.o, base.off+w[1]), size=w[5], rank=w[2], rmem=I.Ptr(rb.o, rb.off+w[4]), seg=w[3], note=w[6]))
                # receives: the first step of a group waits for slower neighbours, too
                for lt in ([u % 2 == 0] if kind == 'G' else [False, True]):
                    x.log = []; want = [ch for ch, q in enumerate(x.chs) if q[0] == tg and (q[0] >= q[2] or lt)]
                    k2 = f'{key}: rank {x.r} group {tg} receives of step {u} {"with" if lt else "without"} slower neighbours'
                    if not c.holds('begin', x.s.call('recvs'+kind, A.TRUE if lt else A.FALSE, tg), k2, f'{SRC} beginRecvs: {x.s.why}'): continue
                    if kind == 'M':
                        got = [(l[3], l[4]) for l in x.log]
                        c.holds('begin', len(got) == len(want) and sorted(g[0] for g in got) == sorted(x.chs[ch][1] for ch in want), k2, f'{SRC} beginRecvs: messages from {got}, expected from ranks {[x.chs[ch][1] for ch in want]}')
                        if lt == (u % 2 == 0):
                            for l in x.log: recv[x.r].setdefault((tg, u), []).append(dict(mem=l[1], size=l[2], rank=l[3], tag=l[4]))
                    else:
                        # notifications the step waits for, one after another in an unfavourable order
                        x.arr = set(); x.waits = []; L = A.TRUE if lt else A.FALSE
                        x.s.call('finRG', L, tg); fin0 = x.s.ret; w = list(dict.fromkeys(x.waits))
                        c.holds('fin', (fin0 is A.TRUE or fin0 == 1) == (not want), k2, f'{SRC} finRecvs: {"complete" if want else "not complete"} although {len(want)} notifications are missing')
                        if not c.holds('begin', len(w) == len(want), k2, f'{SRC} finRecvs: waits for notifications {w}, expected {len(want)}'): return
                        for n, k in enumerate(reversed(w)):
                            x.arr = {k}; x.s.call('finRG', L, tg); f = x.s.ret
                            c.holds('fin', (f is A.TRUE or f == 1) == (n == len(w)-1) and not x.arr, k2+f' notification {n}', f'{SRC} finRecvs: after {n+1} of {len(w)} notifications: complete is {f}, notification reset {not x.arr}')
                        recv[x.r][tg, u] = w
    # composition across ranks
    for x in rk:
        base = 0
        seen = {}
        for ch, (tg, ra, tr, n) in enumerate(x.chs):
            y = rk[ra]; ych = [j for j, q in enumerate(y.chs) if q[:3] == (tr, x.r, tg)]; ych = ych[0]; yb = sum(q[3] for q in y.chs[:ych])
            sf = x.send[base:base+n]; rf = y.recv[yb:yb+n]; base += n
            fb = NBY*(2 if tg > tr else 1)
            for u in range(U):
                if tg < tr and u % 2 == 0: continue
                ws = [u] if tg == tr else [2*u, 2*u+1] if tg > tr else [u//2]
                ws = [w for w in ws if w < U]
                if not ws: continue
                k2 = f'{key}: rank {x.r} group {tg} step {u} to rank {ra} group {tr}'
                # the message that carries the data of the faces of this step
                cand = [s for s in sent[x.r].get((tg, u), []) if s['rank'] == ra and all(rel(tabS[x.r][u][f], s['mem']) is not None and 0 <= rel(tabS[x.r][u][f], s['mem']) and rel(tabS[x.r][u][f], s['mem'])+fb <= s['size'] for f in sf)]
                if not c.holds('buffer', len(cand) == 1, k2, f'{SRC}: {len(cand)} messages started after the step contain the memory it writes for the {n} faces'): return
                s = cand[0]; offs = [rel(tabS[x.r][u][f], s['mem']) for f in sf]
                c.holds('match', s['size'] == n*fb, k2, f'{DI} init: {s["size"]} bytes for {n} faces of {fb} bytes')
                c.holds('place', all(abs(a-b) >= fb for i, a in enumerate(offs) for b in offs[:i]), k2, f'{DI} init: faces overlap at {offs}')
                for w in ws:
                    if kind == 'M':
                        rw = w if w % 2 == 0 or tr >= tg else w-1
                        rc = [r for r in recv[ra].get((tr, rw), []) if r['rank'] == x.r and r['tag'] == s['tag']]
                        if not c.holds('match', len(rc) == 1, k2, f'{DI} init: {len(rc)} receives for the message with tag {s["tag"]}'): return
                        if not c.holds('match', rc[0]['size'] == s['size'], k2, f'{DI} init: {s["size"]} bytes are sent, {rc[0]["size"]} received'): return
                        rm = rc[0]['mem']
                    else:
                        rm = s['rmem']; rw = w if w % 2 == 0 or tr >= tg else w-1
                        if not c.holds('match', (s['seg'], s['note']) in recv[ra].get((tr, rw), []), k2, f'{SRC}: the notification {(s["seg"], s["note"])} is not among those the step waits for: {recv[ra].get((tr, rw))}'): return
                    for f, g, o in zip(sf, rf, offs):
                        ro = rel(tabR[ra][w][g], rm)
                        if not c.holds('buffer', ro == o, k2+f' read in step {w}', f'src/time/TimeGroupStatic.cpp computeStep, {DI}: face {g} of rank {ra} reads at offset {ro} of the message in step {w}; the data is delivered at {o} (pointer {tabR[ra][w][g]}, message {rm})'): break
            if kind == 'M':
                for u in range(U):
                    tags = [s['tag'] for s in sent[x.r].get((tg, u), []) if s['rank'] == ra]; seen.setdefault(ra, {}).setdefault(tg, set()).update(tags)
        if kind == 'M':
            for ra, d in seen.items():
                al = [t for v in d.values() for t in v]; nch = len({q[:3] for q in x.chs if q[1] == ra})
                c.holds('match', len(al) == len(set(al)) == nch, f'{key}: tags from rank {x.r} to {ra}', f'{DI} init: tags {d} for {nch} channels')
        for u in range(U):
            for nm, t, fs in (('send', tabS[x.r][u], x.send), ('receive', tabR[x.r][u], x.recv)):
                bad = [f for f, p in t.items() if (f in fs) != isinstance(p, I.Ptr)]
                c.holds('place', not bad, f'{key}: {nm} pointers of rank {x.r} in step {u}', f'{DI} init: faces {bad[:4]} {"have no" if bad and bad[0] in fs else "have a"} {nm} pointer')
        # memory of messages: disjoint and inside of the allocated buffer
        for nm, log in (('send', sent[x.r]), ('receive', recv[x.r] if kind == 'M' else {})):
            for u in range(2):
                l = [(s['mem'], s['size']) for (tg, v), ss in log.items() if v % 2 == u for s in ss]; l = list({(id(p.o), p.off): (p, z) for p, z in l}.values())
                bad = [1 for i, (p, z) in enumerate(l) for q, y in l[:i] if rel(p, q) is not None and rel(p, q) < y and -rel(p, q) < z]
                c.holds('place', not bad and all(0 <= p.off and p.off+z <= x.sizes.get(p.o, 0) for p, z in l), f'{key}: {nm} memory of rank {x.r}', f'{DI} init: messages overlap or leave their buffer: {[(p.off, z) for p, z in l]} of {[x.sizes.get(p.o) for p, z in l][:1]}')
    # completion
    if kind == 'M':
        T = lambda v: v is A.TRUE or v == 1
        for x in rk:
            for tg in range(x.nTg):
                for nm, b, f, j in (('sends', 'sendsM', 'finSM', 'S'), ('receives', 'recvsM', 'finRM', 'R')):
                    mine = [ch for ch, q in enumerate(x.chs) if q[0] == tg]
                    for miss in [None]+mine:
                        for lt in (False, True):
                            x.done = lambda k: True
                            for t in range(x.nTg):
                                x.s.call('sendsM', A.TRUE, t); x.s.call('recvsM', A.TRUE, t)
                            x.s.call('commM')
                            x.log = []; x.s.call(b, A.TRUE if lt else A.FALSE, tg); act = list(x.log)
                            k2 = f'{key}: {nm} of rank {x.r} group {tg}, missing {miss}, {"with" if lt else "without"} slower neighbours'
                            L = A.TRUE if lt else A.FALSE
                            x.s.call(f, L, tg); c.holds('fin', T(x.s.ret) == (not act), k2+' at start', f'{MR}: complete is {x.s.ret} right after {len(act)} messages are started')
                            q = x.chs[miss] if miss is not None else None
                            om = [l for l in act if q and l[3] == q[1]]
                            om = om[[z for z in mine if (x.chs[z][0] >= x.chs[z][2] or lt) and x.chs[z][1] == q[1]].index(miss)] if q and (q[0] >= q[2] or lt) and len(om) == len([z for z in mine if (x.chs[z][0] >= x.chs[z][2] or lt) and x.chs[z][1] == q[1]]) else None
                            x.done = lambda k, om=om: om is None or k is not om
                            for _ in range(3): x.s.call('commM')
                            x.s.call(f, L, tg)
                            c.holds('fin', T(x.s.ret) == (om is None), k2, f'{MR}: complete is {x.s.ret}')
                            x.done = lambda k: True
                            x.s.call('commM'); x.s.call(f, L, tg)
                            c.holds('fin', T(x.s.ret), k2+' at the end', f'{MR}: messages never complete')
def setup(c, m):
    wn = '3 ranks, 3 groups'
    rk = [Rank(c, m, wn, r, 'M', {}) for r in range(3)]
    for nCh, nFa in ((8, 0), (0, 16), (8, 8), (2, 6)):
        for x in rk:
            x.log = []; x.n = 0
            k = f'{nCh} bytes per channel, {nFa} per face, rank {x.r}'
            if not c.holds('sync', x.s.call('syncd', nCh, nFa, ('sd', 1), ('rd', 1)), k, f'{DI} syncData: {x.s.why}'): return
        for x in rk:
            S = [l for l in x.log if l[0] == 'S']; R = [l for l in x.log if l[0] == 'R']; Wt = [j for l in x.log if l[0] == 'W' for j in l[1]]
            k = f'{nCh} bytes per channel, {nFa} per face, rank {x.r}'
            c.holds('sync', sorted(Wt) == list(range(1, 2*len(x.chs)+1)), k, f'{DI} syncData: waits for requests {sorted(Wt)} of {2*len(x.chs)}')
            if not c.holds('sync', len(S) == len(R) == len(x.chs), k, f'{DI} syncData: {len(S)} sends and {len(R)} receives'): continue
            for nm, l, name in (('sends', S, 'sd'), ('receives', R, 'rd')):
                off = 0
                for ch, q in enumerate(x.chs):
                    z = nCh+q[3]*nFa
                    got = [e for e in l if isinstance(e[1], I.Ptr) and e[1].o is x.s.it.inputs[name] and e[1].off == off and e[2] == z and e[3] == q[1]]
                    c.holds('sync', len(got) >= 1, f'{k}, channel {ch} {nm}', f'{DI} syncData: no message of {z} bytes at offset {off} with rank {q[1]}: {[(str(e[1].off), e[2], e[3]) for e in l]}'); off += z
            for ch, q in enumerate(x.chs):
                y = rk[q[1]]; j = [j for j, p in enumerate(y.chs) if p[:3] == (q[2], x.r, q[0])][0]
                s = S[ch]; r = [l for l in y.log if l[0] == 'R'][j]
                c.holds('sync', s[4] == r[4] and s[2] == r[2] and s[3] == y.r and r[3] == x.r, f'{k}, channel {ch} to channel {j} of rank {y.r}', f'{DI} syncData: sent with (size, rank, tag) {s[2:]}, received with {r[2:]}')
    for vals in ([[1, 5, 3], [2, 5, 1], [3, 5, 2]], [[4, 2, 2], [3, 3, 1], [3, 2, 1]], [[-1, 0, 7], [-1, 0, 7], [-1, 0, 7]]):
        cols = list(zip(*vals)); mn = [min(x) for x in cols]
        bids = []
        for ph in range(2):
            outs = []
            for x in rk:
                x.red = []; x.redop = []
                for j, v in enumerate(vals[x.r]): x.s.put('v', 8*j, A.const(v), 8, 'f')
                x.redval = (lambda k, n, ph=ph: [A.const(v) for v in mn] if k == 0 else [min(b[j] for b in bids) for j in range(n)] if ph else [A.var(f'bid{j}') for j in range(n)])
                if not c.holds('min', x.s.call('minD', 3, 'v', ('o', 2)), f'{vals}', f'{DI} min: {x.s.why}'): return
                if not c.holds('min', len(x.red) == 2 and all(o[1] == 22 for o in x.redop), f'{vals}: reductions', f'{DI} min: reductions {x.redop}, expected two minima'): return
                if ph == 0: bids.append([int(v.a[0]) if isinstance(v, A.T) and A.isc(v) else v for v in x.red[1]])
                outs.append([x.s.int('o', j, 16) for j in range(3)])
        for j in range(3):
            own = [r for r in range(3) if outs[r][j] == 1]
            c.holds('min', len(own) == 1 and vals[own[0]][j] == mn[j] and all(o[j] in (0, 1) for o in outs), f'{vals} value {j}', f'{DI} min: ranks {own} own the minimum {mn[j]} of {cols[j]}')
if __name__ == '__main__': H.main('C16', body)
