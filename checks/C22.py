import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
import random
TXT = r'''
#include <new>
#include <algorithm>
#include <limits>
#include "mesh/Partition.cpp"
#include "mesh/Communication.cpp"
using namespace edge_v;
alignas(64) static char me[sizeof(mesh::Mesh)], pa[sizeof(mesh::Partition)], co[sizeof(mesh::Communication)];
#define P ((mesh::Partition*) pa)
#define C ((mesh::Communication*) co)
extern "C" {
  void mkp( unsigned short const *tg ) { new (pa) mesh::Partition( *(mesh::Mesh const*) me, tg ); }
  void kway( t_idx n ) { P->kWay( n ); }
  t_idx pn() { return P->nPas(); }
  void pget( t_idx ne, t_idx *e, t_idx *r, t_idx *n ) { for( t_idx i = 0; i < ne; i++ ) { e[i] = P->getElPa()[i]; r[i] = P->getElPr()[i]; } for( t_idx i = 0; i < P->nPas(); i++ ) n[i] = P->nPaEls()[i]; }
  void mkc( unsigned short nTg, int ty, t_idx ne, t_idx const *ad, t_idx np, t_idx const *n, unsigned short const *tg ) { new (co) mesh::Communication( nTg, (t_entityType) ty, ne, ad, np, n, tg ); }
  void cnt( t_idx p, t_idx nTg, t_idx *in, t_idx *se ) { for( t_idx i = 0; i < nTg; i++ ) { in[i] = C->nGroupElsIn( p )[i]; se[i] = C->nGroupElsSe( p )[i]; } }
  t_idx nch( t_idx p ) { return C->getStruct( p )[0]; }
  void chs( t_idx p, t_idx *o ) { for( t_idx i = 0; i < C->getStruct( p )[0]*4; i++ ) o[i] = C->getStruct( p )[1+i]; }
  t_idx nsr( t_idx p ) { return C->nSeRe( p ); }
  void ser( t_idx p, t_idx *se, t_idx *sf, t_idx *re, t_idx *rf ) { for( t_idx i = 0; i < C->nSeRe( p ); i++ ) { se[i] = C->getSendEl( p )[i]; sf[i] = C->getSendFa( p )[i]; re[i] = C->getRecvEl( p )[i]; rf[i] = C->getRecvFa( p )[i]; } }
}
'''
PP, CP = 'tools/edge_v/src/mesh/Partition.cpp', 'tools/edge_v/src/mesh/Communication.cpp'
TY = {'QUAD4R': (2, 4), 'TRIA3': (3, 3), 'HEX8R': (4, 6), 'TET4': (5, 4)}
def graph(rnd, n, nf, dens=3):
    """a random mesh: elements share at most one face"""
    ad = [[None]*nf for _ in range(n)]
    for _ in range(dens*n):
        x, y = rnd.randrange(n), rnd.randrange(n); fx = [f for f in range(nf) if ad[x][f] is None]; fy = [f for f in range(nf) if ad[y][f] is None]
        if x != y and fx and fy and y not in ad[x]: ad[x][rnd.choice(fx)] = y; ad[y][rnd.choice(fy)] = x
    return ad
def send(ad, pa, e): return any(a is not None and pa[a] != pa[e] for a in ad[e])
def put(s, ad, nf):
    for e, row in enumerate(ad):
        for f, a in enumerate(row): s.put('ad', 8*(nf*e+f), -1 if a is None else a, 8, 'i')
def tgs(s, tg):
    for e, t in enumerate(tg): s.put('tg', 2*e, t, 2, 'i')
def part(c, m, key, ty, nf, ad, tg, pas, npa):
    """pas: what the graph partitioner answers"""
    n = len(ad); seen = []
    def asm(it, st, p, k, sz):
        t = it.mkty((sz, 0, 'i')); return [it.load(st, I.Ptr(p.o, p.off+sz*i), t) for i in range(k)]
    def kw(it, i, a, st):
        if any(isinstance(a[k], I.Null) for k in (0, 1, 2, 3, 4, 7, 10, 12)): raise I.Bottom('the partitioner is called without data')
        nv, nc, np = asm(it, st, a[0], 1, 4)[0], asm(it, st, a[1], 1, 4)[0], asm(it, st, a[7], 1, 4)[0]
        xa = asm(it, st, a[2], n+1, 4); aj = asm(it, st, a[3], xa[-1] if isinstance(xa[-1], int) else 0, 4); vw = asm(it, st, a[4], n, 4)
        seen.append((nv, nc, np, xa, aj, vw)); t = it.mkty((4, 0, 'i'))
        for k in range(n): it.store(st, I.Ptr(a[12].o, a[12].off+4*k), pas[k], t)
        return 1
    mod = {'_ZNK6edge_v4mesh4Mesh9getTypeElEv': lambda it, i, a, st: ty, '_ZNK6edge_v4mesh4Mesh4nElsEv': lambda it, i, a, st: n, '_ZNK6edge_v4mesh4Mesh9getElFaElEv': lambda it, i, a, st: I.Ptr(it.inputs.get('ad') or it.input_obj('ad'), 0),
           'METIS_SetDefaultOptions': lambda it, i, a, st: 1, 'METIS_PartGraphKway': kw}
    s = c.session([m], models=mod); put(s, ad, nf); tgs(s, tg); T = max(tg)+1
    if not c.holds('partition', s.call('mkp', 'tg'), f'{key}: set-up', f'{PP}: {getattr(s, "why", "")}'): return
    def state(w, pa, k):
        if not c.holds('partition', s.call('pn') and s.ret == k, f'{key}: {w}: partitions', f'{PP}: {s.ret} partitions instead of {k}'): return
        if not c.holds('partition', s.call('pget', n, 'oe', 'or', 'on'), f'{key}: {w}: read', f'{PP}: {getattr(s, "why", "")}'): return
        e, r, z = ([s.int(x, i) for i in range(y)] for x, y in (('oe', n), ('or', n), ('on', k)))
        c.holds('partition', e == pa, f'{key}: {w}: assignment', f'{PP}: {e} instead of {pa}'); c.holds('partition', z == [pa.count(i) for i in range(k)], f'{key}: {w}: sizes', f'{PP}: {z} elements for {pa}')
        want = [(pa[i], send(ad, pa, i), tg[i]) for i in range(n)]
        ok = all(isinstance(x, int) for x in r) and all((r[i] < r[j]) == (want[i] < want[j]) for i in range(n) for j in range(n))
        c.holds('order', ok, f'{key}: {w}: order', f'{PP} getElPr: the priorities {r} do not order by partition, inner before send elements, and time group {want}')
    state('single', [0]*n, 1)
    if npa > 1:
        if not c.holds('partition', s.call('kway', npa), f'{key}: partitioner', f'{PP} kWay: {getattr(s, "why", "")}'): return
        state('parts', pas, npa)
        if c.holds('graph', len(seen) == 1, f'{key}: calls', f'{PP} kWay: the partitioner is called {len(seen)} times'):
            nv, nc, np, xa, aj, vw = seen[0]; want = [sorted(a for a in row if a is not None) for row in ad]
            c.holds('graph', (nv, nc, np) == (n, 1, npa), f'{key}: sizes', f'{PP} kWay: {(nv, nc, np)} for {n} elements, {npa} partitions')
            c.holds('graph', all(isinstance(x, int) for x in xa) and [sorted(aj[xa[i]:xa[i+1]]) for i in range(n)] == want and xa[0] == 0, f'{key}: dual graph', f'{PP} kWay: {xa}, {aj} for {want}')
            c.holds('graph', vw == [2**(T-1-t) for t in tg], f'{key}: weights', f'{PP} kWay: weights {vw} for groups {tg}')
    else: c.holds('reject', not s.call('kway', 1), f'{key}: one partition', f'{PP} kWay: accepted')
def comm(c, m, key, ty, nf, ad, tg, pa, npa, ntg):
    n = len(ad); s = c.session([m]); put(s, ad, nf); tgs(s, tg)
    sz = [pa.count(p) for p in range(npa)]; off = [sum(sz[:p]) for p in range(npa)]
    for p in range(npa): s.put('np', 8*p, sz[p], 8, 'i')
    if not c.holds('channels', s.call('mkc', ntg, ty, n, 'ad', npa, 'np', 'tg'), f'{key}: end', f'{CP}: {getattr(s, "why", "")}'): return
    out = {}
    for p in range(npa):
        k = f'{key}, partition {p}'
        if not c.holds('counts', s.call('cnt', p, ntg, 'in', 'se'), f'{k}: counts', CP): return
        for w, b in (('in', False), ('se', True)):
            got = [s.int(w, t) for t in range(ntg)]; want = [sum(1 for e in range(n) if pa[e] == p and send(ad, pa, e) == b and tg[e] == t) for t in range(ntg)]
            c.holds('counts', got == want, f'{k}: {"send" if b else "inner"} elements', f'{CP} nElsInSe: {got} instead of {want}')
        if not c.holds('channels', s.call('nch', p) and isinstance(s.ret, int) and s.call('chs', p, 'ch'), f'{k}: channels', f'{CP}: {getattr(s, "why", "")}'): return
        s.call('nch', p); nch = s.ret
        ch = [tuple(s.int('ch', 4*i+j) for j in range(4)) for i in range(nch)]; want = {}
        for e in range(n):
            for f, a in enumerate(ad[e]):
                if pa[e] == p and a is not None and pa[a] != p: want.setdefault((tg[e], pa[a], tg[a]), set()).add((e, f))
        c.holds('channels', sorted(x[:3] for x in ch) == sorted(want), f'{k}: channels', f'{CP}: channels {ch} for faces {want}')
        c.holds('channels', all(x[3] == len(want.get(x[:3], ())) for x in ch), f'{k}: sizes', f'{CP}: channels {ch} for faces {want}')
        if not c.holds('faces', s.call('nsr', p) and s.ret == sum(len(x) for x in want.values()) and s.call('ser', p, 'se_', 'sf_', 're_', 'rf_'), f'{k}: faces', f'{CP}: {s.ret} faces'): return
        tot = sum(len(x) for x in want.values()); L = {w: [s.int(w, i) for i in range(tot)] for w in ('se_', 'sf_', 're_', 'rf_')}; o = 0
        for x in ch:
            if not isinstance(x[3], int) or o+x[3] > tot: break
            snd = [(L['se_'][i]+off[p], L['sf_'][i]) if isinstance(L['se_'][i], int) else None for i in range(o, o+x[3])]; rcv = [(L['re_'][i]+off[p], L['rf_'][i]) if isinstance(L['re_'][i], int) else None for i in range(o, o+x[3])]; o += x[3]
            c.holds('faces', set(snd) == want.get(x[:3], set()) and set(rcv) == want.get(x[:3], set()), f'{k}: faces of channel {x}', f'{CP}: sent {snd}, received {rcv}, shared {want.get(x[:3])}')
            out[(p,)+x[:3]] = (snd, rcv)
    for (p, t, q, u), (snd, _) in out.items():
        rcv = out.get((q, u, p, t), (None, []))[1]
        good = len(snd) == len(rcv) and all(x and y and ad[x[0]][x[1]] == y[0] and ad[y[0]][y[1]] == x[0] for x, y in zip(snd, rcv))
        c.holds('match', good, f'{key}: {(p, t)} to {(q, u)}', f'{CP}: the faces sent {snd} do not match those received {rcv}')
def body(c):
    f = B.v_flags(extra=('-fno-inline',)); c.prefetch([(None, f, TXT)]); m = c.driver(TXT, f, 'partitioning and communication of EDGE-V')
    c.rule('partition', 'every element belongs to the partition given by the partitioner; sizes follow')
    c.rule('order', 'elements are ordered by partition, inner before send elements, and time group')
    c.rule('graph', 'the partitioner gets the dual graph and weights proportional to the updates of the elements')
    c.rule('reject', 'a partitioning into one part is rejected')
    c.rule('counts', 'inner and send elements are counted for every partition and time group')
    c.rule('channels', 'a partition has one channel for every own time group, adjacent partition and its time group, with the number of faces')
    c.rule('faces', 'the faces of a channel are those shared by the two groups, in ids of the partition')
    c.rule('match', 'the i-th face sent is adjacent to the i-th face received by the other side')
    rnd = random.Random(11); N = 10 if c.tier == 'quick' else 60
    for nm, (ty, nf) in TY.items():
        for k in range(N):
            n = 1+k % 8; npa = [1, 2, 3, 2, 4][k % 5]; npa = min(npa, n); ad = graph(rnd, n, nf); tg = [rnd.randrange(1+k % 4) for _ in range(n)]
            pas = [i % npa for i in range(n)]; rnd.shuffle(pas); part(c, m, f'{nm}, mesh {k}', ty, nf, ad, tg, pas, npa)
        for k in range(N):
            n = 2+k % 9; npa = min([1, 2, 3, 2, 4][k % 5], n); ad = graph(rnd, n, nf, 1+k % 3)
            if k % 5 == 3 and n > 2:
                for e in range(n):
                    for x in range(nf):
                        if (e == 0) != (ad[e][x] == 0) and ad[e][x] is not None and (e == 0 or ad[e][x] == 0): ad[e][x] = None
            pa = sorted(i % npa for i in range(n)); tg = [rnd.randrange(1+k % 4) for _ in range(n)]
            # renumber: partition, inner before send, time group; every partition but the last communicates
            o = sorted(range(n), key=lambda e: (pa[e], send(ad, pa, e), tg[e])); inv = {e: i for i, e in enumerate(o)}
            ad2 = [[None if a is None else inv[a] for a in ad[e]] for e in o]; tg2 = [tg[e] for e in o]; pa2 = [pa[e] for e in o]
            cm = [any(send(ad2, pa2, e) for e in range(n) if pa2[e] == p) for p in range(npa)]
            if npa > 1 and not all(cm): continue
            comm(c, m, f'{nm}, mesh {k}', ty, nf, ad2, tg2, pa2, npa, max(tg2)+1+k % 2)
    return c.finish('the partitioning and the communication structure are interpreted over random meshes of up to ten elements (adjacency, partitions and time groups known to the analysis), compared with the structure derived from the adjacency', ['elements share at most one face; every partition of several has elements that communicate; the graph partitioner answers as documented'], 300)
if __name__ == '__main__': H.main('C22', body)
