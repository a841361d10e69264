import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
from fractions import Fraction as Q
import itertools, re
TXT = r'''
#include <vector>
#include <string>
#include <limits>
#include <iostream>
#include <sstream>
#include <fstream>
#include <set>
#include <cstddef>
namespace std {
  // stand-ins of the streams, everything else is the original
  struct vp_stream { long id; vp_stream(); ~vp_stream(); void open( string const &p, ios_base::openmode m = ios_base::out ); bool is_open(); string str(); void close();
    vp_stream( string const &p, ios_base::openmode m = ios_base::out );
    vp_stream &operator<<( string const &s ); vp_stream &operator<<( char const *s ); vp_stream &operator<<( double d ); vp_stream &operator<<( float d ); vp_stream &operator<<( unsigned d ); vp_stream &operator<<( unsigned long d ); vp_stream &operator<<( int d ); vp_stream &operator<<( char c ); vp_stream &operator<<( ios_base &(*f)( ios_base& ) ); };
  string vp_str( double d ); string vp_str( float d ); string vp_str( int d ); string vp_str( unsigned d ); string vp_str( unsigned long d ); string vp_str( long d ); inline string vp_str( unsigned short d ) { return vp_str( (int) d ); }
}
#define ofstream vp_stream
#define ostringstream vp_stream
#define to_string vp_str
#include "constants.hpp"
#include "data/EntityLayout.type"
#include "parallel/global.h"
#include "io/Receivers.cpp"
using namespace edge;
int parallel::g_rank = 3; 
alignas(64) static char rc[sizeof(io::Receivers)];
#define R ((io::Receivers*) rc)
extern "C" {
  void mk() { new (rc) io::Receivers; }
  void ini( int t, unsigned short n, std::size_t const *a, std::size_t const *b, unsigned r, std::string const *d, std::string const *m, double const (*c)[3], double f, std::size_t const *v, t_vertexChars const *w, unsigned z, double t0 ) { R->init( (t_entityType) t, n, a, b, r, *d, m, c, f, v, w, z, t0 ); }
  double rel( int_el e, double t, double dt ) { return R->getRecvTimeRel( e, t, dt ); }
  void wr( int_el e, real_base const (*d)[N_ELEMENT_MODES][N_CRUNS] ) { R->writeRecvAll( e, d ); }
  void fli( unsigned t ) { R->flushIf( t ); }
  void del() { R->~Receivers(); }
  std::size_t ens( int_el *o ) { std::vector< int_el > e; R->getEnRecv( e ); for( std::size_t i = 0; i < e.size(); i++ ) o[i] = e[i]; return e.size(); }
}
extern "C" unsigned long lay[] = { sizeof(t_vertexChars), offsetof(t_vertexChars, coords) };
'''
RC = 'src/io/Receivers.cpp'
def body(c):
    jobs = {}
    for T, crs, pr in (('TRIA3', 1, 64), ('TET4', 2, 64)) + ((('HEX8R', 1, 64), ('QUAD4R', 3, 64)) if c.tier == 'thorough' else ()):
        jobs[T] = (B.edge_flags('elastic', T, 2, pr, crs), crs)
    c.prefetch([(None, f, TXT) for f, _ in jobs.values()])
    c.rule('init', 'a receiver belongs to the element it was located in; the receivers of an element are numbered together, elements in ascending order')
    c.rule('window', 'an element is sampled in a time step exactly if the next sample is in [start, start + time step), relative to the start')
    c.rule('once', 'over any sequence of time steps the samples are written at the multiples of the sampling interval, each once')
    c.rule('file', 'the file of a receiver has its header and one row per sample in order: time, then quantities by fused run, all of them when the program ends')
    c.rule('flush', 'after a flush there is space for as many samples as asked for')
    ET = {'TRIA3': 3, 'TET4': 5, 'QUAD4R': 2, 'HEX8R': 4}
    for T, (fl, crs) in jobs.items():
        m = c.driver(TXT, fl, f'receivers {T}')
        tet(c, m, T, crs, ET)
    return c.finish('the receivers are set up, sampled over sequences of time steps, flushed and released; solutions and basis values are symbolic, times and points exact rationals; the streams are stand-ins which record what is written', ['a stream writes what it is given', 'locating the element of a point is C19, the basis functions are C03'], 300)
def tet(c, m, T, crs, ET):
    nd = {'TRIA3': 2, 'QUAD4R': 2}.get(T, 3); nv = {'TRIA3': 3, 'TET4': 4, 'QUAD4R': 4, 'HEX8R': 8}[T]; nq = 5 if nd == 2 else 9
    nm = {'TRIA3': 3, 'TET4': 4, 'QUAD4R': 4, 'HEX8R': 8}[T]
    scens = [('two groups', [2, 1], [1, 2], [4, None, 0, 4, 3, 0], Q(1, 4), Q(0), 6, 4),
             ('empty regions, late start', [0, 3], [2, 0], [4, 1, 1, 1], Q(3), Q(5), 3, 3),
             ('no receiver of this rank', [2], [1], [None, None], Q(1, 4), Q(0), 6, 4),
             ('one group', [3], [0], [2, 0, 1], Q(1, 10), Q(0), 250, 50)]
    for name, ins, ses, own, freq, t0, buf, thr in scens:
        key = f'{T}: {name}'; nel = sum(ins)+sum(ses); nre = len(own)
        crd = {}; ves = []
        REF = {'TRIA3': [(0, 0), (1, 0), (0, 1)], 'TET4': [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], 'QUAD4R': [(0, 0), (1, 0), (1, 1), (0, 1)], 'HEX8R': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}[T]
        skew = T in ('TRIA3', 'TET4')
        for e in range(nel):
            h = Q(e+1, 2); v = [(e*nv+(k+e) % nv) for k in range(nv)]; ves.append(v)
            for k in range(nv): crd[v[k]] = [3*e+d+h*(1+Q(d, 4))*REF[k][d]+(h/8*REF[k][nd-1] if d == 0 and skew else 0) for d in range(nd)]+[0]*(3-nd)
        P = []
        for k, e in enumerate(own):
            V = [crd[x] for x in ves[e or 0]]; ref = [Q(k+1+d, 16) for d in range(nd)]
            ax = {'TRIA3': [1, 2], 'TET4': [1, 2, 3], 'QUAD4R': [1, 3], 'HEX8R': [1, 3, 4]}[T]
            p = [V[0][d]+sum(ref[j]*(V[ax[j]][d]-V[0][d]) for j in range(nd)) for d in range(nd)]+[0]*(3-nd)
            P.append(([p[d]+Q(1+k+8*d, 1024) if d < nd else 0 for d in range(3)], p, ref))
        num = lambda v: v.a[0] if isinstance(v, A.T) and A.isc(v) else v
        def f64(it):
            t = it.mkty((8, 0, 'f')); t.w = 64; return t
        i64 = lambda it: it.mkty((8, 0, 'i'))
        def ptto(it, i, a, st):
            got = [[num(it.load(st, I.Ptr(a[2].o, a[2].off+8*(k*3+d)), f64(it))) for d in range(3)] for k in range(nre)]
            if a[0] != ET[T] or a[1] != nre or got != [p[0] for p in P] or a[3] != nel or a[4].o.name != 'ev' or a[4].off or a[5].o.name != 'vc': raise I.Bottom('the receivers are located with wrong data')
            for k, e in enumerate(own): it.store(st, I.Ptr(a[6].o, a[6].off+8*k), -1 if e is None else e, i64(it))
            return sum(e is not None for e in own)
        def close(it, i, a, st):
            V = [[num(it.load(st, I.Ptr(a[1].o, a[1].off+8*(d*nv+k)), f64(it))) for d in range(nd)] for k in range(nv)]
            p = [num(it.load(st, I.Ptr(a[2].o, a[2].off+8*d), f64(it))) for d in range(nd)]
            for k, e in enumerate(own):
                if e is not None and P[k][0][:nd] == p and [crd[x][:nd] for x in ves[e]] == V:
                    for d in range(nd): it.store(st, I.Ptr(a[2].o, a[2].off+8*d), A.const(P[k][1][d]), f64(it))
                    return A.ZERO
            raise I.Bottom(f'a point is projected to an element it is not in: {p} {V}')
        def basis(it, i, a, st):
            if a[1] != ET[T] or a[5] not in (-1, 0xffffffff) or a[6] != 2: raise I.Bottom('basis of another element, order or a derivative')
            return A.var(f'b{a[0]}({[num(v) for v in a[2:2+nd]]})')
        files = {}; strs = {}; hnd = {}; dirs = []
        def tok(v): return f'<{A.show(A.lift(v), 99)}>' if not isinstance(v, int) else str(v)
        vals = {}
        def vtok(v):
            k = f'<v{len(vals)}>'; vals[k] = v; return k
        def cur(st, a): return (a.o.id, a.off)
        def s_open(it, i, a, st):
            p = I.str_at(it, st, a[1])
            if p is None: raise I.Bottom('a file with an unknown path is opened')
            p = p.decode(); hnd[cur(st, a[0])] = p
            if not (isinstance(a[2], int) and a[2] & 1): files[p] = ''
            elif p not in files: raise I.Bottom('rows are appended to a file without header')
        def s_ctor(it, i, a, st): hnd[cur(st, a[0])] = None; strs[cur(st, a[0])] = ''
        def s_ctor2(it, i, a, st): s_ctor(it, i, a, st); s_open(it, i, a, st)
        def put(k, t):
            if hnd.get(k) is not None: files[hnd[k]] += t
            else: strs[k] = strs.get(k, '') + t
        def s_str(it, i, a, st):
            b = I.str_at(it, st, a[1])
            if b is None: raise I.Bottom('unknown text is written')
            put(cur(st, a[0]), b.decode()); return a[0]
        def s_c(it, i, a, st):
            b = I.cstr_at(it, st, a[1])
            if b is None: raise I.Bottom('unknown text is written')
            put(cur(st, a[0]), b.decode()); return a[0]
        def s_ch(it, i, a, st): put(cur(st, a[0]), chr(a[1])); return a[0]
        def s_v(it, i, a, st): put(cur(st, a[0]), vtok(a[1])); return a[0]
        def s_m(it, i, a, st): return a[0]
        def s_get(it, i, a, st):
            I.set_str(it, st, a[0], strs.get(cur(st, a[1]), '').encode())
        def vstr(it, i, a, st): I.set_str(it, st, a[0], (str(a[1]) if isinstance(a[1], int) else vtok(a[1])).encode())
        def mkdir(it, i, a, st): dirs.append((I.str_at(it, st, a[0]) or b'?').decode())
        def find(it, i, a, st):
            s_ = I.str_at(it, st, a[0]); x = I.bytes_at(it, st, a[1], a[3])
            r = [k for k in range(a[2], len(s_)) if s_[k] in x]; return r[0] if r else -1
        mod = {}
        for f in list(m.fns):
            if 'vp_stream' in f:
                if 'vp_streamC' in f: mod[f] = s_ctor2 if 'Cv' not in f.split('vp_stream')[1][:2] and not f.endswith('Ev') else s_ctor
                elif 'vp_streamD' in f: mod[f] = lambda *x: None
                elif '4open' in f: mod[f] = s_open
                elif '7is_open' in f: mod[f] = lambda *x: A.TRUE
                elif '5close' in f: mod[f] = lambda *x: None
                elif '3strB5cxx11Ev' in f: mod[f] = s_get
                elif 'lsERKNS' in f: mod[f] = s_str
                elif 'lsEPKc' in f: mod[f] = s_c
                elif 'lsEPFR' in f: mod[f] = s_m
                elif f.endswith('lsEc'): mod[f] = s_ch
                else: mod[f] = s_v
            if '6vp_str' in f and 'vp_stream' not in f: mod[f] = vstr
        for f in list(m.fns):
            if 'SparseEntities6ptToEn' in f: mod[f] = ptto
            if 'Geom12closestPoint' in f: mod[f] = close
            if f.startswith('_ZN4edge2dg5Basis9evalBasis'): mod[f] = basis
            if 'FileSystem9createDir' in f: mod[f] = mkdir
        sz, off = lay_of(m)
        s = c.session([m], models=mod); s.it.pos = ()
        for e in range(nel):
            for k in range(nv): s.put('ev', 8*(e*nv+k), ves[e][k])
        for x, p in crd.items():
            for d in range(3): s.put('vc', sz*x+off+8*d, A.const(p[d]), 8, 'f')
        for k in range(nre):
            for d in range(3): s.put('pc', 8*(3*k+d), A.const(P[k][0][d]), 8, 'f')
        s.put('nm', 0, 0)
        for k in range(nre): I.set_str(s.it, s.st, I.Ptr(s.it.inputs['nm'], 32*k), f'recv {k}'.encode())
        s.put('dir', 0, 0); I.set_str(s.it, s.st, I.Ptr(s.it.inputs['dir'], 0), b'out')
        for k, v in enumerate(ins): s.put('in', 8*k, v)
        for k, v in enumerate(ses): s.put('se', 8*k, v)
        if not c.holds('init', s.call('mk') and s.call('ini', ET[T], len(ins), 'in', 'se', nre, 'dir', 'nm', ('pc', 24), A.const(freq), 'ev', ('vc', sz), buf, A.const(t0)), key, f'{RC} init: {s.why}'): continue
        en = sorted({e for e in own if e is not None}); byen = {e: [k for k in range(nre) if own[k] == e] for e in en}
        r = s.call('ens', 'oe'); g = [s.int('oe', k) for k in range(len(en))]
        c.holds('init', r and s.ret == len(en) and g == en, f'{key}: elements', f'{RC} getEnRecv: {s.ret} elements {g}, expected {en}')
        c.holds('init', dirs == (['out/3'] if en else []), f'{key}: directory', f'{RC} init: created {dirs}')
        # time steps: irregular, smaller and larger than the sampling interval
        t = t0; steps = [freq/4, freq/2, freq/4, freq, freq*Q(5, 2), freq/3, freq/6, freq*2, freq/8]
        if c.tier == 'thorough': steps = steps + [freq*Q(7, 3), freq*Q(2, 3)] + steps[::-1]
        nxt = {e: t0 for e in en}; rows = {k: [] for k in range(nre)}; ok = True
        for si, dt in enumerate(steps):
            for x, e in enumerate(en):
                # the window from outside of the sequence
                for tt, d2 in ((t, dt), (nxt[e]-dt, dt), (nxt[e], dt), (nxt[e]+dt/2, dt), (nxt[e]-dt/2, dt), (nxt[e]-2*dt, dt)):
                    if not s.call('rel', x, A.const(tt), A.const(d2)): c.holds('window', False, f'{key}: element {e}', f'{RC} getRecvTimeRel: {s.why}'); ok = False; break
                    w = nxt[e]-tt if tt <= nxt[e] < tt+d2 else None; v = num(s.ret)
                    ok = c.holds('window', v == w if w is not None else isinstance(v, (int, Q)) and v < 0, f'{key}: next sample {nxt[e]}, step [{tt}, {tt+d2})', f'{RC} getRecvTimeRel: {str(v)[:30]}, expected {w}') and ok
                if not ok: break
                for z in range(99):
                    if not s.call('rel', x, A.const(t), A.const(dt)): break
                    v = num(s.ret)
                    if not isinstance(v, (int, Q)) or v < 0: break
                    if z == 98: c.holds('once', False, f'{key}: element {e}, step {si}', f'{RC}: a time step never ends to be sampled')
                    tag = f'{si}_{x}_{z}'
                    for q, b, r_ in itertools.product(range(nq), range(nm), range(crs)): s.put('dofs', 8*((q*nm+b)*crs+r_), A.var(f'd{tag}_{q}_{b}_{r_}'), 8, 'f')
                    if not c.holds('once', s.call('wr', x, ('dofs', 8*nm*crs)), f'{key}: element {e}, step {si}', f'{RC} writeRecvAll: {s.why}'): ok = False; break
                    for k in byen[e]: rows[k].append((nxt[e], tag))
                    nxt[e] += freq
                w = nxt[e] >= t+dt
                ok = c.holds('once', w, f'{key}: element {e}, step {si} complete', f'{RC}: a sample of the step is missing') and ok
                if not ok: break
            if not ok: break
            t += dt
            if buf < 100:
                pre = {k: (len(rows[k]) - nrow(files.get(f'out/3/recv {k}.csv', ''))) for k in range(nre)}
            if not s.call('fli', thr): c.holds('flush', False, f'{key}: step {si}', f'{RC} flushIf: {s.why}'); ok = False; break
            for k in range(nre):
                if own[k] is None: continue
                left = buf - (len(rows[k]) - nrow(files.get(f'out/3/recv {k}.csv', '')))
                c.holds('flush', left >= min(thr, buf), f'{key}: step {si}, receiver {k}', f'{RC} flushIf: space for {left} samples, asked for {thr}')
        if not ok: continue
        if not c.holds('file', s.call('del'), f'{key}: end', f'{RC}: {s.why}'): continue
        c.holds('file', sorted(files) == sorted(f'out/3/recv {k}.csv' for k in range(nre) if own[k] is not None), f'{key}: files', f'{RC}: files {sorted(files)}')
        for k in range(nre):
            if own[k] is None: continue
            tx = files.get(f'out/3/recv {k}.csv', ''); ln = tx.split('\n')
            hd = [l for l in ln if l.startswith('#')]; ln = [l for l in ln if not l.startswith('#')]
            def pos3(l): return [num(vals.get(z)) for z in re.findall(r'<v\d+>', l)]
            c.holds('file', f'# receiver name: recv {k}' in hd, f'{key}: receiver {k} name', f'{RC} touchOutput: {hd}')
            for nm_, w in (('specified', P[k][0]), ('projected', P[k][1])):
                l = [x for x in hd if x.startswith(f'# {nm_} coordinates')]
                c.holds('file', len(l) == 1 and pos3(l[0]) == [Q(v) for v in w], f'{key}: receiver {k} {nm_} coordinates', f'{RC} touchOutput: {nm_} coordinates {[pos3(x) for x in l]}, expected {w}')
            w = 'time' + ''.join(f',Q{q}_C{r_}' for q in range(nq) for r_ in range(crs))
            c.holds('file', ln and ln[0] == w and ln[-1] == '', f'{key}: receiver {k} columns', f'{RC} touchOutput: {ln[:1]}')
            if not c.holds('file', len(ln)-2 == len(rows[k]), f'{key}: receiver {k} rows', f'{RC}: {len(ln)-2} rows, expected {len(rows[k])}'): continue
            for (tm, tag), l in zip(rows[k], ln[1:]):
                cs = l.split(',')
                if not c.holds('file', len(cs) == 1+nq*crs and all(x in vals for x in cs) and num(vals[cs[0]]) == tm, f'{key}: receiver {k}, time {tm}', f'{RC} flush: row {l[:60]} with time {num(vals.get(cs[0]))}, expected {tm}'): break
                bad = False
                for z in range(nq*crs):
                    q, r_ = divmod(z, crs)
                    w = sum((A.var(f'b{b}({P[k][2]})')*A.var(f'd{tag}_{q}_{b}_{r_}') for b in range(nm)), A.ZERO)
                    if not c.same('file', f'{key}: receiver {k}, time {tm}, quantity {q}, run {r_}', vals[cs[1+z]], w, RC): bad = True; break
                if bad: break
def nrow(t): return max(0, len([l for l in t.split('\n') if l and not l.startswith('#')])-1)
def lay_of(m):
    it = I.Interp([m]); o = it.glob_obj(m.globs['lay']); return [it.load(I.State(), I.Ptr(o, 8*k), it.mkty((8, 0, 'i'))) for k in range(2)]
if __name__ == '__main__': H.main('C18', body)
