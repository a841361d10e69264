import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
from checks.C04 import N, n, Doc
import random, re, time
from fractions import Fraction as Q
TXT = r'''
#include <cstddef>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <tuple>
#include <array>
#include <set>
#include <map>
#include <limits>
#include <algorithm>
#include <numeric>
#include <iostream>
#include <iomanip>
#include <fstream>
#include <sstream>
#include <new>
#include "submodules/pugixml/src/pugixml.hpp"
#include "io/logging.hpp"
namespace std {
  // stand-ins of the streams, everything else is the original
  struct vp_stream { long id; vp_stream(); ~vp_stream(); vp_stream( string const &p, ios_base::openmode m = ios_base::out ); void open( string const &p, ios_base::openmode m = ios_base::out );
    bool is_open() const; bool good() const; bool fail() const; bool eof() const; explicit operator bool() const; bool operator!() const; string str() const; void close(); vp_stream &flush(); long precision( long p ); long precision() const;
    vp_stream &operator<<( string const &s ); vp_stream &operator<<( char const *s ); vp_stream &operator<<( double d ); vp_stream &operator<<( float d ); vp_stream &operator<<( unsigned d ); vp_stream &operator<<( unsigned long d ); vp_stream &operator<<( int d ); vp_stream &operator<<( long d ); vp_stream &operator<<( unsigned short d ); vp_stream &operator<<( char c ); vp_stream &operator<<( ios_base &(*f)( ios_base& ) );
    vp_stream &operator<<( vp_stream &(*f)( vp_stream& ) ) { return f( *this ); } vp_stream &operator>>( double &d ); template<typename T> vp_stream &operator<<( T const &t ) { return *this; } };
  inline vp_stream &vp_endl( vp_stream &s ) { return s << "\n"; }
}
#define ostream vp_stream
#define istream vp_stream
#define ofstream vp_stream
#define ifstream vp_stream
#define stringstream vp_stream
#define ostringstream vp_stream
#define endl vp_endl
#ifndef START_EASYLOGGINGPP
#define START_EASYLOGGINGPP(...)
#endif
#ifndef INITIALIZE_EASYLOGGINGPP
#define INITIALIZE_EASYLOGGINGPP
#endif
'''
TX = TXT+r'''
#include "mesh/Extrude.cpp"
using namespace edge_cut;
alignas(64) static char bE[sizeof(mesh::Extrude)], bV[2][sizeof(std::vector<mesh::Extrude::point>)];
#define E ((mesh::Extrude*) bE)
#define PV(i) (*(std::vector<mesh::Extrude::point>*) bV[i])
extern "C" {
  void mk( std::size_t n, double (*v)[3], double z, unsigned short l ) { new (bE) mesh::Extrude( n, v, z, l ); }
  void wr( std::vp_stream *s ) { E->writeOff( s[0], s[1], s[2], s[3], s[4], s[5] ); }
  void side( std::size_t st, double z, std::size_t n, double const *p, double *o ) { new (bV[0]) std::vector<mesh::Extrude::point>; new (bV[1]) std::vector<mesh::Extrude::point>; for( std::size_t i = 0; i < n; i++ ) PV(0).push_back( std::make_tuple( p[3*i], p[3*i+1], p[3*i+2] ) );
    mesh::Extrude::addSide( st, z, PV(0), PV(1) ); for( std::size_t i = 0; i < PV(1).size(); i++ ) { o[3*i] = std::get<0>( PV(1)[i] ); o[3*i+1] = std::get<1>( PV(1)[i] ); o[3*i+2] = std::get<2>( PV(1)[i] ); } }
  std::size_t nside() { return PV(1).size(); }
}
'''
TM = TXT+r'''
#include "io/OptionParser.cpp"
#include "io/Config.cpp"
#define main vmain
#include "main.cpp"
#undef main
extern "C" { int vp_main( int n, char **a ) { return vmain( n, a ); } }
'''
EX, MN = 'tools/edge_cut/src/mesh/Extrude.cpp', 'tools/edge_cut/src/main.cpp'
PAN = ('left', 'right', 'front', 'back', 'bottom', 'top')
def ty(it, sz, kd):
    t = it.mkty((sz, 0, kd))
    if kd == 'f': t.w = 8*sz
    return t
class Exit(Exception): pass
class Str:
    """streams: what is written to which, what is read from them"""
    def __init__(s, inp=()): s.t, s.path, s.n, s.inp, s.state, s.files, s.mode = {}, {}, 0, list(inp), {}, {}, {}
    def key(s, it, st, p): return (p.o, p.off)
    def models(s):
        E = {}; S = '_ZNSt9vp_stream'; K = '_ZNKSt9vp_stream'; SS = 'NSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE'
        def new(it, st, p, path=None, mode=16): k = s.key(it, st, p); s.t[k] = []; s.path[k] = path; s.state[k] = 'open' if path is not None else 'memory'; s.mode[k] = mode; s.files.setdefault(path, []).append(s.t[k]) if path is not None and not mode & 8 else None
        def rs(it, st, p):
            x = I.str_at(it, st, p)
            if x is None: raise I.Bottom('an unknown text is written or used as path')
            return x.decode()
        def c0(it, i, a, st): new(it, st, a[0])
        def c1(it, i, a, st): new(it, st, a[0], rs(it, st, a[1]), a[2])
        def d(it, i, a, st): s.state[s.key(it, st, a[0])] = 'dead'
        for k in '12': E[f'{S}C{k}Ev'] = c0; E[f'{S}C{k}ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEESt13_Ios_Openmode'] = c1; E[f'{S}D{k}Ev'] = d
        E[f'{S}C1ERK{SS}St13_Ios_Openmode'] = E[f'{S}C2ERK{SS}St13_Ios_Openmode'] = c1
        E[f'{S}4openERK{SS}St13_Ios_Openmode'] = c1; E[f'{S}5closeEv'] = lambda it, i, a, st: s.state.__setitem__(s.key(it, st, a[0]), 'closed')
        def emit(it, st, p, v):
            k = s.key(it, st, p)
            if s.state.get(k) in ('dead', 'closed'): raise I.Bottom('something is written to a closed file')
            if s.path.get(k) is not None and s.mode[k] & 8: raise I.Bottom('something is written to a file opened for reading')
            s.t.setdefault(k, []).append(v); return p
        def num(it, i, a, st):
            v = a[1]; return emit(it, st, a[0], v if isinstance(v, int) else A.lift(v))
        E[f'{S}lsERK{SS}'] = lambda it, i, a, st: emit(it, st, a[0], rs(it, st, a[1]))
        def cstr(it, i, a, st):
            x = I.cstr_at(it, st, a[1])
            if x is None: raise I.Bottom('an unknown text is written')
            return emit(it, st, a[0], x.decode())
        E[f'{S}lsEPKc'] = cstr; E[f'{S}lsEc'] = lambda it, i, a, st: emit(it, st, a[0], chr(a[1] & 255))
        for t in 'dfjmilt': E[f'{S}lsE{t}'] = num
        E[f'{S}lsEPFRSt8ios_baseS0_E'] = E[f'{S}5flushEv'] = lambda it, i, a, st: a[0]
        E[f'{S}9precisionEl'] = E[f'{K}9precisionEv'] = lambda it, i, a, st: 6
        E[f'{K}3strB5cxx11Ev'] = lambda it, i, a, st: s.text(it, st, a)
        def rd(it, i, a, st):
            k = s.key(it, st, a[0])
            if s.path.get(k) is None or not s.mode[k] & 8: raise I.Bottom('a stream which is not open for reading is read')
            if s.inp: it.store(st, a[1], A.const(s.inp.pop(0)), ty(it, 8, 'f'))
            else: s.state[k] = 'end'
            return a[0]
        E[f'{S}rsERd'] = rd
        ok = lambda it, st, p: s.state.get(s.key(it, st, p)) != 'end'
        for nm, f in ((f'{K}cvbEv', True), (f'{K}4goodEv', True), (f'{K}7is_openEv', None), (f'{K}4failEv', False), (f'{K}ntEv', False), (f'{K}3eofEv', False)):
            E[nm] = lambda it, i, a, st, f=f: A.TRUE if f is None or ok(it, st, a[0]) == f else A.FALSE
        return E
    # the text of a memory stream is handed over as a marked string
    def text(s, it, st, a):
        k = s.key(it, st, a[1]); m = f'\x01{len(s.marks)}\x02'; s.marks.append(list(s.t.get(k, []))); b = m.encode(); p = a[0]
        it.store(st, p, I.Ptr(p.o, p.off+16), it.mkty((8, 0, 'ptr'))); it.store(st, I.Ptr(p.o, p.off+8), len(b), ty(it, 8, 'i'))
        for q, x in enumerate(b+b'\0'): it.store(st, I.Ptr(p.o, p.off+16+q), x, ty(it, 1, 'i'))
        return None
    marks = None
    def lines(s, toks):
        """lines of tokens, numbers as values"""
        out, cur, pend = [], [], ''
        def flush():
            nonlocal pend
            if pend: cur.append(pend); pend = ''
        def walk(ts):
            nonlocal pend, cur
            for o in ts:
                if isinstance(o, str):
                    for part in re.split('(\x01\\d+\x02)', o):
                        if part.startswith('\x01'): walk(s.marks[int(part[1:-1])]); continue
                        for x in part:
                            if x == '\n': flush(); out.append(cur); cur = []
                            elif x.isspace(): flush()
                            else: pend += x
                else:
                    if pend: raise I.Bottom('a number follows a text without separator')
                    cur.append(o); pend = ''
        walk(toks); flush()
        if cur: out.append(cur)
        return out
def val(x):
    if isinstance(x, int): return Q(x)
    if isinstance(x, str):
        try: return Q(x)
        except ValueError: return None
    return A.cval(x)
class Panels:
    """what the six panels of a grid have to be"""
    def __init__(s, rnd, nx, ny, lv, zt):
        s.nx, s.ny, s.lv, s.r = nx, ny, lv, 2**lv; s.zt = zt
        def ax(k): x = [Q(rnd.randint(-40, 40), 4)]; [x.append(x[-1]+Q(rnd.randint(1, 9), 2)) for _ in range(k-1)]; return x
        s.x, s.y = ax(nx), ax(ny); s.z = {(i, j): Q(rnd.randint(-8, 24), 8) for i in range(nx) for j in range(ny)}
        s.pts = [(s.x[i], s.y[j], s.z[i, j]) for i in range(nx) for j in range(ny)]; rnd.shuffle(s.pts); s.par()
    def par(s):
        cx, cy = s.x[::s.r], s.y[::s.r]; s.d = min([b-a for a, b in zip(cx, cx[1:])]+[b-a for a, b in zip(cy, cy[1:])]); s.dist = max(s.z.values())-s.zt
        s.cx, s.cy = range(0, s.nx, s.r), range(0, s.ny, s.r)
    def check(s, h, out):
        """panels (lines of tokens) -> rules; h(rule, cond, key, text)"""
        P, T = {}, {}
        for k, nm in enumerate(PAN):
            L = [l for l in out[nm] if l and not (isinstance(l[0], str) and l[0].startswith('#'))]
            if not h('format', len(L) > 1 and L[0] == ['OFF'] and len(L[1]) == 3 and all(isinstance(val(x), Q) for x in L[1]), f'{nm}: header', f'{nm} starts with {L[:2]}'): return
            nv, nt = int(val(L[1][0])), int(val(L[1][1])); h('format', len(L) == 2+nv+nt, f'{nm}: counts', f'{nm} announces {nv} vertices and {nt} triangles, but has {len(L)-2} lines')
            V = [tuple(val(x) for x in l) for l in L[2:2+nv]]; R = [[val(x) for x in l] for l in L[2+nv:]]
            if not h('format', all(len(v) == 3 and None not in v for v in V) and all(len(t) == 4 and t[0] == 3 and all(q is not None and 0 <= q < nv for q in t[1:]) and len(set(t[1:])) == 3 for t in R), f'{nm}: lines', f'{nm} has lines which are neither a vertex nor a triangle of existing vertices'): return
            P[nm] = V; T[nm] = [tuple(V[int(q)] for q in t[1:]) for t in R]
            h('format', len(set(V)) == len(V), f'{nm}: vertices', f'{nm} has the same vertex twice')
        # vertices
        top = sorted(s.pts); h('top', sorted(P['top']) == top, 'vertices', 'the top does not have the points of the grid')
        bot = sorted((s.x[i], s.y[j], s.zt) for i in s.cx for j in s.cy); h('bottom', sorted(P['bottom']) == bot, 'vertices', 'the bottom does not have the coarse points of the grid at the target depth')
        edge = dict(left=[(0, j) for j in s.cy], right=[(s.nx-1, j) for j in s.cy], front=[(i, 0) for i in s.cx], back=[(i, s.ny-1) for i in s.cx]); st = set()
        for nm, e in edge.items():
            n_, r = divmod(len(P[nm]), len(e)); st.add(n_-1)
            if not h('sides', r == 0 and n_ > 1, f'{nm}: steps', f'{nm} has {len(P[nm])} vertices for {len(e)} coarse points at the edge'): return
            w = sorted((s.x[i], s.y[j], s.z[i, j]+(s.zt-s.z[i, j])*Q(k, n_-1)) for i, j in e for k in range(n_)); h('sides', sorted(P[nm]) == w, f'{nm}: vertices', f'the vertices of {nm} are not in {n_-1} equal steps below the coarse points of the edge')
        h('sides', len(st) == 1 and s.dist <= min(st)*s.d and (max(st)-1)*s.d <= s.dist, 'step', f'{st} steps for a depth of {s.dist} and a smallest spacing of {s.d}: steps are larger than the spacing, or more than needed')
        # triangles: closed, oriented
        E = {}
        for nm in PAN:
            for t in T[nm]:
                for q in range(3): E.setdefault((t[q], t[(q+1) % 3]), []).append(nm)
        dup = {k: v for k, v in E.items() if len(v) > 1}; h('closed', not dup, 'once', f'{len(dup)} directed edges are part of more than one triangle, e.g. in {list(dup.values())[:1]}')
        op = [(k, v) for k, v in E.items() if (k[1], k[0]) not in E]; h('closed', not op, 'edges', f'{len(op)} edges have a triangle on one side only (or opposite orientations), e.g. in {[v for _, v in op[:3]]}')
        nrm = {'left': (0, -1), 'right': (0, 1), 'front': (1, -1), 'back': (1, 1), 'bottom': (2, -1), 'top': (2, 1)}
        for nm in PAN:
            d, sg = nrm[nm]; u, v = (d+1) % 3, (d+2) % 3; bad = 0; tot = Q(0)
            for a, b, c in T[nm]:
                ar = ((b[u]-a[u])*(c[v]-a[v])-(b[v]-a[v])*(c[u]-a[u]))/2*sg; tot += ar; bad += ar <= 0
            h('outward', bad == 0, nm, f'{bad} triangles of {nm} are flipped or degenerate')
            if d == 2: h('outward', tot == (s.x[-1]-s.x[0])*(s.y[-1]-s.y[0]), f'{nm}: area', f'the projected triangles of {nm} cover {tot}')
        # refinement: fine inside, coarse at the edges of the top
        L = 4*(s.r-1)//2
        if s.nx-1 > 2*L and s.ny-1 > 2*L:
            ix = {v: k for k, v in enumerate(s.x)}; iy = {v: k for k, v in enumerate(s.y)}; far = [t for t in T['top'] if max(max(ix[p[0]] for p in t)-min(ix[p[0]] for p in t), max(iy[p[1]] for p in t)-min(iy[p[1]] for p in t)) > 1 and all(L <= ix[p[0]] < s.nx-L and L <= iy[p[1]] < s.ny-L for p in t)]
            h('top', not far, 'resolution', f'{len(far)} triangles inside of the top are coarser than the grid')
def body(c):
    c.prefetch([(None, B.cut_flags(extra=['-Xclang', '-mno-constructor-aliases']), t) for t in (TX, TM)]); m = c.driver(TX, B.cut_flags(extra=['-Xclang', '-mno-constructor-aliases']), 'EDGEcut'); md = c.driver(TM, B.cut_flags(extra=['-Xclang', '-mno-constructor-aliases']), 'EDGEcut driver'); rnd = random.Random(c.seed)
    for r, t in (('format', 'a panel is an OFF file whose header has the numbers of its vertices and triangles'), ('top', 'the top has the points of the grid, coarsened towards its edges only'), ('sides', 'a side consists of equal steps, not longer than the smallest coarse spacing, from the coarse points at the edge to the target depth'), ('bottom', 'the bottom has the coarse points at the target depth'), ('closed', 'the six panels together are watertight: every edge belongs to two triangles, in opposite directions'), ('outward', 'triangles point outwards, and cover the grid'), ('refuse', 'grids which are incomplete or do not fit the number of levels, and targets above the grid are refused'), ('symbolic', 'a side follows its edge for all coordinates'), ('driver', 'the driver uses the configured grid, depth and levels, and writes every panel to its file')): c.rule(r, t)
    def sess(S): S.marks = []; x = c.session([m], models=S.models()); x.it.max_steps = 3000000; x.it.deadline = time.time()+60; return x
    def grid(s, p):
        for k, x in enumerate(p): [s.put('g', 24*k+8*d, A.const(x[d]), 8, 'f') for d in range(3)]
    mx = [0]; sizes = [(2, 2, 0), (2, 5, 0), (4, 3, 0), (5, 5, 1), (5, 9, 1), (7, 5, 1), (9, 7, 1), (13, 13, 2), (33, 33, 3), (13, 17, 2), (17, 13, 2)]+([(21, 17, 2), (41, 33, 3), (3, 11, 0), (11, 13, 1)] if c.tier == 'thorough' else [])
    for k, (nx, ny, lv) in enumerate(sizes):
        for v in range(2 if lv < 2 else 1):
            p = Panels(rnd, nx, ny, lv, Q(-rnd.randint(8, 60), 2)); S = Str(); s = sess(S); grid(s, p.pts); key = f'{nx} x {ny}, {lv} levels'+(f', {v}' if v else '')
            h = lambda rule, cond, k_, t: c.holds(rule, cond, f'{key}: {k_}', f'{EX}: {t}')
            if not h('format', s.call('mk', nx*ny, 'g', A.const(p.zt), lv) and s.call('wr', 'os'), 'end', s.why):
                if 'step limit' in str(s.why): return c.finish('stopped at a loop which does not end', [], 0)
                continue
            mx[0] = max(mx[0], s.it.steps); o = s.it.inputs['os']; p.check(h, {nm: S.lines(S.t.get((o, 8*q), [])) for q, nm in enumerate(PAN)})
    if os.environ.get('DBG'): print(mx)
    # refusal
    for nm, nx, ny, lv, f in (('columns', 6, 5, 1, None), ('rows', 5, 6, 1, None), ('columns of four', 15, 17, 2, None), ('too few columns', 3, 5, 1, None), ('too few rows', 5, 3, 1, None), ('too few columns for two levels', 9, 17, 2, None), ('too few rows for two levels', 17, 5, 2, None), ('missing point', 5, 5, 0, 'miss'), ('single column', 1, 4, 0, None), ('target above', 3, 3, 0, 'above')):
        p = Panels(rnd, nx, max(ny, 2), lv, Q(-5) if f != 'above' else Q(30)) if nx > 1 else None; S = Str(); s = sess(S)
        pts = [(Q(1), Q(j), Q(0)) for j in range(ny)] if nx == 1 else p.pts[:-1] if f == 'miss' else p.pts; grid(s, pts)
        s.call('mk', len(pts), 'g', A.const(Q(-5) if nx == 1 else p.zt), lv); c.holds('refuse', s.refused(), nm, f'{EX} Extrude: {nm}: {nx} x {ny} points and {lv} levels are not refused {s.why}')
    # sides for all coordinates
    for nst in (1, 2, 5):
        s = sess(Str()); X = [[A.var(f'{"xyz"[d]}{k}') for d in range(3)] for k in range(3)]; zt = A.var('zt'); [s.put('p', 24*k+8*d, X[k][d], 8, 'f') for k in range(3) for d in range(3)]
        if not c.holds('symbolic', s.call('side', nst, zt, 3, 'p', 'o') and s.call('nside') and s.ret == 3*(nst+1), f'{nst}: end', f'{EX} addSide: {s.why} {s.ret} vertices'): continue
        for q in range(nst+1):
            for k in range(3):
                w = X[k][:2]+[X[k][2]+A.const(Q(q, nst))*(zt-X[k][2])]
                for d in range(3): e = A.equal(s.get('o', 3*(3*q+k)+d), w[d]); c.holds('symbolic', e is None, f'{nst}: step {q}, {k}, {d}', f'{EX} addSide: coordinate {d} of vertex {k} in step {q} of {nst}: {e}')
    # driver
    def drv(key, nx, ny, lv, drop=0, args=('edge_cut', '-x', 'conf.xml'), files=PAN, doc=None):
        p = Panels(rnd, nx, ny, lv, Q(-rnd.randint(8, 40), 2)); inp = [x for q in p.pts for x in q]; S = Str(inp[:len(inp)-drop] if drop >= 0 else inp+[Q(1)]*-drop); S.marks = []
        D = Doc(doc or n('', n('edge_cut', n('extrude', n('in', 'grid.xyz'), n('target_z', str(float(p.zt))), n('n_levels', str(lv))), n('mesh', n('files', n('out', *[n(f, f'{f}.off') for f in files])))))); mod = S.models(); mod.update(D.models())
        s = c.session([md, m], models=mod); s.it.deadline = time.time()+60; it, st = s.it, s.st
        for k, x in enumerate(args):
            b = it.input_obj(f'arg{k}')
            for j, ch in enumerate(x.encode()+b'\0'): it.store(st, I.Ptr(b, j), ch, ty(it, 1, 'i'))
            s.put('argv', 8*k, I.Ptr(b, 0), 8, 'ptr')
        ok = s.call('vp_main', len(args), 'argv'); return ok, s, S, p, D
    for nx, ny, lv in ((4, 3, 0), (5, 7, 1)):
        key = f'driver, {nx} x {ny}, {lv} levels'; h = lambda rule, cond, k_, t: c.holds(rule, cond, f'{key}: {k_}', f'{MN}: {t}')
        ok, s, S, p, D = drv(key, nx, ny, lv)
        if not h('driver', ok and s.ret == 0, 'end', f'{s.why} {s.ret}'): break
        h('driver', len(D.loaded) == 1 and D.loaded[0] in ('conf.xml', b'conf.xml'), 'configuration', f'{D.loaded} is read'); rdp = [v for k, v in S.path.items() if v is not None and S.mode[k] & 8]; h('driver', set(rdp) == {'grid.xyz'} and not S.inp, 'grid', f'{rdp} is read, {len(S.inp)} values are left')
        h('driver', set(S.files) == {f'{f}.off' for f in PAN} and all(len(v) == 1 for v in S.files.values()), 'files', f'{sorted(S.files)} are written')
        if set(S.files) == {f'{f}.off' for f in PAN}: p.check(h, {f: S.lines(S.files[f'{f}.off'][-1]) for f in PAN})
    for drop in (1, 2, -1):
        ok, s, S, p, D = drv('', 3, 3, 0, drop); c.holds('refuse', s.refused(), f'{drop} values missing', f'{MN}: a grid with {drop} values missing is not refused {s.why}')
    for a in (('edge_cut',), ('edge_cut', '-x')):
        ok, s, S, p, D = drv('', 3, 3, 0, 0, a); c.holds('refuse', (s.refused() or ok and s.ret != 0) and not S.files, f'arguments {a}', f'{MN}: the arguments {a} are accepted')
    ok, s, S, p, D = drv('', 3, 3, 0, doc=n('', n('edge_v', n('extrude')))); c.holds('refuse', s.refused() and not S.files, 'other document', f'{MN}: a document without edge_cut is accepted')
    return c.finish('grids of the listed sizes with drawn spacings and heights are extruded; the panels written are compared with the surface they have to form; sides for symbolic coordinates; the driver with a document and streams as borders', ['streams write what they are given (numbers with six digits by default)', 'the XML library (stand-in)'], 300)
if __name__ == '__main__': H.main('C27', body)
