import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
import re
TXT = r'''
#include <vector>
#include <string>
#include <limits>
#include <cstddef>
#include <new>
#include "constants.hpp"
#include "data/EntityLayout.type"
#include "parallel/global.h"
#include "io/WaveField.cpp"
#include "io/Vtk.cpp"
#include "submodules/visit_writer/visit_writer.cpp"
using namespace edge;
int parallel::g_rank = 2; std::string parallel::g_rankStr;
alignas(64) static char wf[sizeof(io::WaveField)];
#define W ((io::WaveField*) wf)
extern "C" {
  void mk( std::string const *t, std::string const *f, std::size_t nv, std::size_t ne, t_vertexChars const *v, t_elementChars const *e, std::size_t const (*ev)[C_ENT[T_SDISC.ELEMENT].N_VERTICES], real_base const (*d)[N_QUANTITIES][N_ELEMENT_MODES][N_CRUNS], int_spType s ) { new (wf) io::WaveField( *t, *f, nv, ne, v, e, ev, d, s ); }
  void mka( std::string const *t, std::string const *f, std::size_t nv, std::size_t ne, t_vertexChars const *v, t_elementChars const *e, std::size_t const (*ev)[C_ENT[T_SDISC.ELEMENT].N_VERTICES], real_base const (*d)[N_QUANTITIES][N_ELEMENT_MODES][N_CRUNS] ) { new (wf) io::WaveField( *t, *f, nv, ne, v, e, ev, d ); }
  void wr( double t ) { W->write( t ); }
  void del() { W->~WaveField(); }
}
extern "C" unsigned long lay[] = { sizeof(t_vertexChars), offsetof(t_vertexChars, coords), sizeof(t_elementChars), offsetof(t_elementChars, spType), sizeof(real_base), N_QUANTITIES, N_ELEMENT_MODES, N_CRUNS };
'''
WF, VK, VW = 'src/io/WaveField.cpp', 'src/io/Vtk.cpp', 'submodules/visit_writer/visit_writer.cpp'
EL = {'LINE': (2, 3), 'TRIA3': (3, 5), 'QUAD4R': (4, 9), 'TET4': (4, 10), 'HEX8R': (8, 12)}
class F:
    """the files written, as sequences of text, numbers and raw 4-byte words"""
    def __init__(s, errs=()):
        s.files, s.open, s.buf, s.dirs, s.errs, s.bad = [], {}, {}, [], list(errs), []
    def models(s):
        def num(it, v, k):
            if k == 'd': return v if isinstance(v, int) else (int(v.a[0]) if A.isc(A.lift(v)) else v)
            return A.lift(v)
        def fmt(it, st, p, args):
            """printf: constant text and the numbers themselves"""
            if p.o in s.buf and p.off == 0: return list(s.buf[p.o])
            f = I.cstr_at(it, st, p)
            if f is None: raise I.Bottom('text of unknown contents is written')
            out = []; k = 0; f = f.decode('latin1')
            for part in re.split(r'(%[-+ 0-9.]*l*[a-zA-Z%])', f):
                if not part.startswith('%'): out += [part] if part else []
                elif part == '%%': out.append('%')
                elif part[-1] in 'diu': out.append(('n', num(it, args[k], 'd'))); k += 1
                elif part[-1] in 'efgEG':
                    m = re.search(r'\.(\d+)', part); prec = int(m.group(1)) if m else 6
                    out.append(('n', num(it, args[k], 'f'), prec)); k += 1
                elif part[-1] == 's':
                    x = I.cstr_at(it, st, args[k]); k += 1
                    if x is None: raise I.Bottom('text of unknown contents is written')
                    out.append(x.decode('latin1'))
                else: raise I.Bottom('unknown conversion '+part)
            return out
        def fopen(it, i, a, st):
            n = I.cstr_at(it, st, a[0]); m = I.cstr_at(it, st, a[1])
            o = I.Ptr(it.inputs.get(f'F{len(s.files)}') or it.input_obj(f'F{len(s.files)}'), 0); s.files.append([n and n.decode(), (m or b'?').decode(), [], True]); s.open[o.o] = s.files[-1]; return o
        def fclose(it, i, a, st):
            f = s.open.pop(a[0].o, None) if isinstance(a[0], I.Ptr) else None
            if f is None: raise I.Bottom('a file is closed that is not open')
            f[3] = False; return 0
        def out(f, x):
            if not isinstance(f, I.Ptr) or f.o not in s.open: raise I.Bottom('something is written to a file that is not open')
            s.open[f.o][2].extend(x)
        def fprintf(it, i, a, st): out(a[0], fmt(it, st, a[1], a[2:])); return 1
        def fputs(it, i, a, st): out(a[1], fmt_plain(it, st, a[0])); return 1
        def fmt_plain(it, st, p):
            if p.o in s.buf and p.off == 0: return list(s.buf[p.o])
            x = I.cstr_at(it, st, p)
            if x is None: raise I.Bottom('text of unknown contents is written')
            return [x.decode('latin1')]
        def fputc(it, i, a, st): out(a[1], [chr(a[0] & 255)]); return a[0]
        def sprintf(it, i, a, st):
            x = fmt(it, st, a[1], a[2:])
            if all(isinstance(y, str) for y in x):
                t = ''.join(x); s.buf.pop(a[0].o, None)
                for k, y in enumerate(t.encode('latin1')+b'\0'): it.store(st, I.Ptr(a[0].o, a[0].off+k), y, it.mkty((1, 0, 'i')))
                return len(t)
            s.buf[a[0].o] = x; return 1
        def fwrite(it, i, a, st):
            if a[1] == 1 or (a[2], a[1]) != (1, 4):
                n = a[1]*a[2]; b = I.bytes_at(it, st, a[0], n) if a[0].o not in s.buf else None
                if b is None:
                    if a[0].o in s.buf: out(a[3], s.buf[a[0].o]); return a[2]
                    raise I.Bottom('text of unknown contents is written')
                out(a[3], [bytes(b).decode('latin1')]); return a[2]
            b = [it.load(st, I.Ptr(a[0].o, a[0].off+k), it.mkty((1, 0, 'i'))) for k in range(4)]
            out(a[3], [('b', tuple(b))]); return a[2]
        def stat(it, i, a, st): return -1
        def mkdir(it, i, a, st):
            x = I.cstr_at(it, st, a[0]); s.dirs.append(x and x.decode())
            e = s.errs.pop(0) if s.errs else 0
            if e:
                o = it.inputs.get('errno') or it.input_obj('errno'); it.store(st, I.Ptr(o, 0), e, it.mkty((4, 0, 'i'))); return -1
            return 0
        def eloc(it, i, a, st): return I.Ptr(it.inputs.get('errno') or it.input_obj('errno'), 0)
        return {'fopen': fopen, 'fopen64': fopen, 'fclose': fclose, 'fprintf': fprintf, 'sprintf': sprintf, 'snprintf': lambda it, i, a, st: sprintf(it, i, [a[0]]+list(a[2:]), st), 'fwrite': fwrite, 'fputs': fputs, 'fputc': fputc, 'putc': fputc, 'stat': stat, 'mkdir': mkdir, 'fsync': lambda it, i, a, st: 0, '__errno_location': eloc}
def lines(x):
    """lines of (text tokens | numbers)"""
    out, cur, w = [], [], ''
    def flush():
        nonlocal w
        if w: cur.append(w); w = ''
    for t in x:
        if isinstance(t, str):
            for ch in t:
                if ch == '\n': flush(); out.append(cur); cur = []
                elif ch.isspace(): flush()
                else: w += ch
        else:
            if w: cur.append(('glued', w)); w = ''
            cur.append(t); w = ''
    flush()
    if cur: out.append(cur)
    return [l for l in out if l]
def parse(c, key, x, binary):
    """legacy VTK: returns {section: numbers}"""
    d = {'points': None, 'cells': None, 'types': None, 'data': {}, 'n': {}}
    if binary:
        L = []; cur = ''
        for t in x:
            if isinstance(t, str) or t[0] == 'n': cur += t if isinstance(t, str) else str(t[1])
            else:
                if cur: L += [('t', y) for y in cur.split('\n') if y.strip()]; cur = ''
                L.append(t)
        L += [('t', y) for y in cur.split('\n') if y.strip()]
        toks = [('l', y[1].split()) if y[0] == 't' else y for y in L]
    else:
        toks = []
        for l in lines(x):
            if all(not isinstance(y, tuple) or y[0] == 'n' for y in l) and isinstance(l[0], str): toks.append(('l', [y if isinstance(y, str) else str(y[1]) for y in l]))
            else:
                for y in l:
                    if not isinstance(y, tuple) or y[0] != 'n': return f'{y} within numbers'
                    if len(y) > 2 and y[2] < 6: return 'numbers are written with less than single precision'
                    toks.append(y)
    if len(toks) < 4 or [t[1] for t in toks[:4]] != [['#', 'vtk', 'DataFile', 'Version', '2.0'], toks[1][1], ['BINARY' if binary else 'ASCII'], ['DATASET', 'UNSTRUCTURED_GRID']]: return f'header {[t[1] for t in toks[:4]]}'
    cur = None
    for t in toks[4:]:
        if t[0] == 'l':
            w = t[1]
            if w[0] == 'POINTS' and w[2] == 'float': cur = d['points'] = []; d['n']['points'] = int(w[1])
            elif w[0] == 'CELLS': cur = d['cells'] = []; d['n']['cells'] = (int(w[1]), int(w[2]))
            elif w[0] == 'CELL_TYPES': cur = d['types'] = []; d['n']['types'] = int(w[1])
            elif w[0] == 'CELL_DATA': d['n']['data'] = int(w[1]); cur = None
            elif w[0] == 'POINT_DATA': cur = None
            elif w[0] == 'SCALARS' and w[2] == 'float': nxt = w[1]
            elif w[0] == 'LOOKUP_TABLE':
                if nxt in d['data']: return f'{nxt} twice'
                cur = d['data'][nxt] = []
            elif w[:2] == ['FIELD', 'FieldData']: d['n']['field'] = int(w[2]); cur = None
            elif len(w) == 4 and w[1] == '1' and w[3] == 'float':
                if w[0] in d['data']: return f'{w[0]} twice'
                if int(w[2]) != d['n'].get('data'): return f'{w[0]} has {w[2]} values'
                cur = d['data'][w[0]] = []
            else: return f'unknown line {" ".join(w)}'
        elif cur is None: return 'numbers without a section'
        else: cur.append(t[1])
    if d['n'].get('field', 0) != max(0, len(d['data'])-1): return f'{d["n"].get("field", 0)} further fields announced, {len(d["data"])-1} written'
    return d
def val(v): return int(v.a[0]) if isinstance(v, A.T) and A.isc(v) else v
def be(b):
    """the big-endian 4-byte integer"""
    try: return int.from_bytes(bytes(val(x) & 255 for x in b), 'big', signed=True)
    except TypeError: return None
def norm(p): return os.path.normpath(p)
def study(c, m, T, crs, name, ne, nv, typ, sp, path, steps=3, errs=(), dim=3):
    key = f'{T}, {crs} runs: {name}'; nve, vt = EL[T]; binary = typ == 'vtk_binary'
    fs = F(errs); mod = fs.models()
    for f in m.fns:
        if '6common8allocate' in f: mod[f] = lambda it, i, a, st: I.m_alloc(it, i, [a[0]], st)
        elif '6common7release' in f: mod[f] = lambda it, i, a, st: None
    def memalign(it, i, a, st): it.store(st, a[0], I.m_alloc(it, i, [a[2]], st), it.mkty((8, 0, 'p'))); return 0
    mod['posix_memalign'] = memalign
    s = c.session([m], models=mod); s.it.pos = ()
    it = s.it; L = [it.load(s.st, I.Ptr(it.glob_obj(m.globs['lay']), 8*k), it.mkty((8, 0, 'i'))) for k in range(8)]
    zv, ov, ze, oe, rb, nq, nm, nc = L
    g = next(x for x in m.globs if x.endswith('9g_rankStrB5cxx11E')); I.set_str(it, s.st, I.Ptr(it.glob_obj(m.globs[g]), 0), b'2')
    for n, t in (('typ', typ), ('pth', path)): I.set_str(it, s.st, I.Ptr(it.inputs.get(n) or it.input_obj(n), 0), t.encode())
    cr = (lambda v, k: A.const(3*v+k+1)) if binary else (lambda v, k: A.var(f'x{v}.{k}'))
    df = (lambda n, e, q, d, r: A.const(1000*n+100*e+10*q+r)) if binary else (lambda n, e, q, d, r: A.var(f'd{n}.{e}.{q}.{d}.{r}'))
    for v in range(nv):
        for k in range(3): s.put('ve', zv*v+ov+8*k, cr(v, k), 8, 'f')
    ty = [(0, 1, 3, 2, 7, 3, 5, 6)[e % 8] << 3 for e in range(ne)]
    ev = [[(2*e+3*x+1) % nv for x in range(nve)] for e in range(ne)]
    for e in range(ne):
        s.put('el', ze*e+oe, ty[e])
        for x in range(nve): s.put('ev', 8*(nve*e+x), ev[e][x])
    def dofs(n):
        for e in range(ne):
            for q in range(nq):
                for d in range(nm):
                    for r in range(nc): s.put('dof', rb*(((e*nq+q)*nm+d)*nc+r), df(n, e, q, d, r), rb, 'f')
    dofs(0)
    a = [('typ', 8), ('pth', 8), nv, ne, ('ve', 8), ('el', 8), ('ev', 8), ('dof', rb)]
    ok = s.call('mk', *a, sp << 3) if sp is not None else s.call('mka', *a)
    if errs and errs[0] != 17: return c.holds('path', not ok, f'{key}: a directory that cannot be created', f'{WF}: the failure to create a directory is ignored')
    if not c.holds('path', ok, f'{key}: set-up', f'{WF}: {s.why}'): return
    pr = [e for e in range(ne) if sp is None or (ty[e] >> 3) & sp == sp]; on = typ in ('vtk_ascii', 'vtk_binary')
    for n in range(steps):
        if n: dofs(n)
        if not c.holds('file', s.call('wr', A.var(f't{n}')), f'{key}: write {n}', f'{VK}: {s.why}'): return
        if not on or not pr:
            c.holds('path', not fs.files, f'{key}: no output', f'{WF}: a file {[x[0] for x in fs.files[:1]]} is written although {"no output is configured" if not on else "there is no element to print"}'); continue
        if not c.holds('path', len(fs.files) == n+1, f'{key}: file {n}', f'{WF}: write {n} writes {len(fs.files)-n} files'): return
        fn, mode, tx, op = fs.files[n]; di, _, ba = path.rpartition('/'); di = di if di or path.startswith('/') else ba
        want = norm(f'{di}/2/{ba}_2_{n}.vtk')
        c.holds('path', fn is not None and norm(fn) == want and mode[0] == 'w' and not op, f'{key}: path {n}', f'{WF}: {fn} (mode {mode}) instead of {want}{", left open" if op else ""}')
        if n == 0:
            w = []; q = ''
            for x in norm(f'{di}/2').split('/'):
                q = q+'/'+x if q or di.startswith('/') and x else x
                if q: w.append(norm(q))
            got = [norm(x or '?') for x in fs.dirs]; c.holds('path', [x for x in got if x not in ('/', '.')] == [x for x in w if x not in ('.', '/')], f'{key}: directories', f'{WF}: the directories {got} are created instead of {w}')
        d = parse(c, key, tx, binary)
        if not c.holds('file', not isinstance(d, str), f'{key}: format {n}', f'{VW}: {d}'): return
        N = d['n']; iv = (lambda x: be(x)) if binary else val
        c.holds('mesh', N.get('points') == nv and d['points'] is not None and len(d['points']) == 3*nv, f'{key}: points {n}', f'{VW}: {N.get("points")} points with {len(d["points"] or ())} coordinates instead of {nv}')
        ev_ = [x for e in pr for x in [nve]+ev[e]]; got = [iv(x) for x in d['cells'] or ()]
        c.holds('mesh', N.get('cells') == (len(pr), len(pr)*(nve+1)) and got == ev_, f'{key}: cells {n}', f'{VK}: cells {N.get("cells")} {got[:9]} instead of {ev_[:9]}')
        c.holds('mesh', N.get('types') == len(pr) and [iv(x) for x in d['types'] or ()] == [vt]*len(pr), f'{key}: cell types {n}', f'{VK}: types {[iv(x) for x in d["types"] or ()][:3]} instead of {vt}')
        c.holds('data', N.get('data') == len(pr) and sorted(d['data']) == sorted(f'crun_{r}_var_{q}' for r in range(nc) for q in range(nq)), f'{key}: fields {n}', f'{VK}: {N.get("data")} values of {sorted(d["data"])[:4]}')
        def eq(rule, k, g_, w_):
            if binary: c.holds(rule, fbits(g_) == int(w_.a[0]), k, f'{VW}: {g_} instead of {w_.a[0]}')
            else: c.same(rule, k, g_, w_, VK)
        for v in range(nv if len(d['points'] or ()) == 3*nv else 0):
            for k in range(3): eq('mesh', f'{key}: coordinate {k} of vertex {v}, write {n}', d['points'][3*v+k], cr(v, k))
        for r in range(nc):
            for q in range(nq):
                x = d['data'].get(f'crun_{r}_var_{q}', [])
                if not c.holds('data', len(x) == len(pr), f'{key}: values of quantity {q}, run {r}, write {n}', f'{VK}: {len(x)} values instead of {len(pr)}'): continue
                for k, e in enumerate(pr): eq('data', f'{key}: mean of quantity {q}, run {r}, element {e}, write {n}', x[k], df(n, e, q, 0, r))
    c.holds('file', s.call('del'), f'{key}: release', f'{VK}: {s.why}')
def fbits(b):
    import struct
    try: return struct.unpack('>f', bytes(val(x) & 255 for x in b))[0]
    except (TypeError, struct.error): return None
def body(c):
    ST = ('-I'+B.REPO,); jobs = {}
    for T, eq, o, crs in (('TRIA3', 'elastic', 2, 2), ('TET4', 'advection', 2, 1), ('HEX8R', 'advection', 1, 2), ('QUAD4R', 'swe', 1, 3), ('LINE', 'advection', 3, 1)):
        jobs[T] = (B.edge_flags(eq, T, o, 32, crs, extra=ST), crs)
    c.prefetch([(None, f, TXT) for f, _ in jobs.values()])
    c.rule('path', 'write n of a rank goes to <directory>/<rank>/<file>_<rank>_<n>.vtk; its directories are created; ranks without elements or output write nothing')
    c.rule('file', 'every file is a complete legacy VTK file')
    c.rule('mesh', 'the file holds all vertices and the elements with the requested sparse type, in order')
    c.rule('data', 'the field of a quantity and run holds the means of the printed elements at the time of the write')
    for T, (f, crs) in jobs.items():
        m = c.driver(TXT, f, f'wave field {T}'); st = lambda *a, **k: study(c, m, T, crs, *a, **k)
        st('all elements', 5, 9, 'vtk_ascii', None, 'out/wf')
        st('sparse type', 8, 8, 'vtk_ascii', 1, 'out/sub/wf')
        st('two-bit type', 8, 9, 'vtk_ascii', 3, '/abs/wf')
        st('no element', 6, 7, 'vtk_ascii', 8, 'out/wf')
        st('off', 3, 5, '', None, '')
        st('binary', 4, 6, 'vtk_binary', 2, 'out/wf')
        if T == 'TRIA3':
            st('unknown type', 3, 5, 'xdmf', None, 'out/wf')
            st('existing directory', 3, 5, 'vtk_ascii', None, 'out/wf', errs=(17, 17)); st('read-only directory', 3, 5, 'vtk_ascii', None, 'out/wf', errs=(13,))
            st('many elements', 23, 31, 'vtk_ascii', None, 'wf', steps=11)
    return c.finish('WaveField, Vtk and the writer are interpreted with symbolic coordinates and solutions; text output is recorded as tokens and parsed back', ['stat and mkdir behave as named; the writer runs in single precision, whose rounding is not modelled'], 3000)
if __name__ == '__main__': H.main('C11', body)
