import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import harness as H, build as B, algebra as A, absint as I
from fractions import Fraction as Q
import re
TXT = r'''
#include <cstddef>
#include <new>
#include "io/Config.cpp"
#ifdef PP_T_EQUATIONS_SEISMIC
#include "impl/seismic/io/Config.cpp"
#endif
#include "io/ErrorNorms.cpp"
using namespace edge;
typedef io::Config C; typedef linalg::Domain< real_mesh, N_DIM, edge::linalg::HalfSpace > D;
alignas(64) static char cf[sizeof(C)]; alignas(64) static char en[sizeof(io::ErrorNorms)];
extern "C" {
  C *mk( std::string const *p ) { return new (cf) C( *p ); }
  void *nrm( std::string const *t, std::string const *f ) { return new (en) io::ErrorNorms( *t, *f ); }
  bool nren() { return ((io::ErrorNorms*) en)->outEnabled(); }
  void nrw( double const (*d)[N_QUANTITIES][N_CRUNS] ) { ((io::ErrorNorms*) en)->write( d ); }
  bool ins( D const *d, real_mesh const *p ) { return const_cast< D* >( d )->inside( p ); }
#ifdef PP_T_EQUATIONS_SEISMIC
  typedef seismic::io::Config S; alignas(64) static char scf[sizeof(S)];
  S *mks( pugi::xml_document const *d ) { return new (scf) S( *d ); }
#endif
}
extern "C" unsigned long offC[] = { offsetof(C,m_separateWrks), offsetof(C,m_periodic), offsetof(C,m_bndConId), offsetof(C,m_bndConName), offsetof(C,m_meshInBase), offsetof(C,m_meshInExt), offsetof(C,m_initValsExprStrs), offsetof(C,m_refValsExprStrs), offsetof(C,m_endTime), offsetof(C,m_waveFieldSpType), offsetof(C,m_waveFieldType), offsetof(C,m_waveFieldFile), offsetof(C,m_waveFieldInt), offsetof(C,m_syncMaxInt), offsetof(C,m_iBndType), offsetof(C,m_iBndFile), offsetof(C,m_iBndInt), offsetof(C,m_errorNormsType), offsetof(C,m_errorNormsFile), offsetof(C,m_recvCrds), offsetof(C,m_recvNames), offsetof(C,m_recvFreq), offsetof(C,m_recvPath), offsetof(C,m_spTypesDoms), offsetof(C,m_spTypesVals), offsetof(C,m_doc), sizeof(D), sizeof(real_mesh), sizeof(real_base), sizeof(int_el), N_CRUNS, N_QUANTITIES, N_DIM, sizeof(int_spType),
#ifdef PP_T_EQUATIONS_SEISMIC
 offsetof(S,m_ptSrcs), offsetof(S,m_velDoms), offsetof(S,m_velVals), offsetof(S,m_attFreqs), offsetof(S,m_frictionLaw), offsetof(S,m_faultCrds), offsetof(S,m_lsw), offsetof(S,m_rupDoms), offsetof(S,m_stressInit), N_RELAXATION_MECHANISMS };
#else
 0,0,0,0,0,0,0,0,0,0 };
#endif
'''
CP, SP, EN = 'src/io/Config.cpp', 'src/impl/seismic/io/Config.cpp', 'src/io/ErrorNorms.cpp'
NAMES = 'wrks per bndId bndNm base ext ini ref end wfSp wfTy wfFi wfIn sync ibTy ibFi ibIn enTy enFi rcC rcN rcF rcP spD spV doc zD zM zB zI nc nq nd zS ptS veD veV att fri fau lsw ruD stI nrel'.split()
DMAX = Q(2-Q(2)**-52)*Q(2)**1023; FMAX = Q(2-Q(2)**-23)*Q(2)**127
class N:
    """a node of the document: name, text (str, int, Fraction or term), children"""
    def __init__(s, name, *ch, text=None): s.name, s.ch, s.text, s.up = name, list(ch), text, None; [setattr(x, 'up', s) for x in ch]
def n(name, *a):
    if len(a) == 1 and not isinstance(a[0], N): return N(name, text=a[0])
    return N(name, *[x for x in a if x is not None])
class Doc:
    """the interface of the XML library, over a document known to the analysis"""
    def __init__(s, root, ok=True): s.root, s.ok, s.h, s.saved, s.loaded, s.bits = root, ok, {}, [], [], {}
    def hnd(s, it, nd):
        if nd is None: return I.NULL
        for o, x in s.h.items():
            if x is nd: return I.Ptr(o, 0)
        o = it.input_obj(f'xml{len(s.h)}'); s.h[o] = nd; return I.Ptr(o, 0)
    def at(s, it, st, p):
        q = it.load(st, p, it.mkty((8, 0, 'ptr')))
        return s.h.get(q.o) if isinstance(q, I.Ptr) else None
    def models(s):
        E = {}
        def m(nm, f): E['_ZNK4pugi'+nm] = E['_ZN4pugi'+nm] = f
        def name(it, st, p):
            x = I.cstr_at(it, st, p)
            if x is None: raise I.Bottom('a node of unknown name is looked up')
            return x.decode()
        def child(it, i, a, st):
            nd = s.at(it, st, a[0]); k = name(it, st, a[1]); return s.hnd(it, next((x for x in nd.ch if x.name == k), None) if nd else None)
        def nxt(it, i, a, st):
            nd = s.at(it, st, a[0]); k = name(it, st, a[1]) if len(a) > 1 else None
            if nd is None or nd.up is None: return I.NULL
            r = nd.up.ch[nd.up.ch.index(nd)+1:]; return s.hnd(it, next((x for x in r if k is None or x.name == k), None))
        def first(it, i, a, st): nd = s.at(it, st, a[0]); return s.hnd(it, nd.ch[0] if nd and nd.ch else None)
        def last(it, i, a, st): nd = s.at(it, st, a[0]); return s.hnd(it, nd.ch[-1] if nd and nd.ch else None)
        def parent(it, i, a, st): nd = s.at(it, st, a[0]); return s.hnd(it, nd.up if nd else None)
        def cs(it, st, t):
            o = it.input_obj(f'txt{len(s.bits)}'); s.bits[o] = t
            for k, x in enumerate(t.encode()+b'\0'): it.store(st, I.Ptr(o, k), x, it.mkty((1, 0, 'i')))
            return I.Ptr(o, 0)
        def nm(it, i, a, st): nd = s.at(it, st, a[0]); return cs(it, st, nd.name if nd else '')
        def same(it, i, a, st): return s.hnd(it, s.at(it, st, a[0]))
        def isn(it, i, a, st): return I.Ptr(it.inputs.get('true') or it.input_obj('true'), 0) if s.at(it, st, a[0]) is not None else I.NULL
        def empty(it, i, a, st): return A.TRUE if s.at(it, st, a[0]) is None else A.FALSE
        def isnot(it, i, a, st): return empty(it, i, a, st)
        def astr(it, i, a, st):
            nd = s.at(it, st, a[0])
            if nd is None or nd.text is None: return a[1]
            return cs(it, st, str(nd.text) if not isinstance(nd.text, A.T) else '?')
        def num(kind):
            def f(it, i, a, st):
                nd = s.at(it, st, a[0]); v = nd.text if nd else None
                if v is None: return a[1]
                if isinstance(v, str):
                    if v == '': return a[1]
                    try: v = Q(v)
                    except ValueError: v = Q(0)
                if kind in 'df':
                    if isinstance(v, A.T): return v if kind == 'd' else A.fn('single', v)
                    return A.const(Q(v))
                if isinstance(v, A.T): raise I.Bottom('a real number is read as an integer')
                return int(v)
            return f
        m('8xml_node5childEPKc', child); m('8xml_node12next_siblingEv', nxt); m('8xml_node12next_siblingEPKc', nxt); m('8xml_node11first_childEv', first); m('8xml_node10last_childEv', last); m('8xml_node6parentEv', parent)
        m('8xml_node4nameEv', nm); m('8xml_node4textEv', same); m('8xml_nodecvPFvPPPS0_EEv', isn); m('8xml_textcvPFvPPPS0_EEv', isn); m('8xml_node5emptyEv', empty); m('8xml_nodentEv', isnot); m('8xml_text9as_stringEPKc', astr); m('8xml_text3getEv', lambda it, i, a, st: astr(it, i, [a[0], cs(it, st, '')], st)); m('8xml_node11child_valueEv', lambda it, i, a, st: astr(it, i, [a[0], cs(it, st, '')], st))
        m('8xml_node11child_valueEPKc', lambda it, i, a, st: (lambda x: cs(it, st, str(x.text)) if x and x.text is not None else cs(it, st, ''))(next((y for y in (s.at(it, st, a[0]) or N('')).ch if y.name == name(it, st, a[1])), None)))
        for x, k in (('9as_doubleEd', 'd'), ('8as_floatEf', 'f'), ('6as_intEi', 'i'), ('7as_uintEj', 'i'), ('8as_llongEx', 'i'), ('9as_ullongEy', 'i'), ('7as_boolEb', 'i')): m('8xml_text'+x, num(k))
        def ctor(it, i, a, st): it.store(st, a[0], s.hnd(it, s.root), it.mkty((8, 0, 'ptr')))
        def empt(it, i, a, st): it.store(st, a[0], I.NULL, it.mkty((8, 0, 'ptr')))
        def load(it, i, a, st):
            s.loaded.append(I.cstr_at(it, st, a[2])); it.store(st, a[1], s.hnd(it, s.root), it.mkty((8, 0, 'ptr'))); return None
        m('8xml_nodeeqERKS0_', lambda it, i, a, st: A.TRUE if s.at(it, st, a[0]) is s.at(it, st, a[1]) else A.FALSE); m('8xml_nodeneERKS0_', lambda it, i, a, st: A.TRUE if s.at(it, st, a[0]) is not s.at(it, st, a[1]) else A.FALSE)
        m('12xml_documentC1Ev', ctor); m('12xml_documentD1Ev', lambda it, i, a, st: None); m('8xml_nodeC1Ev', empt); m('12xml_document9load_fileEPKcjNS_12xml_encodingE', load)
        m('16xml_parse_resultcvbEv', lambda it, i, a, st: A.TRUE if s.ok else A.FALSE); m('16xml_parse_result11descriptionEv', lambda it, i, a, st: cs(it, st, '')); m('8xml_node9attributeEPKc', lambda it, i, a, st: I.NULL); m('13xml_attribute5valueEv', lambda it, i, a, st: cs(it, st, ''))
        def app(it, i, a, st):
            nd = s.at(it, st, a[0])
            if nd is None: return I.NULL
            x = N(name(it, st, a[1])); x.up = nd; nd.ch.append(x); return s.hnd(it, x)
        def asg(it, i, a, st):
            nd = s.at(it, st, a[0])
            if nd is not None: nd.text = a[1]
            return a[0]
        def setb(it, i, a, st): asg(it, i, a, st); return A.TRUE
        m('8xml_node12append_childEPKc', app); m('8xml_textaSEd', asg); m('8xml_text3setEd', setb)
        def save(it, i, a, st): s.saved.append((I.cstr_at(it, st, a[1]), s.at(it, st, a[0]))); return A.TRUE
        m('12xml_document9save_fileEPKcS2_jNS_12xml_encodingE', save)
        return E
class Cfg:
    def __init__(s, c, m, key): s.c, s.m, s.key = c, m, key
    def start(s, root, ok=True):
        s.d = Doc(root, ok); mod = {k: v for k, v in s.d.models().items()}
        noop = lambda it, i, a, st: None
        for f in s.m.fns:
            if re.search(r'2io6Config(10printBuild|11printConfig|14printMultiLine)|7seismic2io6Config5printEv|10ErrorNorms5printE', f): mod[f] = noop
        s.s = s.c.session([s.m], models=mod); s.s.it.pos = ()
        it = s.s.it; o = it.glob_obj(s.m.globs['offC']); s.o = {k: it.load(s.s.st, I.Ptr(o, 8*j), it.mkty((8, 0, 'i'))) for j, k in enumerate(NAMES)}
        return s
    def text(s, n_, t): it = s.s.it; p = I.Ptr(it.inputs.get(n_) or it.input_obj(n_), 0); I.set_str(it, s.s.st, p, t.encode()); return (n_, 8)
    def parse(s):
        s.text('pth', 'in/cfg.xml'); ok = s.s.call('mk', ('pth', 8)); s.p = s.s.ret if ok else None; return ok
    def parse2(s):
        x = s.p; ok = s.s.call('mks', I.Ptr(x.o, x.off+s.o['doc'])) if s.p is not None else False; s.q = s.s.ret if ok else None; return ok
    def ld(s, p, off, sz=8, kd='i'):
        t = s.s.it.mkty((sz, 0, kd))
        if kd == 'f': t.w = 8*sz
        return s.s.it.load(s.s.st, I.Ptr(p.o, p.off+off), t)
    def st(s, p, off): x = I.str_at(s.s.it, s.s.st, I.Ptr(p.o, p.off+off)); return None if x is None else x.decode()
    def vec(s, p, off, z):
        b, e = s.ld(p, off, 8, 'ptr'), s.ld(p, off+8, 8, 'ptr')
        if isinstance(b, I.Null): return []
        if not (isinstance(b, I.Ptr) and isinstance(e, I.Ptr) and b.o is e.o): return None
        return [I.Ptr(b.o, k) for k in range(b.off, e.off, z)]
    def eq(s, rule, what, got, want, where):
        if isinstance(want, (str, int, list, type(None))): return s.c.holds(rule, got == want, f'{s.key}: {what}', f'{where}: {got!r} instead of {want!r}')
        g = A.lift(got) if isinstance(got, (A.T, int, Q)) else None
        if g is None: return s.c.holds(rule, False, f'{s.key}: {what}', f'{where}: {got!r} instead of {want}')
        return s.c.same(rule, f'{s.key}: {what}', g, A.lift(want) if not isinstance(want, A.T) else want, where)
    def doms(s, rule, what, p, off, want, where):
        """the half spaces of the domains: compared by what is inside of them"""
        v = s.vec(p, off, s.o['zD'])
        if not s.c.holds(rule, v is not None and len(v) == len(want), f'{s.key}: {what}', f'{where}: {None if v is None else len(v)} domains instead of {len(want)}'): return
        nd = s.o['nd']; PT = [[Q(x), Q(y), Q(z)][:nd] for x in (-2, 0, 3) for y in (-3, 1, 2) for z in ((-1, 4) if nd == 3 else (0,))]
        for k, (q, hs) in enumerate(zip(v, want)):
            bad = []
            for pt in PT:
                for j, x in enumerate(pt): s.s.put('pt', s.o['zM']*j, A.const(x), s.o['zM'], 'f')
                if not s.s.call('ins', q, ('pt', s.o['zM'])): bad.append((pt, s.s.why)); break
                r = s.s.ret; w = all(sum((x-o)*n_ for x, o, n_ in zip(pt, O, M)) >= 0 for O, M in hs)
                if (r is A.TRUE or r == 1) != w: bad.append(([str(x) for x in pt], w))
            s.c.holds(rule, not bad, f'{s.key}: {what} {k}', f'{where}: point, inside: {bad[:1]}')
XYZ = 'xyz'
def hsn(O, M): return n('half_space', n('origin', *[n(XYZ[k], v) for k, v in enumerate(O)]), n('normal', *[n(XYZ[k], v) for k, v in enumerate(M)]))
HS = [([Q(1), Q(0), Q(2)], [Q(1), Q(0), Q(0)]), ([Q(-1), Q(1, 2), Q(0)], [Q(0), Q(-1), Q(0)]), ([Q(0), Q(3, 2), Q(1)], [Q(1), Q(2), Q(1)]), ([Q(2), Q(-1), Q(3)], [Q(-1), Q(-1), Q(1)])]
def general(c, m, key, k):
    """the general part for pattern k"""
    s = Cfg(c, m, key); x = Cfg(c, m, key).start(N('')); nc, nd = x.o['nc'], x.o['nd']; rc = [0, 2, 3, 1][k % 4]; v = A.var
    hs = lambda js: [hsn(HS[j][0], HS[j][1]) for j in js]
    sp = {'vertices': [], 'faces': [([0, 1], 1 << 5), ([2], 3 << 6)][:k % 3], 'elements': [([3], 1 << 4), ([], 5), ([1, 2], 9)][:(k+1) % 4]}
    ini = ['q := x;', 'q := y; r := 2;', 'q := x+y;', 'q := 3;'][:[nc, nc-1, nc+1, 0][k % 4]]; ref = ['q := 1;', 'q := 2;', 'q := 3;', 'q := 4;'][:[0, nc, nc-1, nc+1][k % 4]]
    wf = [('vtk_ascii', 'out/wf', Q(1, 4), 6), None, ('vtk_binary', 'wf2', Q(3), None), ('vtk_ascii', 'o/w', Q(1, 10), 0)][k % 4]; end = [Q(2), Q(7), Q(100), Q(1)][k % 4]
    sync = [None, Q(1, 3), None, Q(5)][k % 4]; ib = [('vtk_ascii', 'out/ib', v('ib')), None][k % 2]; bnd = [('free_surface', 101), ('periodic', 106), ('outflow', 105), ('wall', 7)][:[4, 0, 1, 3][k % 4]]; per = dict(bnd).get('periodic', 2**31-1)
    frq = [(Q(1, 8), Q(1, 2)), (Q(1, 5), Q(0)), (None, Q(1, 7)), (Q(1, 9), Q(1, 3))][k % 4]; pth = [('out/r', 'out/q'), ('out/r', ''), ('a', None), ('out/r', 'b')][k % 4]; nrc = [(rc, 2), (2, 3), (3, 2), (1, 0)][k % 4]
    wk = [None, 3, 'x', 1][k % 4]
    nm = lambda t, j: '' if (j+t) % 2 else f'rec{t}{j}'
    recv = lambda t: n(('receivers', 'receivers_quad')[t], n('freq', frq[t]) if frq[t] is not None else None, n('path_to_dir', pth[t]) if pth[t] is not None else None, *[n('receiver', n('name', nm(t, j)) if nm(t, j) else None, n('coords', *[n(y, v(f'r{t}{j}{y}')) for y in XYZ])) for j in range(nrc[t])])
    root = N('', n('edge', n('build', n('order', 2)),
      n('parallelization', *([] if wk == 'x' else [n('separate_workers', wk)])) if wk is not None else None, n('synchronization', n('max_int', sync)) if sync is not None else None,
      n('cfr', n('mesh', n('in', n('base', 'in/m'), n('extension', '.msh')), n('boundary', *[n(a, b) for a, b in bnd]), n('sparse_types', *[n(e, *[n('domain', *hs(j), n('type', t)) for j, t in ds]) for e, ds in sp.items()])),
        n('setups', n('initial_values', *[n('values', t) for t in ini]), n('end_time', end)),
        n('output', n('wave_field', n('type', wf[0]), n('file', wf[1]), n('int', wf[2]), n('sparse_type', wf[3]) if wf[3] is not None else None) if wf else None, n('internal_boundary', *[n(a, b) for a, b in zip(('type', 'file', 'int'), ib)]) if ib else None,
          recv(0), recv(1), n('error_norms', n('type', 'file') if k % 2 else None, n('file', 'out/err.xml'), n('reference_values', *[n('values', t) for t in ref]))))))
    s.start(root)
    if not c.holds('general', s.parse(), f'{key}: end', f'{CP}: {s.s.why}'): return
    p, o, e = s.p, s.o, lambda what, got, want: s.eq('general', what, got, want, CP)
    c.holds('general', s.d.loaded == [b'in/cfg.xml'], f'{key}: document', f'{CP}: {s.d.loaded} is read')
    e('base of the mesh', s.st(p, o['base']), 'in/m'); e('extension of the mesh', s.st(p, o['ext']), '.msh'); e('periodic boundary', s.ld(p, o['per'], 4), per)
    e('boundary ids', [s.ld(q, 0, 4) for q in s.vec(p, o['bndId'], 4) or ()], [b for a, b in bnd if a != 'periodic']); e('boundary names', [s.st(q, 0) for q in s.vec(p, o['bndNm'], 32) or ()], [a for a, b in bnd if a != 'periodic'])
    for t, ds in enumerate(sp.values()):
        s.doms('domains', f'domains of the {("vertices", "faces", "elements")[t]}', p, o['spD']+24*t, [[(a[:nd], b[:nd]) for a, b in (HS[j] for j in js)] for js, _ in ds], CP)
        s.eq('domains', f'types of the {("vertices", "faces", "elements")[t]}', [s.ld(q, 0, o['zS']) for q in s.vec(p, o['spV']+24*t, o['zS']) or ()], [y for _, y in ds], CP)
    for what, off, vals in (('initial values', 'ini', ini), ('reference values', 'ref', ref)):
        for r in range(nc):
            g = s.st(p, o[off]+32*r)
            if r < len(vals): e(f'{what} of run {r}', g, vals[r])
            else: c.holds('general', g is not None and g.replace(' ', '').startswith('q:=0;'), f'{key}: {what} of run {r}', f'{CP}: {g!r} instead of zero')
    e('end time', s.ld(p, o['end'], 8, 'f'), A.const(end))
    e('type of the wave field', s.st(p, o['wfTy']), wf[0] if wf else '')
    if wf: e('file of the wave field', s.st(p, o['wfFi']), wf[1])
    wi = wf[2] if wf else DMAX/2; e('interval of the wave field', s.ld(p, o['wfIn'], 8, 'f'), A.const(wi))
    e('sparse type of the wave field', s.ld(p, o['wfSp'], o['zS']), wf[3] if wf and wf[3] is not None else 2**63-1)
    g = s.ld(p, o['sync'], 8, 'f'); w = sync if sync is not None else min(Q(0.05)*end, wi); g = A.lift(g) if not isinstance(g, A.T) else g
    c.holds('general', A.isc(g) and abs(Q(g.a[0])-w) <= w/10**12, f'{key}: synchronisation limit', f'{CP}: {g} instead of {w}')
    e('type of the internal boundary', s.st(p, o['ibTy']), ib[0] if ib else '')
    if ib: e('file of the internal boundary', s.st(p, o['ibFi']), ib[1])
    e('interval of the internal boundary', s.ld(p, o['ibIn'], 8, 'f'), ib[2] if ib else A.const(DMAX/2))
    e('type of the error norms', s.st(p, o['enTy']), 'file' if k % 2 else ''); e('file of the error norms', s.st(p, o['enFi']), 'out/err.xml')
    e('separate workers', s.ld(p, o['wrks'], o['zI']), wk if isinstance(wk, int) else 1)
    for t in range(2):
        on = nrc[t] > 0 and frq[t] is not None and frq[t] > 0 and pth[t]
        R = lambda what, got, want: s.eq('receivers', f'{what} of receivers {t}', got, want, CP)
        cv, nv = s.vec(p, o['rcC']+24*t, 3*o['zM']), s.vec(p, o['rcN']+24*t, 32)
        R('number', (None if cv is None or nv is None else [len(cv), len(nv)]), [nrc[t] if on else 0]*2)
        if not on or cv is None or nv is None or [len(cv), len(nv)] != [nrc[t]]*2: continue
        R('sampling', s.ld(p, o['rcF']+8*t, 8, 'f'), A.const(frq[t])); R('path', s.st(p, o['rcP']+32*t), pth[t])
        for j in range(nrc[t]):
            R(f'name {j}', s.st(nv[j], 0), nm(t, j) or str(j))
            for y in range(3): R(f'{XYZ[y]} {j}', s.ld(cv[j], o['zM']*y, o['zM'], 'f'), v(f'r{t}{j}{XYZ[y]}'))
def bad(c, m, key):
    """configurations that are rejected"""
    ok = lambda wf=Q(1), sy=Q(1), end=Q(1): N('', n('edge', n('synchronization', n('max_int', sy)) if sy is not None else None, n('cfr', n('setups', n('end_time', end)), n('output', n('wave_field', n('type', 'vtk_ascii'), n('int', wf))))))
    for what, root, good, want in (('valid', ok(), True, True), ('a document with errors', ok(), False, False), ('a wave field interval of zero', ok(Q(0)), True, False), ('a negative wave field interval', ok(Q(-1)), True, False), ('a synchronisation limit of zero', ok(sy=Q(0)), True, False), ('a negative synchronisation limit', ok(sy=Q(-2)), True, False), ('no end time', ok(sy=None, end=Q(0)), True, False)):
        s = Cfg(c, m, key).start(root, good); r = s.parse(); c.holds('reject', bool(r) == want, f'{key}: {what}', f'{CP}: {what} is {"accepted" if r else "rejected: "+str(s.s.why)}')
def seismic(c, m, key, k):
    s = Cfg(c, m, key); x = Cfg(c, m, key).start(N('')); o = x.o; nc, nd, nr = o['nc'], o['nd'], o['nrel']; v = A.var
    src = [f'in/src_{r}.h5' for r in range(nc)] if k % 2 == 0 else []
    dom = [([0, 1], 'a'), ([2], 'b'), ([], 'c')][:[3, 0, 1, 2][k % 4]]; rup = [0, nc, nc-1, nc+1][k % 4]
    mat = lambda t: [(y, v(f'{y}{t}')) for y in ('rho', 'lambda', 'mu')]+[(y, Q(z+ord(t))) for y, z in (('qp', 20), ('qs', 10))][:2 if nr or k % 2 else 0]
    sd = [([1], 0), ([2, 3], 1)][:1+k % 2]; hs = lambda js: [hsn(HS[j][0], HS[j][1]) for j in js]
    fd = ('normal', 'strike', 'dip')
    rp = lambda r: n('rupture', n('friction_law', *[n(y, v(f'{y}{r}')) for y in ('mus', 'mud', 'dc')]), n('stress_init', *[n('domain', *hs(js), n('values', n('sn0', v(f'sn{r}{j}')), n('ss0', n('normal_strike', v(f'st{r}{j}')), n('normal_dip', v(f'di{r}{j}'))))) for js, j in sd]))
    root = N('', n('edge', n('synchronization', n('max_int', Q(1))), n('cfr', n('velocity_model', *[n('domain', *hs(js), *[n(a, b) for a, b in mat(t)]) for js, t in dom]),
      n('setups', n('end_time', Q(1)), n('point_sources', *[n('file', f) for f in src]), n('attenuation', n('central_frequency', Q(3)), n('frequency_ratio', Q(100))) if nr or k % 2 else None, n('fault_coordinates', *[n(fd[a], *[n(XYZ[b], v(f'f{a}{b}')) for b in range(3)]) for a in range(3)]), *[rp(r) for r in range(rup)]), n('output'))))
    s.start(root)
    if not c.holds('seismic', s.parse() and s.parse2(), f'{key}: end', f'{SP}: {s.s.why}'): return
    q = s.q; zb = o['zB']; e = lambda what, got, want: s.eq('seismic', what, got, want, SP)
    e('point sources', [s.st(y, 0) for y in s.vec(q, o['ptS'], 32) or ()], src)
    for j, w in enumerate((Q(3), Q(100)) if nr else (DMAX, DMAX)): e(('central frequency', 'frequency ratio')[j], s.ld(q, o['att']+8*j, 8, 'f'), A.const(w))
    s.doms('domains', 'velocity model', q, o['veD'], [[(a[:nd], b[:nd]) for a, b in (HS[j] for j in js)] for js, _ in dom], SP)
    vv = s.vec(q, o['veV'], 5*zb)
    if c.holds('seismic', vv is not None and len(vv) == len(dom), f'{key}: materials', f'{SP}: {vv and len(vv)} materials for {len(dom)} domains'):
        for y, (_, t) in zip(vv, dom):
            for j, (nm, w) in enumerate((mat(t)+[('qp', FMAX), ('qs', FMAX)][:2 if len(mat(t)) < 5 else 0]) if nr else mat(t)[:3]+[('qp', FMAX), ('qs', FMAX)]): e(f'{nm} of domain {t}', s.ld(y, zb*j, zb, 'f'), w if isinstance(w, A.T) else A.const(w))
    e('friction law', s.st(q, o['fri']), 'lsw' if rup else '')
    for a in range(nd):
        for b in range(nd): e(f'{fd[a]} of the fault, {XYZ[b]}', s.ld(q, o['fau']+o['zM']*(nd*a+b), o['zM'], 'f'), v(f'f{a}{b}'))
    for r in range(nc):
        w = r < rup
        if w:
            for j, nm in enumerate(('mus', 'mud', 'dc')): e(f'{nm} of run {r}', s.ld(q, o['lsw']+zb*(3*r+j), zb, 'f'), v(f'{nm}{r}'))
        s.doms('domains', f'initial stress of run {r}', q, o['ruD']+24*r, [[(a[:nd], b[:nd]) for a, b in (HS[j] for j in js)] for js, _ in sd] if w else [], SP)
        sv = s.vec(q, o['stI']+24*r, nd*zb)
        if c.holds('seismic', sv is not None and len(sv) == (len(sd) if w else 0), f'{key}: stresses of run {r}', f'{SP}: {sv and len(sv)} initial stresses'):
            for y, (_, j) in zip(sv, sd):
                for z, nm in enumerate(('sn', 'st', 'di')[:nd]): e(f'initial stress {nm} of run {r}, domain {j}', s.ld(y, zb*z, zb, 'f'), v(f'{nm}{r}{j}'))
def sbad(c, m, key):
    x = Cfg(c, m, key).start(N('')); nc, nr = x.o['nc'], x.o['nrel']
    def doc(src=0, fc=Q(1), fr=Q(100), qp=Q(2), qs=Q(1)): return N('', n('edge', n('synchronization', n('max_int', Q(1))), n('cfr', n('velocity_model', n('domain', n('rho', Q(1)), n('lambda', Q(1)), n('mu', Q(1)), n('qp', qp), n('qs', qs))), n('setups', n('end_time', Q(1)), n('point_sources', *[n('file', 's') for _ in range(src)]), n('attenuation', n('central_frequency', fc), n('frequency_ratio', fr))))))
    for what, root, want in (('valid', doc(), True), ('one source file too many', doc(src=nc+1), False), ('one source file too few', doc(src=nc-1), nc == 1), ('central frequency zero', doc(fc=Q(0)), not nr), ('negative frequency ratio', doc(fr=Q(-1)), not nr), ('qp zero', doc(qp=Q(0)), not nr), ('qs negative', doc(qs=Q(-3)), not nr)):
        s = Cfg(c, m, key).start(root); r = s.parse() and s.parse2(); c.holds('reject', bool(r) == want, f'{key}: {what}', f'{SP}: {what} is {"accepted" if r else "rejected: "+str(s.s.why)}')
def norms(c, m, key):
    for rank in (0, 1):
        for typ in ('', 'sout', 'file', 'sout_file', 'other'):
            s = Cfg(c, m, key).start(N('')); k_ = f'{key}: norms {typ or "off"}, rank {rank}'; nq, nc = s.o['nq'], s.o['nc']; s.key = k_
            for g in m.globs:
                if g.endswith('6g_rankE'): s.s.st.wr(s.s.it.glob_obj(m.globs[g])).cells[0] = (4, rank, 'i')
            for j in range(3):
                for q in range(nq*nc): s.s.put('nrm_', 8*(nq*nc*j+q), A.var(f'n{j}.{q}'), 8, 'f')
            if not c.holds('norms', s.s.call('nrm', s.text('t', typ), s.text('f', 'out/e.xml')), f'{k_}: set-up', f'{EN}: {s.s.why}'): continue
            c.holds('norms', s.s.call('nren') and (s.s.ret is A.TRUE or s.s.ret == 1) == (typ in ('sout', 'file', 'sout_file')), f'{k_}: enabled', f'{EN}: the output is {"not " if typ in ("sout", "file", "sout_file") else ""}enabled')
            if not c.holds('norms', s.s.call('nrw', ('nrm_', 8)), f'{k_}: write', f'{EN}: {s.s.why}'): continue
            w = typ in ('file', 'sout_file') and rank == 0
            if not c.holds('norms', [x[0] for x in s.d.saved] == ([b'out/e.xml'] if w else []), f'{k_}: saved', f'{EN}: saved to {[x[0] for x in s.d.saved]}') or not w: continue
            r = s.d.saved[0][1].ch; c.holds('norms', [x.name for x in r] == ['error_norms'] and [x.name for x in r[0].ch] == ['l1', 'l2', 'linf'] and all([x.name for x in y.ch] == ['q']*nq and all([z.name for z in x.ch] == ['cfr']*nc for x in y.ch) for y in r[0].ch), f'{k_}: structure', f'{EN}: the document has another structure')
            for j, y in enumerate(r[0].ch if r else ()):
                for a, x in enumerate(y.ch):
                    for b, z in enumerate(x.ch): s.eq('norms', f'{y.name} of quantity {a}, run {b}', z.text, A.var(f'n{j}.{a*nc+b}'), EN)
def body(c):
    jobs = {}
    for eq, T, crs in (('elastic', 'TRIA3', 2), ('viscoelastic2', 'TET4', 3), ('advection', 'TET4', 1), ('swe', 'QUAD4R', 2)): jobs[(eq, T)] = B.edge_flags(eq, T, 1 if eq == 'swe' else 2, 32, crs)
    c.prefetch([(None, f, TXT) for f in jobs.values()])
    c.rule('general', 'every value of the document is used as written; what is missing has its default')
    c.rule('domains', 'a domain contains the points in all of its half spaces')
    c.rule('receivers', 'receivers are those of the document, or none if the sampling or the output is missing')
    c.rule('seismic', 'sources, attenuation, velocity model and ruptures are those of the document')
    c.rule('reject', 'invalid documents are rejected')
    c.rule('norms', 'the error norms are saved once, by the first rank')
    for (eq, T), f in jobs.items():
        m = c.driver(TXT, f, f'configuration {eq}'); key = f'{eq}, {T}'
        for k in range(4): general(c, m, f'{key}: {k}', k)
        bad(c, m, key); norms(c, m, key)
        if eq in ('elastic', 'viscoelastic2'):
            for k in range(4): seismic(c, m, f'{key}: seismic {k}', k)
            sbad(c, m, key)
    return c.finish('the constructors of the configurations are interpreted over XML documents known to the analysis (interface of the XML library), numbers that do not decide about the flow are symbolic', ['the XML library finds nodes and converts numbers as documented; single-precision rounding is not modelled'], 1000)
if __name__ == '__main__': H.main('C04', body)
