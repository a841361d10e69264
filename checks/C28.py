import sys, os; sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
"""C28 EDGEpre: the discontinuous Galerkin operators

The sources of EDGEpre are walked by the abstract interpreter for Python (engine/pyabs.py): the
driver edge_pre.py with an XML document of element types and degrees, down to the text it writes.
Every entry of the files written is compared with the operator it has to be, derived here in exact
rational arithmetic from the basis the solver evaluates (the polynomials C03 holds dg::Basis to)
and the vertices of the reference elements."""
import multiprocessing, os, random, re
from fractions import Fraction as F
from engine import harness as H, pyabs as P
from engine.edgepre import *
from engine.edgepre import F, P
def spec(t, deg):
    b = basis(t, deg+1); n = len(b); tf = TF[t]; nd = ND[t]
    mass = [[integral(t, pm(x, y)) for y in b] for x in b]
    st = [[[integral(t, pm(x, der(y, d))) for y in b] for x in b] for d in range(nd)]
    inv = [1/mass[i][i] for i in range(n)]
    V = [[[st[d][i][j]*inv[j] for j in range(n)] for i in range(n)] for d in range(nd)]
    T = [[[st[d][j][i]*inv[j] for j in range(n)] for i in range(n)] for d in range(nd)]
    loc = {}; nei = {}; on = {}
    for fa in range(len(FA[t])):
        on[fa] = [comp(p, facept(t, fa)) for p in b]
        loc[fa] = [[integral(tf, pm(on[fa][i], on[fa][j]))*inv[j] for j in range(n)] for i in range(n)]
    for fa in range(len(FA[t])):
        for fn in range(len(FA[t])):
            if t in OPP and OPP[t][fa] != fn: continue
            for o in range(NO[t]):
                x = [comp(p, facept(t, fn, o, fa)) for p in b]
                nei[o, fn, fa] = [[integral(tf, pm(x[i], on[fa][j]))*inv[j] for j in range(n)] for i in range(n)]
    return mass, V, T, loc, nei
def gens(it, t, deg):
    m = it.module('edge_pre.dg.basis.' + {'line': 'Line', 'tria3': 'Tria', 'quad4r': 'Quad', 'tet4': 'Tet', 'hex8r': 'Hex'}[t]); return it(m.env['gen'], deg)
def job(a):
    """obligations of one element type"""
    t, degs = a; out = []
    def h(rule, cond, key, text): out.append((rule, bool(cond), f'{t}: {key}', text)); return bool(cond)
    it = walk([t], degs); w = EP + 'edge_pre.py: '
    if not h('files', not it.why, 'end', f'{EP}{it.why}'): return out, it.functions
    names = ('mass', 'stiffV', 'stiffT', 'fluxL', 'fluxN', 'fluxT'); dg = {p: x for p, x in it.written.items() if p.startswith('D')}
    want = {f'D/{t}/{d}/{t}_{d}_{n}.csv' for d in degs for n in names}
    if not h('files', set(dg) == want, 'operators', f'{w}the files {sorted(set(dg) ^ want)[:6]} are missing or superfluous'): return out, it.functions
    for d in degs:
        try: sy, bs = gens(it, t, d)
        except (P.Raised, P.Unsupported) as e: h('basis', False, f'degree {d}', f'{EP}edge_pre/dg/basis: {it.where()}: {e}'); continue
        ref = basis(t, d+1); nm = EP + 'edge_pre/dg/basis: '
        if h('basis', len(bs) == len(ref) and len(sy) == ND[t] and len({s.name() for s in sy}) == ND[t], f'degree {d}: size', f'{nm}{len(bs)} functions in {len(sy)} coordinates for {t} of degree {d}'):
            ids = [P.symid(s) for s in sy]
            for k, (f, r) in enumerate(zip(bs, ref)):
                f = P.chk(f); e = P.Sym({tuple(sorted((ids[i], x) for i, x in enumerate(m) if x)): v for m, v in r.items()})
                h('basis', f == e, f'degree {d}: function {k}', f'{nm}function {k} of {t}, degree {d} is {f}, not {e}')
        M, V, T, loc, nei = spec(t, d); n = len(ref); nf = len(FA[t]); nfb = len(basis(TF[t], d+1)); X = {}
        for nme, k, r, q in (('mass', 1, n, n), ('stiffV', ND[t], n, n), ('stiffT', ND[t], n, n), ('fluxL', nf, n, nfb), ('fluxN', nf*NO[t], n, nfb), ('fluxT', nf, nfb, n)):
            x = parse(dg[f'D/{t}/{d}/{t}_{d}_{nme}.csv'])
            # a three-dimensional array ends with an empty line, as a block ends
            if nme != 'mass' and x: x = x[:-1] if x[-1] == [] else None
            ok = x is not None and len(x) == k and all(len(b) == r and all(len(l) == q and all(isinstance(v, (int, F)) for v in l) for l in b) for b in x)
            if h('files', ok, f'degree {d}: shape of {nme}', f'{w}{nme} of degree {d}: {x and [(len(b), [len(l) for l in b][:3]) for b in x][:4]} instead of {k} x {r} x {q} numbers'): X[nme] = x
        def cmp(rule, key, a, b, tx):
            for i in range(len(b)):
                for j in range(len(b[0])):
                    if a[i][j] != b[i][j]: return h(rule, False, f'degree {d}: {key}', f'{w}{tx}: entry ({i}, {j}) is {a[i][j]}, not {b[i][j]}')
            return h(rule, True, f'degree {d}: {key}', '')
        if 'mass' in X: cmp('mass', 'mass', X['mass'][0], M, 'the mass matrix')
        for x in range(ND[t]):
            if 'stiffV' in X: cmp('stiffness', f'volume, direction {x}', X['stiffV'][x], V[x], f'the stiffness matrix of the volume integral in direction {x}')
            if 'stiffT' in X: cmp('stiffness', f'time, direction {x}', X['stiffT'][x], T[x], f'the transposed stiffness matrix of the time prediction in direction {x}')
        if {'fluxL', 'fluxN', 'fluxT'} <= set(X):
            for fa in range(nf):
                cmp('flux-local', f'face {fa}', mul(X['fluxL'][fa], X['fluxT'][fa]), loc[fa], f'local flux: the product of the operators of face {fa}')
            for (o, fn, fa), e in nei.items():
                cmp('flux-adjacent', f'face {fa}, adjacent face {fn}, orientation {o}', mul(X['fluxN'][o*nf+fn], X['fluxT'][fa]), e, f'adjacent flux: the product of the operators of face {fa} and face {fn} of the adjacent element, vertex {o}')
    return out, it.functions
def jobs(full):
    return [('tet4', list(range(5 if full else 4))), ('hex8r', list(range(4 if full else 3))), ('tria3', list(range(8 if full else 5))), ('quad4r', list(range(6 if full else 4))), ('line', list(range(10 if full else 7)))]
# --- text
def text(c, full):
    it = P.Interp(ROOT); w = EP + 'edge_pre/io/ArrStr.py: '; m = it.module('edge_pre.io.ArrStr'); rnd = random.Random(c.seed)
    for k in range(12 if full else 6):
        sh = (rnd.randint(1, 3), rnd.randint(1, 4), rnd.randint(1, 4)) if k else (1, 1, 1)
        a3 = [[[P.symbol(f'e{i}_{j}_{q}') for q in range(sh[2])] for j in range(sh[1])] for i in range(sh[0])]; i3 = [[[rnd.randint(-5, 999) for _ in r] for r in b] for b in a3]
        # the conversion of an entry keeps it: entries are opaque
        it.builtins['float'] = lambda v: P.F(v) if not isinstance(v, P.Sym) else v
        for fn, arg, want in (('float2d', a3[0], [a3[0]]), ('float3d', a3, a3), ('int2d', i3[0], [i3[0]]), ('int3d', i3, i3)):
            key = f'{fn}, {sh}'
            try: r = it(m.env[fn], arg)
            except (P.Raised, P.Unsupported) as e: c.holds('text', False, key, f'{w}{fn}: {e}'); continue
            sep = '\n' if fn.endswith('3d') else ''
            exp = ''.join(''.join(''.join(f'{x.name() if isinstance(x, P.Sym) else x},' for x in l) + '\n' for l in b) + sep for b in want)
            c.holds('text', r == exp, key, f'{w}{fn} writes {r!r} instead of {exp!r}')
    c.functions |= it.functions
def braces(s):
    s = re.sub(r'\s', '', s); st = [[]]; tok = ''
    for ch in s:
        if ch in '{},':
            if tok: st[-1].append(tok); tok = ''
            if ch == '{': n = []; st[-1].append(n); st.append(n)
            elif ch == '}':
                if len(st) < 2: return None
                st.pop()
        else: tok += ch
    return st[0][0] if len(st) == 1 and len(st[0]) == 1 and not tok else None
def cpp(c, full):
    """the conversion of an array to C++"""
    w = EP + 'cpp.py: '; rnd = random.Random(c.seed+1)
    for k in range(24 if full else 12):
        nd = 2 + k % 2; sh = [rnd.randint(1, 4) for _ in range(nd)]
        if k < 2: sh = [1]*nd
        e = lambda *x: 'v' + '_'.join(map(str, x))
        a = [[e(i, j) for j in range(sh[1])] for i in range(sh[0])] if nd == 2 else [[[e(i, j, q) for q in range(sh[2])] for j in range(sh[1])] for i in range(sh[0])]
        if k % 3 == 1: a[0][0] = ['-1' for _ in a[0][0]] if nd == 3 else '-1'
        if k % 3 == 1 and sh[-2] > 1: a[-1][-1] = ['-2' for _ in a[-1][-1]] if nd == 3 else '-2'
        txt = ''.join(','.join(r) + ',\n' for r in a) if nd == 2 else ''.join(''.join(','.join(r) + ',\n' for r in b) + '\n' for b in a)
        rep = ['-1', 'std::numeric_limits< int >::max()', '-2', 'two'] if k % 3 == 1 else None; it = P.Interp(ROOT); it.read['in.csv'] = txt; key = f'{sh}' + (', replacement' if rep else '')
        try: it.main('cpp.py', dict(in_csv='in.csv', obj_name_space='sp', obj_name='nm', obj_type='real', rep=rep, out_cpp='o.cpp'))
        except (P.Raised, P.Unsupported) as x: c.holds('array', False, key, f'{w}{it.where()}: {x}'); continue
        c.functions |= it.functions; o = it.written.get('o.cpp', '')
        dims = ''.join(f'[{n}]' for n in sh); o1 = re.sub(r'\s+', ' ', o)
        decl = re.findall(r'extern real const g_nm((?:\[\d+\])+) ?;', o1); dfn = re.search(r'real const edge::pre::sp::g_nm((?:\[\d+\])+) = (\{.*?\}) ?;', o1)
        if not c.holds('array', decl == [dims] and dfn and dfn.group(1) == dims, key + ': declaration', f'{w}the array of shape {sh} is declared as {decl} and defined as {dfn and dfn.group(1)}'): continue
        if rep:
            f = lambda x: [f(y) for y in x] if isinstance(x, list) else re.sub(r'\s', '', rep[1]) if x == '-1' else rep[3] if x == '-2' else x
            a = f(a)
        c.holds('array', braces(dfn.group(2)) == a, key + ': entries', f'{w}the array of shape {sh} is initialised with {str(braces(dfn.group(2)))[:200]}')
        first = 'edge::pre::sp::g_nm' + '[0]'*nd
        c.holds('array', re.search(r'real const ?\* ?edge::pre::sp::g_nmRaw = & ?' + re.escape(first) + ' ?;', o1), key + ': pointer', f'{w}the raw pointer is not the address of the first entry of {sh}')
        n = 1
        for x in sh: n *= x
        c.holds('array', re.search(r'std::size_t const edge::pre::sp::g_nmSize = ' + str(n) + ' ?;', o1), key + ': size', f'{w}the size of an array of {n} entries is {re.findall("g_nmSize = ([^;]*);", o1)}')
def driver(c):
    """the document decides what is written"""
    w = EP + 'edge_pre.py: '
    for types, degs in ((['line', 'tria3'], [0, 2]), (['quad4r'], [1]), (['tria3', 'line', 'quad4r'], [1])):
        it = walk(types, degs); key = f'{types}, {degs}'; c.functions |= it.functions
        if not c.holds('document', not it.why, key + ': end', EP + it.why): continue
        got = {p for p in it.written if p.startswith('D')}; want = {f'D/{t}/{d}/{t}_{d}_{n}.csv' for t in types for d in degs for n in ('mass', 'stiffV', 'stiffT', 'fluxL', 'fluxN', 'fluxT')}
        c.holds('document', got == want, key, f'{w}the files {sorted(got ^ want)[:6]} are missing or superfluous')
        for t in types:
            for d in degs:
                x = parse(it.written.get(f'D/{t}/{d}/{t}_{d}_mass.csv', ''))
                c.holds('document', x and len(x[0]) == len(basis(t, d+1)), f'{key}: {t} {d}', f'{w}the file of {t} and degree {d} holds other operators')
def unify(c):
    it = P.Interp(ROOT); m = it.module('edge_pre.dg.basis.Mod'); w = EP + 'edge_pre/dg/basis/Mod.py: '; S = P.symbol
    for s1, s2 in ((['x'], ['x', 'y']), (['x', 'y'], ['x', 'y', 'z']), (['y'], ['x', 'y']), (['x', 'x_unique'], ['x', 'y']), (['a'], ['x']), (['y', 'x'], ['x', 'y'])):
        b = [S(s2[0])*2+1] + [S(s)**(k+1)*S(s2[0])-S(s2[-1]) for k, s in enumerate(s2)]
        try: sy, bs = it(m.env['unify'], [S(x) for x in s1], [S(s1[0])], [S(x) for x in s2], list(b))
        except (P.Raised, P.Unsupported) as e: c.holds('unify', False, f'{s1} {s2}', w + str(e)); continue
        nm = [x.name() for x in sy]
        if c.holds('unify', len(nm) == len(s2) and None not in nm and len(set(nm)) == len(nm) and not set(nm) & set(s1), f'{s1} {s2}: symbols', f'{w}the symbols {nm} of the element are not unique for {s1}'):
            e = [x.sub({P.symid(o): n for o, n in zip(s2, sy)}) for x in b]
            c.holds('unify', len(bs) == len(e) and all(P.chk(x) == y for x, y in zip(bs, e)), f'{s1} {s2}: functions', f'{w}the functions change when their symbols are renamed')
    c.functions |= it.functions
def body(c):
    full = c.tier == 'thorough'
    c.rule('files', 'for every type and degree of the document the operators are written, in full and in the shape of the solver'); c.rule('basis', 'the functions are those the solver evaluates, in the same order')
    c.rule('mass', 'entry (i, j) is the integral of the product of functions i and j'); c.rule('stiffness', 'the integral of a function and the derivative of another one, times the inverse mass matrix; for the time prediction transposed')
    c.rule('flux-local', 'projecting to a face and back is the integral over the face of the products of the functions of the element, times the inverse mass matrix'); c.rule('flux-adjacent', 'the same with the functions of the adjacent element in the same points of the face, for every pair of faces which can meet and every orientation')
    c.rule('text', 'every entry of an array is written in its order'); c.rule('array', 'the C++ array of a file has its shape and entries; pointer and size are those of the array'); c.rule('document', 'types and degrees of the document are all processed, in their files'); c.rule('unify', 'coordinates of face and element are told apart without changing the functions')
    with multiprocessing.Pool(5) as p: res = p.map(job, jobs(full), chunksize=1)
    for out, fn in res:
        c.functions |= fn
        for o in out: c.holds(*o)
    c.units += ['tools/edge_pre/edge_pre.py', 'tools/edge_pre/cpp.py', 'tools/edge_pre/edge_pre']
    for f in (lambda: text(c, full), lambda: cpp(c, full), lambda: driver(c), lambda: unify(c)):
        try: f()
        except (P.Raised, P.Unsupported) as e: c.holds('files', False, 'modules', f'{EP}: {e}')
    return c.finish('the driver of EDGEpre is walked over its syntax tree with an exact domain of rational functions for the symbolic expressions; the entries of every written file are compared with the operators; both ways to integrate are followed and have to agree', ['sympy, scipy and numpy do what their documentation says (stand-ins over rational functions)', 'plots have no influence on the operators', 'numbers are exact until they are printed'], 300)
if __name__ == '__main__': H.main('C28', body)
