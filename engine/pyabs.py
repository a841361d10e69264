"""Abstract interpretation of Python source (the EDGEpre tool) over its syntax tree.

The modules below one directory are read as source and walked statement by statement; nothing of
them is imported or run and no library they use (sympy, scipy, numpy, matplotlib) is loaded.  A
symbolic expression of the code is an element of the field of rational functions over its symbols
with rational coefficients in normal form, an integral or derivative is taken in that domain, text
which is printed from a value is a token for the value.  A condition which depends on the length
of printed text is unknown: both sides are walked and the results are joined."""
import ast, os, re, time
from fractions import Fraction as F
from math import gcd

class Unsupported(Exception): pass
class Raised(Exception): pass            # the analysed code raises

# ---------------------------------------------------------------- polynomials
_sym = {}; _names = []
def sid(n):
    if n not in _sym: _sym[n] = len(_names); _names.append(n)
    return _sym[n]
def mmul(a, b):
    if not a: return b
    if not b: return a
    r = dict(a)
    for s, e in b: r[s] = r.get(s, 0)+e
    return tuple(sorted(r.items()))
def padd(p, q, s=1):
    r = dict(p)
    for k, v in q.items():
        t = r.get(k, 0) + v*s
        if t: r[k] = t
        else: r.pop(k, None)
    return r
def pmul(p, q):
    r = {}
    for a, v in p.items():
        for b, w in q.items():
            k = mmul(a, b); r[k] = r.get(k, 0) + v*w
    return {k: v for k, v in (rad(r) if RAD else r).items() if v}
RAD = {}      # symbols which stand for the square roots of primes
def rad(r):
    o = {}
    for k, v in r.items():
        if any(s in RAD and e > 1 for s, e in k):
            n = []
            for s, e in k:
                if s in RAD:
                    v = v*RAD[s]**(e//2); e %= 2
                if e: n.append((s, e))
            k = tuple(n)
        o[k] = o.get(k, 0) + v
    return o
def sqrt(v):
    v = sy(v).val()
    if v < 0: raise Unsupported('root of a negative number')
    n = v.numerator*v.denominator; r = sy(F(1, v.denominator)); p = 2
    while p*p <= n:
        while n % (p*p) == 0: n //= p*p; r = r*p
        p += 1
    p = 2
    while n > 1:
        if n % p == 0:
            n //= p; x = symbol(f'\x03sqrt{p}'); RAD[symid(x)] = p; r = r*x
        p += 1
    return r
def ppow(p, n):
    r = {(): F(1)}
    for _ in range(n): r = pmul(r, p)
    return r
def pc(v): return {(): F(v)} if v else {}
def isconst(p): return not p or (len(p) == 1 and () in p)
def cv(p): return p.get((), F(0))
def pdiv(p, q):
    """p/q if the division has no remainder (lexicographic order), else None"""
    syms = sorted({s for k in list(p)+list(q) for s, _ in k})
    def key(m): d = dict(m); return tuple(d.get(s, 0) for s in syms)
    lq = max(q, key=key); dq = dict(lq); cq = q[lq]; r = {}; p = dict(p)
    for _ in range(20000):
        if not p: return r
        lp = max(p, key=key); d = dict(lp)
        for s, e in lq:
            if d.get(s, 0) < e: return None
            d[s] -= e
        m = tuple(sorted((s, e) for s, e in d.items() if e)); c = p[lp]/cq
        r[m] = r.get(m, 0)+c
        p = padd(p, pmul({m: c}, q), -1)
    raise Unsupported('polynomial division')
class Sym:
    """a rational function"""
    __slots__ = ('n', 'd')
    def __init__(s, n, d=None):
        if d is not None:
            if not d: raise Raised('division by zero in a symbolic expression')
            if isconst(d): n = {k: v/cv(d) for k, v in n.items()}; d = None
            else:
                if RAD and len(d) == 1:
                    (k, v), = d.items(); x = {tuple((s, e) for s, e in k if s in RAD): F(1)}
                    if x != {(): 1}: n, d = pmul(n, x), pmul(d, x)
                if isconst(d): n = {k: v/cv(d) for k, v in n.items()}; d = None
                else:
                    q = pdiv(n, d)
                    if q is not None: n, d = q, None
        s.n = n; s.d = d
    def den(s): return s.d if s.d is not None else {(): F(1)}
    def const(s): return s.d is None and isconst(s.n)
    def val(s):
        if not s.const(): raise Unsupported('the value of a non-constant expression is used')
        return cv(s.n)
    def __add__(a, b):
        b = sy(b)
        if b is NotImplemented: return b
        if a.d is None and b.d is None: return Sym(padd(a.n, b.n))
        if a.d == b.d: return Sym(padd(a.n, b.n), a.d)
        return Sym(padd(pmul(a.n, b.den()), pmul(b.n, a.den())), pmul(a.den(), b.den()))
    __radd__ = __add__
    def __neg__(a): return Sym({k: -v for k, v in a.n.items()}, a.d)
    def __pos__(a): return a
    def __sub__(a, b):
        b = sy(b)
        return b if b is NotImplemented else a + (-b)
    def __rsub__(a, b):
        b = sy(b)
        return b if b is NotImplemented else b + (-a)
    def __mul__(a, b):
        b = sy(b)
        if b is NotImplemented: return b
        if a.d is None and b.d is None: return Sym(pmul(a.n, b.n))
        return Sym(pmul(a.n, b.n), pmul(a.den(), b.den()))
    __rmul__ = __mul__
    def __truediv__(a, b):
        b = sy(b)
        return b if b is NotImplemented else Sym(pmul(a.n, b.den()), pmul(a.den(), b.n))
    def __rtruediv__(a, b):
        b = sy(b)
        return b if b is NotImplemented else b/a
    def __pow__(a, k):
        if isinstance(k, Sym): k = k.val()
        if isinstance(k, F) and k.denominator == 1: k = int(k)
        if not isinstance(k, int): raise Unsupported('power')
        if k < 0: return sy(1)/(a**-k)
        return Sym(ppow(a.n, k), None if a.d is None else ppow(a.d, k))
    def __eq__(a, b):
        b = sy(b)
        if b is NotImplemented: return False
        return a.n == b.n and a.d is None and b.d is None or pmul(a.n, b.den()) == pmul(b.n, a.den())
    def __ne__(a, b): return not a == b
    def __hash__(a): return hash(cv(a.n)) if a.const() else hash((frozenset(a.n.items()), frozenset(a.den().items())))
    def __lt__(a, b): return a.val() < sy(b).val()
    def __le__(a, b): return a.val() <= sy(b).val()
    def __gt__(a, b): return a.val() > sy(b).val()
    def __ge__(a, b): return a.val() >= sy(b).val()
    def __abs__(a): return sy(abs(a.val()))
    def __bool__(a): return bool(a.n)
    def __index__(a):
        v = a.val()
        if v.denominator != 1: raise Raised('a non-integer expression is used as an integer')
        return int(v)
    def name(a):
        if a.d is None and len(a.n) == 1:
            (k, v), = a.n.items()
            if v == 1 and len(k) == 1 and k[0][1] == 1: return _names[k[0][0]]
    def syms(a): return {s for p in (a.n, a.den()) for k in p for s, _ in k}
    def diff(a, x):
        x = symid(x)
        def dp(p):
            r = {}
            for k, v in p.items():
                for s, e in k:
                    if s == x: m = tuple((t, f-(t == x)) for t, f in k if f-(t == x)); r[m] = r.get(m, 0)+v*e
            return r
        if a.d is None: return Sym(dp(a.n))
        return Sym(padd(pmul(dp(a.n), a.d), pmul(a.n, dp(a.d)), -1), pmul(a.d, a.d))
    def sub(a, m):
        """simultaneous substitution {symbol: value}"""
        def sp(p):
            r = sy(0); pw = {}
            if all(v.d is None for v in m.values()):
                acc = {}
                for k, c in p.items():
                    t = {(): c}
                    for s, e in k:
                        if s in m:
                            if (s, e) not in pw: pw[s, e] = ppow(m[s].n, e)
                            t = pmul(t, pw[s, e])
                        else: t = pmul(t, {((s, e),): F(1)})
                    acc = padd(acc, t)
                return Sym(acc)
            # common denominators: the highest power of every denominator
            top = {}
            for k in p:
                for s, e in k:
                    if s in m: top[s] = max(top.get(s, 0), e)
            acc = {}; den = {(): F(1)}
            for s, e in top.items(): den = pmul(den, ppow(m[s].den(), e))
            for k, c in p.items():
                t = {(): c}; kd = dict(k)
                for s, e in k:
                    if s not in m: t = pmul(t, {((s, e),): F(1)})
                for s, e in top.items(): t = pmul(t, pmul(ppow(m[s].n, kd.get(s, 0)), ppow(m[s].den(), e-kd.get(s, 0))))
                acc = padd(acc, t)
            return Sym(acc, den)
        return sp(a.n) if a.d is None else sp(a.n)/sp(a.d)
    def subs(a, *x, simultaneous=False):
        if len(x) == 2: l = [(x[0], x[1])]
        elif isinstance(x[0], dict):
            l = list(x[0].items())
            if not simultaneous and any(symid(k) in sy(v).syms() for k, _ in l for q, v in l if q is not k): raise Unsupported('the order of substitutions is not defined')
            simultaneous = True
        else: l = [tuple(t) for t in x[0]]
        l = [(symid(k), sy(v)) for k, v in l]
        if simultaneous: return a.sub(dict(l))
        for k, v in l: a = a.sub({k: v})
        return a
    def expand(a): return a
    simplify = expand; cancel = expand; factor = expand; together = expand; doit = expand
    def __repr__(a):
        f = lambda p: ' + '.join(f'{v}' + ''.join(f'*{_names[s]}^{e}' for s, e in k) for k, v in sorted(p.items())) or '0'
        return f(a.n) + ('' if a.d is None else f' / ({f(a.d)})')
def sy(v):
    if isinstance(v, Sym): return v
    if isinstance(v, bool) or not isinstance(v, (int, F)): return NotImplemented
    return Sym(pc(v))
def symbol(n): return Sym({((sid(n), 1),): F(1)})
def symid(x):
    n = x.name() if isinstance(x, Sym) else x if isinstance(x, str) else None
    if n is None: raise Unsupported('not a symbol')
    return sid(n)
def jacobi(n, a, b, x):
    p0, p1 = sy(1), sy(F(a-b, 2)) + x*F(a+b+2, 2)
    if n == 0: return p0
    for k in range(2, n+1):
        c = 2*k*(k+a+b)*(2*k+a+b-2)
        p0, p1 = p1, (x*F((2*k+a+b-1)*(2*k+a+b)*(2*k+a+b-2), c) + F((2*k+a+b-1)*(a*a-b*b), c))*p1 - p0*F(2*(k+a-1)*(k+b-1)*(2*k+a+b), c)
    return p1
_im = {}
def err(): raise Raised("a list is given to a function for expressions")
def one(x): return list(x) if isinstance(x, (list, tuple)) else [x]
def integrate(f, *lim):
    f = sy(f)
    if f is NotImplemented: raise Unsupported('integrand')
    if f.d is not None: raise Unsupported('integral of a fraction')
    lim = [tuple(one(l[0])) + tuple(l[1:]) for l in lim]; key = tuple((symid(l[0]), sy(l[1]), sy(l[2])) for l in lim)
    hk = tuple((s, repr(a), repr(b)) for s, a, b in key); tot = {}
    for m, c in f.n.items():
        r = _im.get((hk, m))
        if r is None:
            p = {m: F(1)}
            for x, lo, hi in key:
                q = {}
                for k, v in p.items():
                    e = dict(k).get(x, 0); n = tuple(sorted([(s, t) for s, t in k if s != x] + [(x, e+1)])); q[n] = q.get(n, 0) + v/(e+1)
                P = Sym(q); p = (P.sub({x: hi}) - P.sub({x: lo})).n
            r = _im[hk, m] = p
        tot = padd(tot, r, c)
    return Sym(tot)

class Mat:
    def __init__(s, rows): s.m = rows
    @property
    def shape(s): return (len(s.m), len(s.m[0]) if s.m else 0)
    @property
    def rows(s): return len(s.m)
    @property
    def cols(s): return s.shape[1]
    def flat(s): return [v for r in s.m for v in r]
    def __iter__(s): return iter(s.flat())
    def __len__(s): return s.rows*s.cols
    def ix(s, k, n):
        if isinstance(k, slice): return list(range(n))[k]
        k = k.__index__()
        if not -n <= k < n: raise Raised('matrix index out of range')
        return k % n
    def __getitem__(s, k):
        if not isinstance(k, tuple):
            if isinstance(k, slice): return s.flat()[k]
            return s.flat()[s.ix(k, len(s))]
        i, j = s.ix(k[0], s.rows), s.ix(k[1], s.cols)
        if isinstance(i, int) and isinstance(j, int): return s.m[i][j]
        i = [i] if isinstance(i, int) else i; j = [j] if isinstance(j, int) else j
        return Mat([[s.m[a][b] for b in j] for a in i])
    def __setitem__(s, k, v):
        i, j = s.ix(k[0], s.rows), s.ix(k[1], s.cols)
        if isinstance(i, int) and isinstance(j, int):
            v = sy(v)
            if v is NotImplemented: raise Raised('a matrix entry is not an expression')
            s.m[i][j] = v; return
        i = [i] if isinstance(i, int) else i; j = [j] if isinstance(j, int) else j
        if not isinstance(v, Mat): v = Mat(mkrows(v))
        if v.shape != (len(i), len(j)): raise Raised('matrix shapes do not match')
        for a, x in enumerate(i):
            for b, y in enumerate(j): s.m[x][y] = v.m[a][b]
    @property
    def T(s): return Mat([list(r) for r in zip(*s.m)])
    def transpose(s): return s.T
    def tolist(s): return [list(r) for r in s.m]
    def copy(s): return Mat(s.tolist())
    def applyfunc(s, f): return Mat([[sy(f(v)) for v in r] for r in s.m])
    def el(a, b, f):
        if not isinstance(b, Mat) or a.shape != b.shape: raise Raised('matrix shapes do not match')
        return Mat([[f(x, y) for x, y in zip(r, q)] for r, q in zip(a.m, b.m)])
    def __add__(a, b): return a.el(b, lambda x, y: x+y)
    def __sub__(a, b): return a.el(b, lambda x, y: x-y)
    def __neg__(a): return Mat([[-v for v in r] for r in a.m])
    def __mul__(a, b):
        if isinstance(b, Any): return b
        if isinstance(b, Mat):
            if not a.m: return Mat([])
            if a.cols != b.rows: raise Raised('matrix shapes do not match')
            bt = b.T.m; o = []
            for r in a.m:
                nz = [k for k, v in enumerate(r) if v]
                o.append([sum((r[k]*c[k] for k in nz if c[k]), sy(0)) for c in bt])
            return Mat(o)
        return Mat([[v*b for v in r] for r in a.m])
    __matmul__ = __mul__
    def __rmul__(a, b): return Mat([[v*b for v in r] for r in a.m])
    def __truediv__(a, b): return Mat([[v/b for v in r] for r in a.m])
    def __eq__(a, b): return isinstance(b, Mat) and a.shape == b.shape and all(x == y for x, y in zip(a.flat(), b.flat()))
    __hash__ = None
    def cross(a, b):
        x, y = a.flat(), b.flat()
        if len(x) != 3 or len(y) != 3: raise Raised('cross product of other vectors')
        r = [x[1]*y[2]-x[2]*y[1], x[2]*y[0]-x[0]*y[2], x[0]*y[1]-x[1]*y[0]]
        return Mat([[v] for v in r] if a.cols == 1 else [r])
    def dot(a, b): return sum((x*y for x, y in zip(a.flat(), b.flat())), sy(0))
    def norm(a): return sqrt(a.dot(a))
    def normalized(a): return a/a.norm() if any(a.flat()) else a
    def det(s):
        n = s.rows
        if n != s.cols: raise Raised('determinant of a non-square matrix')
        if n == 0: return sy(1)
        if n == 1: return s.m[0][0]
        return sum((s.m[0][j]*(-1)**j*Mat([r[:j]+r[j+1:] for r in s.m[1:]]).det() for j in range(n)), sy(0))
    def __pow__(a, k):
        k = k.__index__() if not isinstance(k, int) else k; b = a.inv() if k < 0 else a; r = Mat([[sy(int(i == j)) for j in range(a.rows)] for i in range(a.rows)])
        for _ in range(abs(k)): r = r*b
        return r
    def row(s, i): return s[i, :]
    def col(s, j): return s[:, j]
    def reshape(s, n, m):
        f = s.flat()
        if n*m != len(f): raise Raised('a matrix is reshaped to another size')
        return Mat([f[i*m:(i+1)*m] for i in range(n)])
    def multiply(a, b): return a*b
    def jacobian(a, syms): return Mat([[x.diff(y) for y in (syms.flat() if isinstance(syms, Mat) else syms)] for x in a.flat()])
    def inverse(s): return s.inv()
    def row_join(a, b):
        if a.rows != b.rows: raise Raised('matrix shapes do not match')
        return Mat([x + y for x, y in zip(a.m, b.m)])
    def col_join(a, b):
        if a.cols != b.cols: raise Raised('matrix shapes do not match')
        return Mat([list(x) for x in a.m + b.m])
    def trace(s): return sum((s.m[i][i] for i in range(s.rows)), sy(0))
    def inv(s, *_, **__):
        n = s.rows
        if n != s.cols: raise Raised('inverse of a non-square matrix')
        a = [[v.val() for v in r] + [F(i == j) for j in range(n)] for i, r in enumerate(s.m)]
        for c in range(n):
            p = next((r for r in range(c, n) if a[r][c]), None)
            if p is None: raise Raised('inverse of a singular matrix')
            a[c], a[p] = a[p], a[c]; x = a[c][c]; a[c] = [v/x for v in a[c]]
            for r in range(n):
                if r != c and a[r][c]: x = a[r][c]; a[r] = [v-x*w if w else v for v, w in zip(a[r], a[c])]
        return Mat([[sy(v) for v in r[n:]] for r in a])
def mkrows(x):
    x = list(x)
    if x and isinstance(x[0], (list, tuple)):
        if len({len(r) for r in x}) > 1: raise Raised('rows of different lengths')
        return [[chk(v) for v in r] for r in x]
    return [[chk(v)] for v in x]
def chk(v):
    v = sy(v)
    if v is NotImplemented: raise Raised('a matrix entry is not an expression')
    return v

# ---------------------------------------------------------------- host objects
class Any:
    """an object without influence on the results (plots, logging)"""
    def __getattr__(s, k):
        if k.startswith('__'): raise AttributeError(k)
        return s
    def __call__(s, *a, **k): return s
    def __getitem__(s, k): return s
    def __setitem__(s, k, v): pass
    def __iter__(s): return iter(())
    def __len__(s): return 0
    def __add__(s, o): return s
    __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __gt__ = __lt__ = __abs__ = __add__
    def __enter__(s): return s
    def __exit__(s, *x): return False
ANY = Any()
class Unknown:
    """an integer or truth value the analysis does not know"""
class Join:
    """a value which differs between the sides of an unknown condition"""
class NS:
    def __init__(s, name, d): s.name = name; s.__dict__.update(d)
class Type(NS): pass
class Lam:
    def __init__(s, args, e): s.args = args; s.e = e
TOK = []
def token(v): TOK.append(v); return f'\x01{len(TOK)-1}\x02'
class Func:
    def __init__(s, it, node, env, mod, cls=None): s.it = it; s.node = node; s.env = env; s.mod = mod; s.name = getattr(node, 'name', '<lambda>')
    def __call__(s, *a, **k): return s.it.callf(s, a, k)
class Class:
    def __init__(s, name, d): s.name = name; s.d = d
class Obj:
    def __init__(s, c): s.__dict__['cls'] = c; s.__dict__['f'] = {}
class Bound:
    def __init__(s, o, f): s.o = o; s.fn = f
    def __call__(s, *a, **k): return s.fn(s.o, *a, **k)
class Module:
    def __init__(s, name, path): s.name = name; s.path = path; s.env = {'__name__': name}
class Env:
    __slots__ = ('d', 'up', 'glob')
    def __init__(s, up): s.d = {}; s.up = up; s.glob = set()
class Ret(Exception):
    def __init__(s, v): s.v = v
class Brk(Exception): pass
class Cnt(Exception): pass

BINOP = {ast.Add: lambda a, b: a+b, ast.Sub: lambda a, b: a-b, ast.Mult: lambda a, b: a*b, ast.Pow: lambda a, b: a**b, ast.Mod: lambda a, b: a % b, ast.FloorDiv: lambda a, b: a//b, ast.MatMult: lambda a, b: a@b}
def div(a, b):
    if isinstance(a, (int, F)) and isinstance(b, (int, F)):
        if b == 0: raise Raised('division by zero')
        return F(a)/F(b)
    return a/b
BINOP[ast.Div] = div
CMP = {ast.Eq: lambda a, b: a == b, ast.NotEq: lambda a, b: a != b, ast.Lt: lambda a, b: a < b, ast.LtE: lambda a, b: a <= b, ast.Gt: lambda a, b: a > b, ast.GtE: lambda a, b: a >= b,
       ast.Is: lambda a, b: a is b, ast.IsNot: lambda a, b: a is not b, ast.In: lambda a, b: a in b, ast.NotIn: lambda a, b: a not in b}
METHODS = {list: {'append', 'reverse', 'sort', 'index', 'extend', 'copy', 'insert', 'pop', 'count', 'remove'}, dict: {'keys', 'values', 'items', 'get', 'update', 'setdefault', 'copy'}, tuple: {'index', 'count'},
           str: {'split', 'join', 'replace', 'format', 'strip', 'rstrip', 'lstrip', 'startswith', 'endswith', 'count', 'upper', 'lower'}, set: {'add', 'union', 'intersection', 'issubset', 'update', 'discard'},
           F: {'numerator', 'denominator'}, int: {'numerator', 'denominator'}}
SYMM = {'subs', 'diff', 'expand', 'simplify', 'cancel', 'factor', 'together', 'doit', 'is_zero'}
MATM = {'T', 'transpose', 'inv', 'det', 'applyfunc', 'tolist', 'shape', 'rows', 'cols', 'copy', 'cross', 'dot', 'norm', 'normalized', 'row', 'col', 'reshape', 'trace', 'multiply', 'jacobian', 'inverse', 'row_join', 'col_join'}

class Interp:
    """root: the directory modules are found in; stubs: names of functions which only draw"""
    def __init__(s, root, stubs=('plot', 'sparsity'), host=None, deadline=None, opaque=()):
        s.opaque = tuple(opaque); s.root = root; s.stubs = set(stubs); s.mods = {}; s.files = {}; s.functions = set(); s.loc = []; s.args = {}; s.xml = {}; s.read = {}; s.steps = 0; s.deadline = deadline; s.depth = 0; s.mk()
        s.hosts.update(host or {})
    # --- libraries
    def mk(s):
        def symbols(n, **k):
            l = n.replace(',', ' ').split()
            return symbol(l[0]) if len(l) == 1 and ',' not in n else [symbol(x) for x in l]
        class MatrixT:
            def __call__(_, x, *a):
                if a: raise Unsupported('sympy.Matrix with several arguments')
                return x.copy() if isinstance(x, Mat) else Mat(mkrows(x))
            transpose = staticmethod(lambda m: m.T)
        idf = lambda e, *a, **k: e if isinstance(e, Mat) else err() if isinstance(e, (list, tuple)) else chk(e)
        def ab(e):
            e = sy(e)
            if not e.const(): raise Unsupported('absolute value of ' + repr(e)[:200])
            return sy(abs(e.val()))
        def lambdify(args, e):
            args = list(args) if isinstance(args, (list, tuple)) else [args]
            if any(isinstance(a, (list, tuple)) for a in args): raise Raised('a function of a list of symbols is built, which cannot be called with a number')
            return Lam([symid(a) for a in args], e)
        def diff(e, *x):
            e = sy(e)
            for v in x: e = e.diff(v)
            return e
        zeros = lambda n, m=None: Mat([[sy(0) for _ in range(n if m is None else m)] for _ in range(n)])
        s.sympy = NS('sympy', dict(symbols=symbols, Symbol=symbols, Matrix=MatrixT(), zeros=zeros, ones=lambda n, m=None: Mat([[sy(1) for _ in range(n if m is None else m)] for _ in range(n)]), eye=lambda n: Mat([[sy(int(i == j)) for j in range(n)] for i in range(n)]),
            legendre=lambda n, x: jacobi(n, 0, 0, sy(x)), jacobi=lambda n, a, b, x: jacobi(n, a, b, sy(x)), simplify=idf, cancel=idf, expand=idf, factor=idf, together=idf, sympify=idf, S=idf, Integer=sy, Rational=lambda a, b=1: sy(F(a)/F(b)), Abs=ab, diff=diff, integrate=integrate, lambdify=lambdify, sqrt=sqrt,
            plot=ANY, plotting=ANY, core=NS('core', dict(cache=NS('cache', dict(clear_cache=lambda: None))))))
        def nquad(f, ranges, *a, **k):
            if a or k or not isinstance(f, Lam): raise Unsupported('nquad')
            n = len(f.args)
            if len(ranges) != n: raise Raised('nquad: a range per argument is needed')
            # x_i runs over ranges[i](x_i+1, ..), the first one is the innermost
            ar = [symbol(f'\x03{i}') for i in range(n)]
            e = sy(f.e).sub(dict(zip(f.args, ar))); lim = []
            for i, r in enumerate(ranges):
                if isinstance(r, Lam):
                    if len(r.args) != n-i-1: raise Raised('nquad: a range is called with other arguments')
                    b = [sy(x).sub(dict(zip(r.args, ar[i+1:]))) for x in r.e]
                else: b = [sy(x) for x in r]
                if any(x.syms() - {symid(q) for q in ar} for x in b): raise Raised('nquad: a range depends on another symbol')
                lim.append((ar[i], b[0], b[1]))
            if e.syms() - {symid(q) for q in ar}: raise Raised('nquad: the integrand depends on another symbol')
            v = integrate(e, *lim)
            return (v.val(), F(0))
        class Parser:
            def __call__(_, *a, **k): _.a = {}; return _
            def add_argument(_, *a, **k):
                d = k.get('dest') or next((x.lstrip('-').replace('-', '_') for x in a if x.startswith('--') or not x.startswith('-')), None)
                if k.get('required') and s.args.get(d) is None: raise Unsupported(f'an argument {d} is required')
                v = s.args.get(d); _.a[d] = k.get('default') if v is None else v
            def parse_args(_, *a): return NS('arguments', _.a)
        def exs(p): return p in s.dirs
        s.dirs = set(); s.written = {}
        class Path:
            join = staticmethod(lambda *p: os.path.join(*p)); exists = staticmethod(exs); isdir = staticmethod(exs)
        def makedirs(p, *a, **k): s.dirs.add(p)
        class Xml:
            def __init__(_, d, tag=''): _.d = d; _.tag = tag
            def getroot(_): return _
            def find(_, k): l = _.findall(k); return l[0] if l else None
            def kids(_): return [Xml(v, n) for n, v in (_.d if isinstance(_.d, list) else [])]
            def findall(_, k):
                l = [_]
                if k.startswith('.//'): return list(_.iter(k[3:]))
                for x in k.split('/'): l = l if x == '.' else [c for e in l for c in e.kids() if c.tag == x or x == '*']
                return l
            def iter(_, k=None): return [x for c in _.kids() for x in ([c] if k in (None, c.tag) else []) + c.iter(k)]
            def findtext(_, k, d=None): x = _.find(k); return d if x is None else x.text
            def __iter__(_): return iter(_.kids())
            def __len__(_): return len(_.kids())
            def __getitem__(_, i): return _.kids()[i]
            @property
            def text(_): return _.d if isinstance(_.d, str) else None
        XT = NS('ElementTree', dict(parse=lambda p: Xml(s.xml[p])))
        import math as M
        class MT:
            sqrt = staticmethod(lambda v: F(M.sqrt(v))); floor = staticmethod(lambda v: M.floor(v)); ceil = staticmethod(lambda v: M.ceil(v)); factorial = staticmethod(M.factorial)
        s.hosts = {'sympy': s.sympy, 'fractions': NS('fractions', dict(Fraction=lambda a, b=1: F(a)/F(b))), 'scipy': NS('scipy', dict(integrate=NS('integrate', dict(nquad=nquad)))), 'numpy': ANY, 'matplotlib': ANY, 'logging': ANY, 'math': MT(),
                   'argparse': NS('argparse', dict(ArgumentParser=Parser())), 'os': NS('os', dict(path=Path(), makedirs=makedirs)), 'xml': NS('xml', dict(etree=NS('etree', dict(ElementTree=XT)))), 'sys': ANY, 'unittest': ANY,
                   'itertools': NS('itertools', {}), 'functools': NS('functools', {}), 'operator': NS('operator', {}), 'string': ANY, 'copy': NS('copy', dict(deepcopy=deep, copy=lambda x: x.copy() if hasattr(x, 'copy') else x))}
        import itertools, functools
        s.hosts['itertools'].__dict__.update(product=itertools.product, chain=itertools.chain, combinations=itertools.combinations, permutations=itertools.permutations)
        s.hosts['functools'].__dict__.update(reduce=functools.reduce)
        class File:
            def __init__(_, p, m): _.p = p; _.m = m; _.pos = 0; _.lines = s.read.get(p, '').splitlines(True) if 'r' in m else None
            def __enter__(_): return _
            def __exit__(_, *x): return False
            def write(_, t):
                if 'r' in _.m: raise Raised('a file opened for reading is written')
                if not isinstance(t, str): raise Raised('something else than text is written')
                s.written[_.p] = s.written.get(_.p, '') + t
            def close(_): pass
            def readline(_):
                if _.pos >= len(_.lines): return ''
                _.pos += 1; return _.lines[_.pos-1]
            def readlines(_): r = _.lines[_.pos:]; _.pos = len(_.lines); return r
            def read(_): return ''.join(_.readlines())
            def seek(_, k):
                if k: raise Unsupported('seek')
                _.pos = 0
            def __iter__(_):
                while _.pos < len(_.lines): _.pos += 1; yield _.lines[_.pos-1]
        def openf(p, m='r', *a, **k):
            if 'r' in m and p not in s.read: raise Raised(f'a file {p} which does not exist is opened')
            if 'w' in m: s.written[p] = ''
            return File(p, m)
        def st(v=''):
            if isinstance(v, (str, int)): return str(v)
            if isinstance(v, (Sym, F)): return v.name() if isinstance(v, Sym) and v.name() else token(v)
            if isinstance(v, Any): return ''
            return token(v)
        def ln(v):
            if isinstance(v, str) and '\x01' in v: return Unknown()
            return len(v)
        def fl(v):
            if isinstance(v, Sym): return v.val()
            if isinstance(v, str): raise Unsupported('float of text')
            return F(v)
        def it(v=0):
            if isinstance(v, Sym): v = v.val()
            return int(v)
        s.builtins = dict(range=lambda *a: range(*[x.__index__() if not isinstance(x, int) else x for x in map(num, a)]), len=ln, str=st, list=list, tuple=tuple, set=set, dict=dict, float=fl, int=it, max=max, min=min, sum=sum, abs=abs, zip=zip, map=map, reversed=lambda x: list(reversed(x)), sorted=sorted, enumerate=enumerate, open=openf, bool=bool, any=any, all=all,
            vars=lambda x: {k: v for k, v in x.__dict__.items() if k != 'name'}, repr=st, print=lambda *a, **k: None, isinstance=lambda a, b: isinstance(a, b) if isinstance(b, type) else uns('isinstance'), divmod=divmod, round=round, filter=filter, **{'None': None, 'True': True, 'False': False}, ValueError=NS('ValueError', {}), pow=lambda a, b: a**b)
    # --- text
    def fmt(s, v, spec):
        """a value as text"""
        if isinstance(v, (Sym, F)) and spec:
            k = re.fullmatch(r'[<>^]?[+ ]?\d*(?:\.(\d+))?([eEgGsr]?)', spec)
            if not k or k.group(2) not in tuple('sr') and (not k.group(1) or int(k.group(1)) < (16 if k.group(2) in tuple('eE') else 17)): raise Raised(f'digits of a number are dropped in the format {spec}')
            spec = ''
        if isinstance(v, (str, int)) and spec:
            try: return format(v, spec)
            except ValueError as x: raise Raised(f'format: {x}')
        if spec: raise Unsupported('a format')
        return s.builtins['str'](v)
    def format(s, t, *a, **k):
        o = []; c = 0; import string
        for lit, f, spec, conv in string.Formatter().parse(t):
            o.append(lit)
            if f is None: continue
            if f == '': f = str(c); c += 1
            if not re.fullmatch(r'\w+', f): raise Unsupported('a field of a format')
            try: v = a[int(f)] if f.isdigit() else k[f]
            except (IndexError, KeyError): raise Raised(f'a format misses its argument {f}')
            o.append(s.fmt(v, spec))
        return ''.join(o)
    def percent(s, t, a):
        a = list(a) if isinstance(a, tuple) else [a]; o = []; p = 0
        for k in re.finditer(r'%([-+ 0]*\d*(?:\.\d+)?)([sdirfgeEG%])', t):
            o.append(t[p:k.start()]); p = k.end()
            if k.group(2) == '%': o.append('%'); continue
            if not a: raise Raised('a format misses an argument')
            v = a.pop(0)
            if k.group(2) in 'di':
                if isinstance(v, Sym): v = v.val()
                v = int(v); o.append(('%' + k.group(1) + 'd') % v)
            elif k.group(2) in 'sr' and isinstance(v, (str, int)): o.append(('%' + k.group(1) + 's') % v)
            elif k.group(2) in 'sr': o.append(s.fmt(v, ''))
            else: o.append(s.fmt(F(v) if isinstance(v, int) else v, k.group(1) + k.group(2)))
        if a: raise Raised('a format has too many arguments')
        return ''.join(o + [t[p:]])
    # --- modules
    def module(s, name):
        if name in s.mods: return s.mods[name]
        p = os.path.join(s.root, *name.split('.'))
        if os.path.isdir(p): m = s.mods[name] = Module(name, p); f = p + '/__init__.py'
        elif os.path.exists(p + '.py'): m = s.mods[name] = Module(name, p + '.py'); f = p + '.py'
        else: return None
        if os.path.exists(f): s.execmod(m, f)
        return m
    def execmod(s, m, f):
        src = open(f).read(); m.rel = os.path.relpath(f, s.root); e = Env(None); e.d = m.env
        try: tree = ast.parse(src)
        except SyntaxError as x: raise Raised(f'{m.rel} does not parse: {x}')
        s.loc.append([m.rel, '<module>', 0])
        try: s.block(tree.body, e, m)
        finally: s.loc.pop()
    def main(s, f, args):
        s.args = dict(args); m = Module('__main__', f); m.env['__name__'] = '__main__'; s.execmod(m, os.path.join(s.root, f)); return m
    def where(s): return f'{s.loc[-1][0]}: {s.loc[-1][1]}: line {s.loc[-1][2]}' if s.loc else ''
    def imp(s, name):
        if name.split('.')[0] in s.hosts:
            o = s.hosts[name.split('.')[0]]
            for k in name.split('.')[1:]: o = getattr(o, k)
            return o
        if any(name == o or name.startswith(o + '.') for o in s.opaque): return ANY
        m = s.module(name)
        if m is None: raise Raised(f'a module {name} which does not exist is imported')
        return m
    # --- calls
    def callf(s, f, a, k):
        if f.name in s.stubs and not isinstance(f.node, ast.Lambda): return ANY
        n = f.node.args; e = Env(f.env); a = list(a); names = [x.arg for x in n.posonlyargs+n.args]
        if len(a) > len(names) and not n.vararg: raise Raised(f'{f.name} is called with too many arguments')
        for x, v in zip(names, a): e.d[x] = v
        if n.vararg: e.d[n.vararg.arg] = tuple(a[len(names):])
        for x, v in k.items():
            if x in e.d or x not in names + [y.arg for y in n.kwonlyargs]: raise Raised(f'{f.name} is called with an unexpected argument {x}')
            e.d[x] = v
        for x, dv in zip(names[len(names)-len(n.defaults):], n.defaults):
            if x not in e.d: e.d[x] = s.ev(dv, f.env, f.mod)
        for x, dv in zip(n.kwonlyargs, n.kw_defaults):
            if x.arg not in e.d and dv is not None: e.d[x.arg] = s.ev(dv, f.env, f.mod)
        for x in names:
            if x not in e.d: raise Raised(f'{f.name} is called without its argument {x}')
        s.functions.add(f'{f.mod.rel}:{f.name}'); s.depth += 1
        if s.depth > 60: raise Unsupported('depth of calls')
        s.loc.append([f.mod.rel, f.name, f.node.lineno])
        try:
            if isinstance(f.node, ast.Lambda): return s.ev(f.node.body, e, f.mod)
            s.block(f.node.body, e, f.mod); r = None
        except Ret as x: r = x.v
        finally: s.depth -= 1
        s.loc.pop()
        return r
    def __call__(s, f, *a, **k): return f(*a, **k)
    # --- statements
    def block(s, b, e, m):
        for n in b: s.stmt(n, e, m)
    def truth(s, v):
        if isinstance(v, Any): return False
        if isinstance(v, (Join,)): raise Unsupported('a condition depends on the length of printed text')
        return bool(v)
    def assign(s, t, v, e, m):
        if isinstance(t, ast.Name):
            if t.id in e.glob: m.env[t.id] = v
            else: e.d[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Any): v = [v]*len(t.elts)
            v = list(v); st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]; k = len(t.elts)-i-1
                v = v[:i] + [v[i:len(v)-k]] + v[len(v)-k:]
            if len(v) != len(t.elts): raise Raised('wrong number of values to unpack')
            for x, y in zip(t.elts, v): s.assign(x.value if isinstance(x, ast.Starred) else x, y, e, m)
        elif isinstance(t, ast.Subscript):
            o = s.ev(t.value, e, m); k = s.idx(t.slice, e, m)
            try: o[k] = v
            except (IndexError, KeyError, TypeError) as x: raise Raised(f'{type(x).__name__}: {x}')
        elif isinstance(t, ast.Attribute):
            o = s.ev(t.value, e, m)
            if isinstance(o, Obj): o.f[t.attr] = v
            elif not isinstance(o, Any): raise Unsupported('attribute store')
        else: raise Unsupported('assignment target')
    def stmt(s, n, e, m):
        s.loc[-1][2] = n.lineno; s.steps += 1
        if s.deadline and time.time() > s.deadline: raise Unsupported('step limit (time)')
        t = type(n)
        if t is ast.Assign:
            v = s.ev(n.value, e, m)
            for x in n.targets: s.assign(x, v, e, m)
        elif t is ast.AnnAssign:
            if n.value is not None: s.assign(n.target, s.ev(n.value, e, m), e, m)
        elif t is ast.AugAssign:
            import copy
            x = copy.copy(n.target); x.ctx = ast.Load(); o = s.ev(x, e, m); v = s.ev(n.value, e, m)
            if isinstance(o, list) and isinstance(n.op, ast.Add): o += v; s.assign(n.target, o, e, m)
            else: s.assign(n.target, s.bin(n.op, o, v), e, m)
        elif t is ast.Expr: s.ev(n.value, e, m)
        elif t is ast.For:
            l = s.ev(n.iter, e, m)
            try: l = iter(l)
            except TypeError as x: raise Raised(f'{x}')
            for v in l:
                s.assign(n.target, v, e, m)
                try: s.block(n.body, e, m)
                except Brk: break
                except Cnt: continue
            else: s.block(n.orelse, e, m)
        elif t is ast.While:
            k = 0
            while s.truth(s.cond(n.test, e, m)):
                k += 1
                if k > 100000: raise Raised('a loop does not end')
                try: s.block(n.body, e, m)
                except Brk: break
                except Cnt: continue
            else: s.block(n.orelse, e, m)
        elif t is ast.If:
            c = s.ev(n.test, e, m)
            if isinstance(c, Unknown): s.both(n, e, m)
            else: s.block(n.body if s.truth(c) else n.orelse, e, m)
        elif t is ast.Return: raise Ret(None if n.value is None else s.ev(n.value, e, m))
        elif t is ast.Break: raise Brk()
        elif t is ast.Continue: raise Cnt()
        elif t is ast.Pass: pass
        elif t is ast.Global: e.glob |= set(n.names)
        elif t is ast.Assert:
            c = s.ev(n.test, e, m)
            if not isinstance(c, Unknown) and not s.truth(c): raise Raised('an assertion fails: ' + ast.unparse(n.test))
        elif t is ast.Raise: raise Raised('raises ' + (ast.unparse(n.exc) if n.exc else ''))
        elif t is ast.FunctionDef: e.d[n.name] = Func(s, n, e, m)
        elif t is ast.ClassDef:
            c = Env(e); s.block(n.body, c, m); e.d[n.name] = Class(n.name, c.d)
        elif t is ast.Import:
            for a in n.names:
                o = s.imp(a.name)
                if a.asname: e.d[a.asname] = o
                else: e.d[a.name.split('.')[0]] = s.imp(a.name.split('.')[0])
        elif t is ast.ImportFrom:
            base = n.module or ''
            if n.level:
                p = m.name.split('.')
                p = p[:len(p)-n.level]; base = '.'.join(p + ([n.module] if n.module else []))
            for a in n.names:
                o = s.imp(base)
                if a.name == '*':
                    e.d.update({k: v for k, v in (o.env if isinstance(o, Module) else o.__dict__ if isinstance(o, NS) else {}).items() if not k.startswith('_')})
                else: e.d[a.asname or a.name] = s.attr(o, a.name)
        elif t is ast.With:
            for w in n.items:
                o = s.ev(w.context_expr, e, m)
                if not hasattr(o, '__exit__') : raise Unsupported('with')
                if w.optional_vars is not None: s.assign(w.optional_vars, o.__enter__(), e, m)
            s.block(n.body, e, m)
        elif t is ast.Delete:
            for x in n.targets:
                if isinstance(x, ast.Name): e.d.pop(x.id, None)
        else: raise Unsupported(f'statement {t.__name__}')
    def both(s, n, e, m):
        old = dict(e.d); r = []
        for b in (n.body, n.orelse):
            e.d.clear(); e.d.update(old)
            try: s.block(b, e, m)
            except (Ret, Brk, Cnt): raise Unsupported('control flow depends on the length of printed text')
            r.append(dict(e.d))
        e.d.clear()
        for k in set(r[0]) & set(r[1]): e.d[k] = s.join(r[0][k], r[1][k])
    def join(s, a, b):
        if a is b: return a
        if isinstance(a, (Sym, F, int)) and not isinstance(a, bool) and isinstance(b, (Sym, F, int)) and not isinstance(b, bool): return (sy(a) if isinstance(a, Sym) or isinstance(b, Sym) else a) if sy(a) == sy(b) else Join()
        if type(a) is type(b) and isinstance(a, (str, bool)): return a if a == b else Join()
        if type(a) is type(b) and isinstance(a, (list, tuple)) and len(a) == len(b): return type(a)(s.join(x, y) for x, y in zip(a, b))
        return Join()
    # --- expressions
    def look(s, n, e, m):
        while e is not None:
            if n in e.d: return e.d[n]
            e = e.up
        if n in m.env: return m.env[n]
        if n in s.builtins: return s.builtins[n]
        raise Raised(f'the name {n} is not defined')
    def bin(s, op, a, b):
        if isinstance(a, Join) or isinstance(b, Join): raise Raised('a result depends on the length of a printed expression')
        if isinstance(a, Unknown) or isinstance(b, Unknown): return Unknown()
        if isinstance(op, ast.Mod) and isinstance(a, str): return s.percent(a, b)
        f = BINOP.get(type(op))
        if f is None: raise Unsupported('operator ' + type(op).__name__)
        try: return f(a, b)
        except TypeError as x: raise Raised(f'{x}')
        except ZeroDivisionError as x: raise Raised('division by zero')
    def attr(s, o, k):
        if isinstance(o, Module):
            if k in o.env: return o.env[k]
            if o.name + '.' + k in s.opaque: return ANY
            x = s.module(o.name + '.' + k) if os.path.isdir(o.path) else None
            if x is None: raise Raised(f'module {o.name} has no {k}')
            return x
        if isinstance(o, Obj):
            if k in o.f: return o.f[k]
            if k in o.cls.d:
                v = o.cls.d[k]
                return Bound(o, v) if isinstance(v, Func) else v
            raise Raised(f'{o.cls.name} has no attribute {k}')
        if isinstance(o, Class):
            if k in o.d: return o.d[k]
            raise Raised(f'{o.name} has no attribute {k}')
        if isinstance(o, Any): return o
        if isinstance(o, Sym):
            if k in SYMM: return getattr(o, k)
            raise Unsupported(f'attribute {k} of an expression')
        if isinstance(o, Mat):
            if k in MATM: return getattr(o, k)
            raise Unsupported(f'attribute {k} of a matrix')
        if isinstance(o, (Join,)): raise Raised('a result depends on the length of a printed expression')
        if isinstance(o, str) and k == 'format': return lambda *a, **kw: s.format(o, *a, **kw)
        for ty, l in METHODS.items():
            if type(o) is ty:
                if k in l: return getattr(o, k)
                raise Raised(f'{ty.__name__} has no attribute {k}')
        if hasattr(o, k): return getattr(o, k)
        raise Unsupported(f'attribute {k} of {type(o).__name__} {getattr(o, "name", "")}')
    def idx(s, n, e, m):
        if isinstance(n, ast.Slice): return slice(*[None if x is None else s.ev(x, e, m) for x in (n.lower, n.upper, n.step)])
        if isinstance(n, ast.Tuple): return tuple(s.idx(x, e, m) for x in n.elts)
        return s.ev(n, e, m)
    cond = lambda s, n, e, m: s.ev(n, e, m)
    def comp(s, n, e, m, emit):
        c = Env(e)
        def go(i):
            if i == len(n.generators): emit(c); return
            g = n.generators[i]
            for v in s.ev(g.iter, c, m):
                s.assign(g.target, v, c, m)
                if all(s.truth(s.ev(x, c, m)) for x in g.ifs): go(i+1)
        go(0)
    def ev(s, n, e, m):
        t = type(n)
        if t is ast.Constant: return F(n.value) if isinstance(n.value, float) else n.value
        if t is ast.Name: return s.look(n.id, e, m)
        if t is ast.BinOp: return s.bin(n.op, s.ev(n.left, e, m), s.ev(n.right, e, m))
        if t is ast.Call:
            f = s.ev(n.func, e, m); a = []; k = {}
            for x in n.args:
                if isinstance(x, ast.Starred): a += list(s.ev(x.value, e, m))
                else: a.append(s.ev(x, e, m))
            for x in n.keywords:
                if x.arg is None: k.update(s.ev(x.value, e, m))
                else: k[x.arg] = s.ev(x.value, e, m)
            if isinstance(f, Class):
                o = Obj(f)
                if '__init__' in f.d: f.d['__init__'](o, *a, **k)
                return o
            if not callable(f): raise Raised(f'{ast.unparse(n.func)} is not callable')
            try: return f(*a, **k)
            except (TypeError, ValueError, IndexError, KeyError, AttributeError) as x: raise Raised(f'{ast.unparse(n.func)}: {type(x).__name__}: {x}')
        if t is ast.Attribute: return s.attr(s.ev(n.value, e, m), n.attr)
        if t is ast.Subscript:
            o = s.ev(n.value, e, m); k = s.idx(n.slice, e, m)
            if isinstance(o, Join): raise Raised('a result depends on the length of a printed expression')
            try: return o[k]
            except (IndexError, KeyError, TypeError) as x: raise Raised(f'{type(x).__name__}: {x}')
        if t is ast.List:
            r = []
            for x in n.elts:
                if isinstance(x, ast.Starred): r += list(s.ev(x.value, e, m))
                else: r.append(s.ev(x, e, m))
            return r
        if t is ast.Tuple: return tuple(s.ev(ast.List(elts=n.elts), e, m))
        if t is ast.Dict: return {s.ev(k, e, m): s.ev(v, e, m) for k, v in zip(n.keys, n.values)}
        if t is ast.Set: return {s.ev(x, e, m) for x in n.elts}
        if t is ast.UnaryOp:
            v = s.ev(n.operand, e, m)
            if isinstance(v, Unknown): return v
            if isinstance(n.op, ast.Not): return not s.truth(v)
            return -v if isinstance(n.op, ast.USub) else v
        if t is ast.Compare:
            l = s.ev(n.left, e, m)
            for op, r in zip(n.ops, n.comparators):
                r = s.ev(r, e, m)
                if isinstance(l, Unknown) or isinstance(r, Unknown): return Unknown()
                if isinstance(l, Any) or isinstance(r, Any): return ANY
                try: c = CMP[type(op)](l, r)
                except TypeError as x: raise Raised(f'{x}')
                if not c: return False
                l = r
            return True
        if t is ast.BoolOp:
            v = None
            for x in n.values:
                v = s.ev(x, e, m)
                if isinstance(v, Unknown): return v
                if s.truth(v) != isinstance(n.op, ast.And): return v
            return v
        if t is ast.IfExp:
            c = s.ev(n.test, e, m)
            if isinstance(c, Unknown): return s.join(s.ev(n.body, e, m), s.ev(n.orelse, e, m))
            return s.ev(n.body if s.truth(c) else n.orelse, e, m)
        if t is ast.Lambda: return Func(s, n, e, m)
        if t in (ast.ListComp, ast.GeneratorExp): r = []; s.comp(n, e, m, lambda c: r.append(s.ev(n.elt, c, m))); return r
        if t is ast.SetComp: r = set(); s.comp(n, e, m, lambda c: r.add(s.ev(n.elt, c, m))); return r
        if t is ast.DictComp: r = {}; s.comp(n, e, m, lambda c: r.__setitem__(s.ev(n.key, c, m), s.ev(n.value, c, m))); return r
        if t is ast.JoinedStr: return ''.join(x.value if isinstance(x, ast.Constant) else s.fmt(s.ev(x.value, e, m), '' if x.format_spec is None else s.ev(x.format_spec, e, m)) for x in n.values)
        raise Unsupported(f'expression {t.__name__}')
def num(v):
    if isinstance(v, Sym): return v.__index__()
    if isinstance(v, F): raise Raised('a floating point value is used as an integer')
    if isinstance(v, Unknown): raise Unsupported('an unknown count')
    return v
def uns(w): raise Unsupported(w)
def deep(x):
    if isinstance(x, list): return [deep(v) for v in x]
    if isinstance(x, Mat): return x.copy()
    return x
