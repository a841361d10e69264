"""Hash-consed value terms and their algebraic normal form.

Terms are the value domain of the abstract interpreter (absint.py).  The normal form of an
arithmetic term is a polynomial over atoms (inputs, square roots, opaque functions, canonical
denominators) with rational coefficients; two terms are the same value when the difference of
their normal forms is the zero polynomial.  A term that joins two control-flow sides is an
'ite'; it is compared case by case over the truth of its (canonical) condition.
No solver is involved and nothing is evaluated on concrete inputs."""
from fractions import Fraction
import math, sys
sys.setrecursionlimit(200000)

_tab = {}
class T:
    __slots__ = ('op', 'a', 'id', '_h')
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    # operator sugar for specifications
    def __add__(s,o): return add(s,lift(o))
    __radd__ = __add__
    def __sub__(s,o): return sub(s,lift(o))
    def __rsub__(s,o): return sub(lift(o),s)
    def __mul__(s,o): return mul(s,lift(o))
    __rmul__ = __mul__
    def __truediv__(s,o): return div(s,lift(o))
    def __rtruediv__(s,o): return div(lift(o),s)
    def __neg__(s): return neg(s)
    def __pow__(s,n):
        r=ONE
        for _ in range(n): r=mul(r,s)
        return r

def mk(op, *a):
    k = (op,) + tuple((x.id if isinstance(x, T) else ('k', type(x).__name__, x)) for x in a)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.a = a; t.id = len(_tab) + 1
        _tab[k] = t
    return t

def const(v):
    if isinstance(v, float):
        if math.isinf(v): return mk('v', 'inf') if v > 0 else neg(mk('v', 'inf'))
        if math.isnan(v): return mk('v', repr(v))
        v = Fraction(v)
    if isinstance(v, Fraction) and v.denominator == 1: v = int(v)
    return mk('c', v)
def lift(v):
    return v if isinstance(v, T) else const(v)
ZERO = const(0); ONE = const(1); MONE = const(-1)
TRUE = mk('true'); FALSE = mk('false')
def var(n): return mk('v', n)
def isc(t): return t.op == 'c'
def cval(t): return t.a[0]

def add(a, b):
    if isc(a) and isc(b): return const(a.a[0] + b.a[0])
    if a is ZERO: return b
    if b is ZERO: return a
    if isc(b): a, b = b, a
    if isc(a):
        if b.op == '+':
            if isc(b.a[0]): return add(const(a.a[0]+b.a[0].a[0]), b.a[1])
            if isc(b.a[1]): return add(const(a.a[0]+b.a[1].a[0]), b.a[0])
        elif kite(b): return kmap(b, lambda x: add(a, x))
    if a.id > b.id: a, b = b, a
    return mk('+', a, b)
_kt = {}
def kite(t):
    """a conditional whose leaves are all constants"""
    if t.op != 'ite': return False
    r = _kt.get(t)
    if r is None:
        r = _kt[t] = all(isc(x) or kite(x) for x in t.a[1:])
    return r
def kmap(t, f):
    if isc(t): return f(t)
    return ite(t.a[0], kmap(t.a[1], f), kmap(t.a[2], f))
def neg(a): return mul(MONE, a)
def sub(a, b):
    if a is b: return ZERO
    return add(a, neg(b))
def mul(a, b):
    if isc(a) and isc(b): return const(a.a[0] * b.a[0])
    if a is ZERO or b is ZERO: return ZERO
    if a is ONE: return b
    if b is ONE: return a
    if a.op == 'c' and b.op == '*' and b.a[0].op == 'c': return mul(const(a.a[0]*b.a[0].a[0]), b.a[1])
    if b.op == 'c' and a.op == '*' and a.a[0].op == 'c': return mul(const(b.a[0]*a.a[0].a[0]), a.a[1])
    if b.op == 'c': a, b = b, a
    if a.op == 'c' and kite(b): return kmap(b, lambda x: mul(a, x))
    if a.op != 'c' and a.id > b.id: a, b = b, a
    return mk('*', a, b)
def inv(a):
    if isc(a):
        if a.a[0] == 0: return mk('fn', 'inv0')
        return const(Fraction(1) / a.a[0])
    return mk('inv', a)
def div(a, b): return mul(a, inv(b))
def sqrt(a):
    a = lift(a)
    if isc(a):
        v = Fraction(a.a[0])
        if v >= 0:
            n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
            if n*n == v.numerator and d*d == v.denominator: return const(Fraction(n, d))
    return mk('sqrt', a)
def fn(name, *a):
    return mk('fn', name, *[lift(x) if not isinstance(x, (str, tuple)) else x for x in a])
def abs_(a):
    a = lift(a)
    if isc(a): return const(abs(a.a[0]))
    return ite(ge0(a), a, neg(a))

# ------------------------------------------------------------- conditions
def gt0(x):
    if isc(x): return TRUE if x.a[0] > 0 else FALSE
    if kite(x): return kmap(x, gt0)
    return mk('gt0', x)
def ge0(x):
    if isc(x): return TRUE if x.a[0] >= 0 else FALSE
    if kite(x): return kmap(x, ge0)
    return mk('ge0', x)
def eq0(x):
    if isc(x): return TRUE if x.a[0] == 0 else FALSE
    if kite(x): return kmap(x, eq0)
    return mk('eq0', x)
def lt(a, b): return gt0(sub(lift(b), lift(a)))
def le(a, b): return ge0(sub(lift(b), lift(a)))
def gt(a, b): return lt(b, a)
def ge(a, b): return le(b, a)
def eq(a, b): return eq0(sub(lift(a), lift(b)))
def not_(c):
    if c is TRUE: return FALSE
    if c is FALSE: return TRUE
    if c.op == 'not': return c.a[0]
    return mk('not', c)
def and_(a, b):
    if a is FALSE or b is FALSE: return FALSE
    if a is TRUE: return b
    if b is TRUE: return a
    if a is b: return a
    if a is not_(b): return FALSE
    if a.id > b.id: a, b = b, a
    return mk('and', a, b)
def or_(a, b): return not_(and_(not_(a), not_(b)))
def xor_(a, b):
    if a is TRUE: return not_(b)
    if b is TRUE: return not_(a)
    if a is FALSE: return b
    if b is FALSE: return a
    if a is b: return FALSE
    return ite(a, not_(b), b)
BOOLOPS = ('true','false','gt0','ge0','eq0','not','and','bfn')
def isbool(t):
    return t.op in BOOLOPS or (t.op == 'ite' and isbool(t.a[1])) or (t.op == 'v' and isinstance(t.a[0],str) and t.a[0].startswith('?'))
def bvar(n): return mk('bfn', n)
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == 'not': return ite(c.a[0], b, a)
    if a is TRUE and b is FALSE: return c
    if a is FALSE and b is TRUE: return not_(c)
    if a.op == 'ite' and a.a[0] is c: a = a.a[1]
    if b.op == 'ite' and b.a[0] is c: b = b.a[2]
    if a is b: return a
    if isbool(a) and isbool(b):
        if a is TRUE: return or_(c, b)
        if b is FALSE: return and_(c, a)
        if a is FALSE: return and_(not_(c), b)
        if b is TRUE: return or_(not_(c), a)
    return mk('ite', c, a, b)

def show(t, d=6):
    if not isinstance(t, T): return str(t)
    if t.op == 'c':
        v = t.a[0]
        return str(v) if isinstance(v, int) else (f'{v}' if v.denominator < 10**6 else f'{float(v):.10g}')
    if t.op == 'v': return str(t.a[0])
    if t.op in ('true','false'): return t.op
    if d == 0: return '..'
    s = [show(x, d-1) for x in t.a]
    if t.op == '+': return '(%s + %s)' % tuple(s)
    if t.op == '*': return '%s*%s' % tuple(s)
    if t.op == 'inv': return '1/%s' % s[0]
    if t.op == 'gt0': return '[%s > 0]' % s[0]
    if t.op == 'ge0': return '[%s >= 0]' % s[0]
    if t.op == 'eq0': return '[%s == 0]' % s[0]
    if t.op == 'not': return '!%s' % s[0]
    if t.op == 'ite': return '(%s ? %s : %s)' % tuple(s)
    if t.op == 'fn': return '%s(%s)' % (s[0], ','.join(s[1:]))
    return '%s(%s)' % (t.op, ','.join(s))

def atoms_of(t, ops=('v',), seen=None, out=None):
    if out is None: out=set(); seen=set()
    st=[t]
    while st:
        x=st.pop()
        if not isinstance(x,T) or x in seen: continue
        seen.add(x)
        if x.op in ops: out.add(x)
        st.extend(x.a)
    return out

def subst(t, m, memo=None):
    """replace subterms (map of T -> T)"""
    if memo is None: memo = {}
    def go(x):
        if not isinstance(x, T): return x
        r = m.get(x)
        if r is not None: return r
        r = memo.get(x)
        if r is not None: return r
        if not x.a or x.op in ('c','v'): r = x
        else:
            na = tuple(go(y) for y in x.a)
            r = rebuild(x.op, na) if any(p is not q for p,q in zip(na, x.a)) else x
        memo[x] = r
        return r
    return go(t)
def rebuild(op, a):
    f = {'+':add,'*':mul,'inv':inv,'sqrt':sqrt,'gt0':gt0,'ge0':ge0,'eq0':eq0,'not':not_,'and':and_,'ite':ite}.get(op)
    if f: return f(*a)
    if op=='fn': return fn(*a)
    return mk(op, *a)

# ------------------------------------------------------------- polynomials
# poly: dict  monomial -> coefficient;  monomial: tuple of (atom, exp) sorted by atom id
class Atom:
    __slots__=('id','kind','x','name')
    def __repr__(s): return s.name
    def __lt__(s,o): return s.id<o.id
_atoms={}
_atlist=[]
def atom(kind, key, x=None, name=None):
    k=(kind,key)
    a=_atoms.get(k)
    if a is None:
        a=Atom(); a.id=len(_atlist); a.kind=kind; a.x=x; a.name=name or str(key)
        _atoms[k]=a; _atlist.append(a)
    return a

def p_const(c): return {(): c} if c != 0 else {}
def p_atom(a, e=1): return {((a.id, e),): 1}
def p_add(p, q):
    if len(p) < len(q): p, q = q, p
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c
        if v == 0: r.pop(m, None)
        else: r[m] = v
    return r
def p_scale(p, c):
    if c == 0: return {}
    return {m: v*c for m, v in p.items()}
def m_mul(a, b):
    if not a: return b
    if not b: return a
    r = []; i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] < y[0]: r.append(x); i += 1
        elif x[0] > y[0]: r.append(y); j += 1
        else:
            e = x[1] + y[1]
            if e: r.append((x[0], e))
            i += 1; j += 1
    r.extend(a[i:]); r.extend(b[j:])
    return tuple(r)
class TooBig(Exception): pass
LIMIT = 400000
def p_mul(p, q, raw=False):
    if not p or not q: return {}
    if len(p) > len(q): p, q = q, p
    if len(p)*len(q) > 8*LIMIT: raise TooBig()
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = m_mul(m, n)
            v = r.get(k, 0) + c*d
            if v == 0: r.pop(k, None)
            else: r[k] = v
    if len(r) > LIMIT: raise TooBig()
    return r if raw else reduce_(r)
def p_pow(p, n):
    r = {(): 1}
    while n:
        if n & 1: r = p_mul(r, p)
        n >>= 1
        if n: p = p_mul(p, p)
    return r

def reduce_(p):
    """sqrt atoms: exponent back into {0,1}; den atoms with positive exponent expanded"""
    bad = None
    for m in p:
        for a, e in m:
            k = _atlist[a].kind
            if (k == 'sqrt' and e not in (1,)) or (k == 'den' and e > 0):
                bad = True; break
        if bad: break
    if not bad: return p
    r = {}
    for m, c in p.items():
        q = {(): c}
        rest = []
        for a, e in m:
            at = _atlist[a]
            if at.kind == 'sqrt' and e != 1:
                h = e // 2   # floor
                o = e - 2*h
                if o: rest.append((a, 1))
                if h > 0: q = p_mul(q, p_pow(at.x, h))
                elif h < 0: q = p_mul(q, p_pow(p_inv(at.x), -h))
            elif at.kind == 'den' and e > 0:
                q = p_mul(q, p_pow(at.x, e))
            else: rest.append((a, e))
        q = p_mul(q, {tuple(rest): 1}) if any(True for _ in q) else q
        r = p_add(r, q)
        if len(r) > LIMIT: raise TooBig()
    return r

def p_key(p):
    return tuple(sorted(p.items()))
def lead(p):
    m = max(p.keys(), key=lambda m: (sum(e for _, e in m), m))
    return m, p[m]
def m_inv(m): return tuple((a, -e) for a, e in m)
def p_show(p, n=8):
    if not p: return '0'
    out = []
    for m, c in sorted(p.items(), key=lambda kv: (-abs(kv[1]), kv[0]))[:n]:
        cs = str(c) if isinstance(c, int) or c.denominator < 10000 else '%.6g' % float(c)
        out.append('*'.join([cs] + ['%s%s' % (_atlist[a].name, '' if e == 1 else '^%d' % e) for a, e in m]))
    return ' + '.join(out) + (' + ... (%d terms)' % len(p) if len(p) > n else '')

def p_clear(p):
    """p = mono * q with q a polynomial without common monomial (negative exponents cleared)"""
    mins = {}
    first = True
    for m in p:
        d = dict(m)
        if first: mins = dict(d); first = False
        else:
            for a in list(mins):
                v = min(mins[a], d.get(a, 0))
                mins[a] = v
            for a, e in d.items():
                if a not in mins: mins[a] = min(0, e)
    mono = tuple(sorted((a, e) for a, e in mins.items() if e and not (_atlist[a].kind == 'sqrt')))
    if not mono: return (), p
    im = m_inv(mono)
    q = {m_mul(m, im): c for m, c in p.items()}
    return mono, reduce_(q)

def p_inv(p):
    if not p: raise ZeroDivisionError('inverse of zero polynomial')
    if len(p) == 1:
        (m, c), = p.items()
        ic = Fraction(1) / c
        if ic.denominator == 1: ic = int(ic)
        r = {m_inv(m): ic}
        return reduce_(r)
    mono, q = p_clear(p)
    if len(q) == 1:
        return p_mul(p_inv(q), reduce_({m_inv(mono): 1}))
    lm, lc = lead(q)
    q = p_scale(q, Fraction(1) / lc) if lc != 1 else q
    q = {m: (int(c) if isinstance(c, Fraction) and c.denominator == 1 else c) for m, c in q.items()}
    a = atom('den', p_key(q), q, '(' + p_show(q, 4) + ')')
    ic = Fraction(1) / lc
    if ic.denominator == 1: ic = int(ic)
    return p_mul({((a.id, -1),): ic}, reduce_({m_inv(mono): 1}))

def p_numer(p):
    """clear all denominators: polynomial that is zero iff p is (denominators nonzero)"""
    for _ in range(60):
        # highest id den atom with negative exponent first (newer may contain older)
        low = {}
        for m in p:
            for a, e in m:
                if e < 0: low[a] = min(low.get(a, 0), e)
        if not low: return p
        dens = [a for a in low if _atlist[a].kind == 'den']
        if dens:
            a = max(dens); k = -low[a]
            D = _atlist[a].x
            pw = {0: {(): 1}}
            for i in range(1, k+1): pw[i] = p_mul(pw[i-1], D)
            groups = {}
            for m, c in p.items():
                e = dict(m).get(a, 0)
                mm = tuple(t for t in m if t[0] != a)
                groups.setdefault(k + e, {})[mm] = c
            r = {}
            for e, g in groups.items():
                if e not in pw:
                    pw[e] = p_pow(D, e)
                r = p_add(r, p_mul(g, pw[e]))
            p = r
        else:
            mono = tuple(sorted((a, -e) for a, e in low.items()))
            p = reduce_({m_mul(m, mono): c for m, c in p.items()})
    raise TooBig()

TOL = Fraction(1, 10**9)
def p_iszero(p, tol=None):
    if not p: return True
    p = p_numer(p)
    if not p: return True
    if tol is None: tol = TOL
    if tol == 0: return False
    return max(abs(c) for c in p.values()) <= tol

# ------------------------------------------------------------- normal form with case assignment
_HUGE = {int(sys.float_info.max), 340282346638528859811704183484516925440}
class NeedSplit(Exception):
    def __init__(s, key, t): s.key = key; s.t = t

class Ctx:
    """one case: truth values of canonical condition atoms, and its memo"""
    def __init__(self, env=None, pos=()):
        self.env = dict(env or {})
        self.memo = {}
        self.pos = pos            # names of atoms known to be > 0
    # ---- conditions
    def cond_key(self, kind, x):
        p = self.nf(x)
        if not p:
            return kind in ('ge0', 'eq0')
        if len(p) == 1 and () in p:
            v = p[()]
            return v > 0 if kind == 'gt0' else v >= 0 if kind == 'ge0' else v == 0
        s = self.sign(p)
        if s == '+':
            return kind != 'eq0'
        if s == '-':
            return False
        # strip positive monomial factors / clear denominators known positive
        mono, q = p_clear(p)
        keep = tuple((a, (e % 2)) for a, e in mono if e % 2 and not self.posatom(a))
        if kind == 'eq0': keep = tuple((a, 1) for a, e in mono if e > 0 and not self.posatom(a))
        if keep: q = p_mul(q, {keep: 1})
        q = self.strip_den(q, kind)
        lm, lc = lead(q)
        flip = lc < 0
        q = p_scale(q, Fraction(1) / lc)
        q = {m: (int(c) if isinstance(c, Fraction) and c.denominator == 1 else c) for m, c in q.items()}
        key = p_key(q)
        return (kind, key, flip, q)
    def strip_den(self, q, kind):
        if any(e < 0 for m in q for _, e in m):
            low = {}
            for m in q:
                for a, e in m:
                    if e < 0: low[a] = min(low.get(a, 0), e)
            if all(self.posatom(a) or low[a] % 2 == 0 or kind == 'eq0' for a in low):
                try: return p_numer(q)
                except TooBig: pass
        return q
    def posatom(self, a):
        at = _atlist[a]
        if at.kind == 'sqrt': return True
        if at.kind == 'den': return self.sign(at.x) == '+'
        return at.name in self.pos or (at.kind == 'pos')
    def sign(self, p):
        # the largest floating point numbers bound every finite value
        c = p.get(())
        if c is not None and abs(c) in _HUGE: return '+' if c > 0 else '-'
        # ... and so does infinity
        i = _atoms.get(('v', 'inf'))
        i = i and [(m, c) for m, c in p.items() if any(a == i.id for a, e in m)]
        if i and len(i) == 1 and len(i[0][0]) == 1 and i[0][0][0][1] == 1: return '+' if i[0][1] > 0 else '-'
        """'+' all terms positive, '-' all negative (by declared-positive atoms), else None"""
        s = None
        for m, c in p.items():
            for a, e in m:
                if e % 2 and not self.posatom(a): return None
                if e < 0 and not self.posatom(a): return None
            t = '+' if c > 0 else '-'
            if s is None: s = t
            elif s != t: return None
        # even powers of non-positive atoms are only >= 0; demand a strictly positive term
        for m, c in p.items():
            if all(self.posatom(a) for a, e in m): return s
        return None
    def known(self, q):
        r = self.known_(q)
        if r is None and 3 < len(q) <= 60 and all(e > 0 for m in q for a, e in m):
            for k, v in self.env.items():
                if k[0] != 'sgn' or not 1 < len(k[1]) < len(q): continue
                t = p_div(q, dict(k[1]))
                if t is None: continue
                if v == 0: return 0
                g = self.sign(t)
                if g: return v if g == '+' else -v
        return r
    def known_(self, q):
        """sign of q from the interval the case's facts leave for its non-constant part"""
        iv = self.__dict__.get('iv')
        if iv is None:
            iv = self.iv = {}
            for k, v in self.env.items():
                if k[0] != 'sgn': continue
                d = dict(k[1]); b = d.pop((), 0); w = p_key(d)
                lo, hi = iv.get(w, ((None, 0), (None, 0)))
                if v >= 0 and (lo[0] is None or (-b, v > 0) > lo): lo = (-b, v > 0)
                if v <= 0 and (hi[0] is None or (-b, not v < 0) < hi): hi = (-b, not v < 0)
                iv[w] = (lo, hi)
        d = dict(q); b = d.pop((), 0); w = p_key(d)
        if w not in iv: return None
        (lo, los), (hi, hin) = iv[w]
        if lo is not None and (lo > -b or (lo == -b and los)): return 1
        if hi is not None and (hi < -b or (hi == -b and not hin)): return -1
        if lo is not None and hi is not None and lo == hi == -b: return 0
        return None
    def truth(self, c):
        op = c.op
        if op == 'true': return True
        if op == 'false': return False
        if op == 'not': return not self.truth(c.a[0])
        if op == 'and': return self.truth(c.a[0]) and self.truth(c.a[1])
        if op == 'ite': return self.truth(c.a[1]) if self.truth(c.a[0]) else self.truth(c.a[2])
        if op in ('bfn', 'v'):
            k = ('b', c.a)
            if k in self.env: return self.env[k]
            raise NeedSplit(k, c)
        if op in ('gt0', 'ge0', 'eq0'):
            r = self.cond_key(op, c.a[0])
            if isinstance(r, bool): return r
            kind, key, flip, q = r
            # each canonical q has sign in {-,0,+}
            k = ('sgn', key)
            s = self.env.get(k)
            if s is None: s = self.known(q)
            if s is None: raise NeedSplit(k, q)
            if flip: s = -s
            return s > 0 if kind == 'gt0' else s >= 0 if kind == 'ge0' else s == 0
        # integer-valued term used as a condition
        return self.truth(not_(eq0(c)))
    # ---- arithmetic
    def nf(self, t):
        r = self.memo.get(t)
        if r is not None: return r
        # iterative over '+' spines to limit recursion
        op = t.op
        if op == 'c': r = p_const(t.a[0])
        elif op == 'v': r = p_atom(atom('v', t.a[0], t, str(t.a[0])))
        elif op == '+': r = p_add(self.nf(t.a[0]), self.nf(t.a[1]))
        elif op == '*':
            if t.a[0].op == 'c': r = p_scale(self.nf(t.a[1]), t.a[0].a[0])
            else:
                a = self.nf(t.a[0]); 
                r = p_mul(a, self.nf(t.a[1])) if a else {}
        elif op == 'inv':
            p = self.nf(t.a[0])
            if not p: r = p_atom(atom('v', 'DIV0', t, 'DIV0'))
            else: r = p_inv(p)
        elif op == 'sqrt': r = self.nf_sqrt(t)
        elif op == 'ite': r = self.nf(t.a[1]) if self.truth(t.a[0]) else self.nf(t.a[2])
        elif op in ('true', 'false') or isbool(t): r = p_const(1 if self.truth(t) else 0)
        elif op == 'fn':
            args = []
            for x in t.a[1:]:
                args.append(p_key(self.nf(x)) if isinstance(x, T) else x)
            r = self.nf_fn(t, t.a[0], args)
        else: raise ValueError('nf ' + op)
        self.memo[t] = r
        return r
    def nf_fn(self, t, name, args):
        return p_atom(atom('fn', (name,) + tuple(args), t, show(t, 3)))
    def nf_sqrt(self, t):
        p = self.nf(t.a[0])
        if not p: return {}
        if len(p) == 1 and () in p:
            v = Fraction(p[()])
            if v >= 0:
                n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if n*n == v.numerator and d*d == v.denominator: return p_const(Fraction(n, d))
        mono, q = p_clear(p)
        # pull even powers of positive atoms out
        out = tuple((a, e // 2) for a, e in mono if (e // 2) and self.posatom(a))
        inn = tuple((a, e - 2*(e // 2) if self.posatom(a) else e) for a, e in mono)
        inn = tuple((a, e) for a, e in inn if e)
        q = p_mul(q, {inn: 1}) if inn else q
        if len(q) == 1 and () in q:
            # sqrt(constant)
            v = Fraction(q[()])
            if v >= 0:
                n, d = math.isqrt(v.numerator), math.isqrt(v.denominator)
                if n*n == v.numerator and d*d == v.denominator:
                    return reduce_({out: Fraction(n, d)})
        a = atom('sqrt', p_key(q), q, 'sqrt(' + p_show(q, 4) + ')')
        return reduce_({m_mul(out, ((a.id, 1),)): 1})

def possible(env, key):
    """signs of the polynomial that the intervals of a case leave open"""
    c = Ctx(env); d = dict(key); b = d.pop((), 0); w = p_key(d)
    c.known(dict(key))
    if w not in c.iv: return (1, 0, -1)
    (lo, los), (hi, hin) = c.iv[w]
    r = []
    if hi is None or hi > -b: r.append(1)
    if (lo is None or lo < -b or (lo == -b and not los)) and (hi is None or hi > -b or (hi == -b and hin)): r.append(0)
    if lo is None or lo < -b: r.append(-1)
    return r

def contradicts(env, key, s, pos):
    """two signed facts whose sum has an impossible sign"""
    if s == 0 or not pos: return False
    c = Ctx(None, pos); q = p_scale(dict(key), s); n = 0
    for k, v in env.items():
        if k[0] != 'sgn' or not v: continue
        n += 1
        if n > 40: break
        w = p_add(q, p_scale(dict(k[1]), v))
        if not w or c.sign(w) == '-': return True
    return False

def p_div(q, f):
    """quotient of an exact division, None if there is a remainder"""
    ats = sorted({a for m in f for a, e in m})
    if any(e < 0 for m in f for a, e in m) or any(_atlist[a].kind == 'sqrt' for a in ats): return None
    have = {a for m in q for a, e in m}
    if not have.issuperset(ats): return None
    ats += sorted(have.difference(ats))
    ix = {a: i for i, a in enumerate(ats)}
    def dense(p):
        o = {}
        for m, c in p.items():
            v = [0]*len(ats)
            for a, e in m: v[ix[a]] = e
            o[tuple(v)] = c
        return o
    q, f = dense(q), dense(f); lf = max(f); r = {}
    for c in list(q.values())+list(f.values()):
        if not isinstance(c, (int, Fraction)): return None
    while q:
        l = max(q); d = tuple(x-y for x, y in zip(l, lf))
        if min(d) < 0 or len(r) > 40: return None
        k = Fraction(q[l]) / f[lf]; r[d] = k
        for m, c in f.items():
            t = tuple(x+y for x, y in zip(m, d)); n = q.get(t, 0) - k*c
            if n: q[t] = n
            else: q.pop(t, None)
    return {tuple(sorted((ats[i], e) for i, e in enumerate(d) if e)): k for d, k in r.items()}
def empty_case(env, cap=1500):
    """the signs assumed in a case contradict each other: elimination in the domain of linear
    inequalities over the monomials (True only with a certificate)"""
    eqs, ins = [], []
    for k, v in env.items():
        if k[0] != 'sgn': continue
        p = {m: Fraction(c) for m, c in dict(k[1]).items() if isinstance(c, (int, Fraction))}
        if len(p) != len(k[1]): continue
        if v == 0: eqs.append(p)
        else: ins.append(p if v > 0 else p_scale(p, -1))
    # an expression that is zero and holds some value alone and linearly replaces this value
    for q in [k for k, v in env.items() if k[0] == 'sgn' and v == 0]:
        q = {m: c for m, c in dict(q[1]).items()}
        for m, c in q.items():
            if len(m) == 1 and m[0][1] == 1 and isinstance(c, (int, Fraction)) and _atlist[m[0][0]].kind != 'sqrt' and not any(x[0] == m[0][0] for mm in q if mm != m for x in mm):
                rest = p_scale({mm: cc for mm, cc in q.items() if mm != m}, Fraction(-1) / c)
                try: eqs = [p_subst(p, m[0][0], rest) for p in eqs]; ins = [p_subst(p, m[0][0], rest) for p in ins]
                except (TooBig, ZeroDivisionError): pass
                break
    while eqs:
        q = eqs.pop()
        q = {m: c for m, c in q.items() if c}
        ms = [m for m in q if m != ()]
        if not ms:
            if q: return True
            continue
        m = ms[0]
        def el(p): return p_add(p, p_scale(q, -p[m] / q[m])) if p.get(m) else p
        eqs = [el(p) for p in eqs]; ins = [el(p) for p in ins]
    def norm(p):
        _, c = max(p.items(), key=lambda x: x[0]); k = abs(c)
        return tuple(sorted((m, v / k) for m, v in p.items()))
    cur = set()
    for p in ins:
        if not any(m != () for m in p):
            if p.get((), 0) <= 0: return True
            continue
        cur.add(norm(p))
    while cur:
        occ = {}
        for p in cur:
            for m, c in p:
                if m != (): o = occ.setdefault(m, [0, 0]); o[c < 0] += 1
        m = min(occ, key=lambda x: (occ[x][0]*occ[x][1] - occ[x][0] - occ[x][1], x))
        up = [dict(p) for p in cur if dict(p).get(m, 0) > 0]; lo = [dict(p) for p in cur if dict(p).get(m, 0) < 0]
        cur = {p for p in cur if m not in dict(p)}
        for a in up:
            for b in lo:
                r = p_add(p_scale(a, 1 / a[m]), p_scale(b, -1 / b[m]))
                r.pop(m, None)
                if not any(x != () for x in r):
                    if r.get((), 0) <= 0: return True
                    continue
                cur.add(norm(r))
                if len(cur) > cap: return False
    return False

def cases(f, pos=(), env=None, prune=None, limit=4096, ctx=None):
    """evaluate f(ctx) for every combination of the conditions it meets.
    yields (env, value)"""
    todo = [dict(env or {})]
    n = 0
    while todo:
        e = todo.pop()
        if prune and prune(e): continue
        c = (ctx or Ctx)(e, pos)
        try:
            v = f(c)
        except NeedSplit as ns:
            n += 1
            if n > limit: raise TooBig()
            if ns.key[0] == 'sgn':
                ok = possible(e, ns.key[1])
                for s in (1, 0, -1):
                    if s not in ok or contradicts(e, ns.key[1], s, pos): continue
                    e2 = dict(e); e2[ns.key] = s; todo.append(e2)
            else:
                for s in (True, False):
                    e2 = dict(e); e2[ns.key] = s; todo.append(e2)
            continue
        yield c, v

def env_show(env):
    out = []
    for k, v in env.items():
        if k[0] == 'sgn': out.append('%s %s 0' % (p_show(dict(k[1]), 4), {1: '>', 0: '==', -1: '<'}[v]))
        else: out.append('%s=%s' % (k[1], v))
    return ', '.join(out) or 'always'

def on_zero_set(p, env):
    """restrict p to the sub-variety of a case in which some q == 0 (linear elimination)"""
    for k, v in env.items():
        if k[0] == 'sgn' and v == 0:
            q = dict(k[1])
            # find an atom that occurs linearly, alone, with constant coefficient
            for m, c in q.items():
                if len(m) == 1 and m[0][1] == 1 and _atlist[m[0][0]].kind != 'sqrt':
                    a = m[0][0]
                    if sum(1 for mm in q if any(x[0] == a for x in mm)) == 1:
                        rest = p_scale({mm: cc for mm, cc in q.items() if mm != m}, Fraction(-1) / c)
                        p = p_subst(p, a, rest)
                        break
    # multiples of the expressions that are zero here
    for k, v in env.items():
        if k[0] != 'sgn' or v != 0 or len(k[1]) < 2 or len(p) > 400: continue
        q = dict(k[1]); m0, c0 = lead(q)
        again = True
        while p and again:
            again = False
            for m, c in list(p.items()):
                try: r = reduce_(p_add(p, p_scale(p_mul({m_mul(m, m_inv(m0)): 1}, q, True), -Fraction(c) / Fraction(c0))))
                except (TypeError, TooBig): continue
                if len(r) < len(p): p = r; again = True; break
    return p
def p_subst(p, a, val):
    if not any(x[0] == a for m in p for x in m): return p
    r = {}
    pw = {0: {(): 1}}
    for m, c in p.items():
        e = 0; rest = []
        for x in m:
            if x[0] == a: e = x[1]
            else: rest.append(x)
        if e < 0:
            return p  # give up
        while e not in pw:
            k = max(pw); pw[k+1] = p_mul(pw[k], val)
        r = p_add(r, p_mul({tuple(rest): c}, pw[e]))
    return r

# congruence: conditionals, conditions and roots are opaque, keyed by the normal form of their parts (no case split)
_cq = {}
def canon(t):
    r = _cq.get(t)
    if r is not None: return r
    op = t.op
    if op == 'c': r = p_const(t.a[0])
    elif op == 'v': r = p_atom(atom('v', t.a[0], t, str(t.a[0])))
    elif op == '+': r = p_add(canon(t.a[0]), canon(t.a[1]))
    elif op == '*':
        if t.a[0].op == 'c': r = p_scale(canon(t.a[1]), t.a[0].a[0])
        else: r = p_mul(canon(t.a[0]), canon(t.a[1]))
    elif op == 'inv':
        p = canon(t.a[0])
        r = p_inv(p) if p else p_atom(atom('v', 'DIV0', t, 'DIV0'))
    elif op == 'sqrt': r = p_atom(atom('opq', ('sqrt', p_key(canon(t.a[0]))), t, 'sqrt'))
    elif op == 'ite': 
        x, y = canon(t.a[1]), canon(t.a[2])
        r = x if x == y else p_atom(atom('opq', ('ite', ccanon(t.a[0]), p_key(x), p_key(y)), t, 'ite'))
    elif op == 'fn': r = p_atom(atom('opq', ('fn', t.a[0]) + tuple(p_key(canon(x)) if isinstance(x, T) else x for x in t.a[1:]), t, 'fn'))
    else: r = p_atom(atom('opq', ('b', ccanon(t)), t, 'b'))
    _cq[t] = r
    return r
def ccanon(c):
    if c.op in ('gt0', 'ge0', 'eq0'):
        p = canon(c.a[0])
        if p:
            _, lc = lead(p)
            k = abs(lc) if c.op != 'eq0' else lc
            if k != 1: p = p_scale(p, Fraction(1)/k)
        return (c.op, p_key({m: (int(v) if isinstance(v, Fraction) and v.denominator == 1 else v) for m, v in p.items()}))
    return (c.op,) + tuple((ccanon(x) if isbool(x) else ('t', p_key(canon(x)))) if isinstance(x, T) else x for x in c.a)

class Light(Ctx):
    """cases over conditions taken as they are: nothing is cleared or factored"""
    def cond_key(self, kind, x):
        p = self.nf(x)
        if not p: return kind in ('ge0', 'eq0')
        if len(p) == 1 and () in p:
            v = p[()]
            return v > 0 if kind == 'gt0' else v >= 0 if kind == 'ge0' else v == 0
        s = self.sign(p)
        if s == '+': return kind != 'eq0'
        if s == '-': return False
        lm, lc = lead(p)
        if lc != 1:
            p = p_scale(p, Fraction(1) / lc)
            p = {m: (int(c) if isinstance(c, Fraction) and c.denominator == 1 else c) for m, c in p.items()}
        return (kind, p_key(p), lc < 0, p)
    def nf_sqrt(self, t):
        p = self.nf(t.a[0])
        if not p: return {}
        a = atom('sqrt', p_key(p), p, 'sqrt(' + p_show(p, 4) + ')')
        return {((a.id, 1),): 1}

def equal(a, b, pos=(), env=None, prune=None, tol=None):
    """None when the two terms are the same value in every case, else (ctx, residual)"""
    global LIMIT
    a = lift(a); b = lift(b)
    if a is b: return None
    lim = LIMIT
    try:
        LIMIT = 4000
        if p_iszero(p_add(canon(a), p_scale(canon(b), -1)), tol): return None
    except (TooBig, TypeError, ZeroDivisionError, RecursionError): pass
    finally: LIMIT = lim
    try:
        LIMIT = 4000
        d = sub(a, b)
        if all(p_iszero(p, tol) for c, p in cases(lambda c: c.nf(d), pos, env, prune, 64, Light)): return None
    except (TooBig, ZeroDivisionError, RecursionError): pass
    finally: LIMIT = lim
    d = sub(a, b)
    for c, p in cases(lambda c: c.nf(d), pos, env, prune):
        if p_iszero(p, tol): continue
        q = p_numer(p)
        q = on_zero_set(q, c.env)
        if p_iszero(q, tol): continue
        if empty_case(c.env): continue
        return c, q
    return None
