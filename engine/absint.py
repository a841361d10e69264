"""Abstract interpreter over LLVM IR with an algebraic value domain.

Flow functions compute, for every SSA value and memory cell, a term over the (unknown) inputs.
A branch on an unknown condition is analysed on both sides and the two states are JOINED at the
immediate post-dominator (gated 'ite' values); a loop with an unknown trip count is analysed once
for a generic iteration after havocking what the loop may write.  A loop whose trip count is a
compile-time constant is unrolled.  No path is enumerated and no input value is ever chosen."""
import math
import time
import struct
from fractions import Fraction
from . import algebra as A
from . import llvm as L

class Unsupported(Exception): pass
class Bottom(Exception): pass       # state is unreachable

class Ptr:
    __slots__=('o','off')
    def __init__(s,o,off): s.o=o; s.off=off       # off: int or term
    def __repr__(s): return f'&{s.o.name}+{s.off}'
    def key(s): return (s.o.id, s.off if isinstance(s.off,int) else ('t',s.off.id))
class FPtr:
    __slots__=('f',)
    def __init__(s,f): s.f=f
    def __repr__(s): return f'&{s.f.name}'
class Null:
    def __repr__(s): return 'null'
NULL=Null()
class Undef:
    def __repr__(s): return 'undef'
UNDEF=Undef()
class PIte:
    __slots__=('c','a','b')
    def __init__(s,c,a,b): s.c=c; s.a=a; s.b=b
    def __repr__(s): return f'({s.c}?{s.a}:{s.b})'
class Agg:
    __slots__=('els',)
    def __init__(s,els): s.els=els
    def __repr__(s): return 'agg%r'%(s.els,)

_oid=[0]
class Obj:
    """an abstract memory object. kind: 'input' (unknown contents), 'local' (undefined), 'const'"""
    __slots__=('id','name','kind','size','elt','init','meta')
    def __init__(s,name,kind,size=None,elt=None):
        _oid[0]+=1
        s.id=_oid[0]; s.name=name; s.kind=kind; s.size=size; s.elt=elt; s.init=None; s.meta={}
    def __repr__(s): return f'<{s.name}>'

class Mem:
    """contents of one object: concrete-offset cells, plus an ordered log once a write had a
    symbolic offset"""
    __slots__=('cells','log','own','zero')
    def __init__(s): s.cells={}; s.log=None; s.own=True; s.zero=None
    def copy(s):
        m=Mem(); m.cells=dict(s.cells); m.log=list(s.log) if s.log is not None else None; m.zero=s.zero
        return m

class State:
    __slots__=('mem','guard','frames')
    def __init__(s): s.mem={}; s.guard=A.TRUE
    def fork(s):
        n=State(); n.mem=dict(s.mem); n.guard=s.guard
        for m in s.mem.values(): m.own=False
        return n
    def get(s,o):
        return s.mem.get(o)
    def wr(s,o):
        m=s.mem.get(o)
        if m is None: m=Mem(); s.mem[o]=m
        elif not m.own: m=m.copy(); s.mem[o]=m
        return m

def is_int(v): return isinstance(v,int)
def sgn(v,w):
    v&=(1<<w)-1
    return v-(1<<w) if v>>(w-1) else v
def uns(v,w): return v&((1<<w)-1)
def term(v):
    if isinstance(v,A.T): return v
    if isinstance(v,bool): return A.TRUE if v else A.FALSE
    if isinstance(v,int): return A.const(v)
    if isinstance(v,Fraction): return A.const(v)
    if isinstance(v,Undef): return fresh('undef')
    if isinstance(v,(Ptr,FPtr,Null,PIte)):
        return A.fn('ptr', repr_ptr(v))
    raise Unsupported('term of %r'%(v,))
def repr_ptr(v):
    if isinstance(v,Ptr): return '%s#%d+%s'%(v.o.name,v.o.id,v.off if isinstance(v.off,int) else A.show(v.off,12))
    return repr(v)
_fr=[0]
def fresh(n):
    _fr[0]+=1
    return A.var(f'{n}!{_fr[0]}')

class Event:
    __slots__=('kind','guard','loc','data','stack','loops')
    def __repr__(s): return f'{s.kind}{s.data} @{s.loc} if {A.show(s.guard,4)}'

class Loop:
    __slots__=('header','iter','phis','parent','exits','cond')

def addzero(z,a,b):
    r=[]
    for x,y in z or ():
        if y<a or x>b: r.append((x,y))
        else: a,b=min(a,x),max(b,y)
    return r+[(a,b)]
def hasaddr(t):
    if t.op=='v': return isinstance(t.a[0],str) and t.a[0].startswith('addr:')
    return t.op=='+' and (hasaddr(t.a[0]) or hasaddr(t.a[1]))
class Interp:
    def __init__(self, mod, models=None, max_steps=3_000_000, unroll=100000, opaque=None, on_store=None, follow=None):
        self.mods = mod if isinstance(mod,(list,tuple)) else [mod]
        self.models = dict(DEFAULT_MODELS)
        if models: self.models.update(models)
        self.events=[]
        self.steps=0; self.max_steps=max_steps
        self.unroll=unroll
        self.globs={}; self.packs={}
        self.stack=[]
        self.loopstack=[]
        self.opaque = opaque or (lambda name: False)
        self.functions=set()
        self.record_stores=False
        self.checks=[]
        self.inputs={}
        self.unknown=set()
        self.havoc_loops=[]
        self.guardstack=[]
        self.loop_records=[]
        self._sc={}
        self.bottoms=[]

    # ----------------------------------------------------------------- objects
    def input_obj(self, name, elt=None, size=None):
        o=Obj(name,'input',size,elt); self.inputs[name]=o
        return o
    def find_fn(self,name):
        for m in self.mods:
            f=m.fns.get(name)
            if f is not None and not f.decl: return m.parse(f)
        return None
    def glob_obj(self,g):
        o=self.globs.get(g.name)
        if o is None:
            src=g
            if g.init is None:
                for m in self.mods:
                    g2=m.globs.get(g.name)
                    if g2 is not None and g2.init is not None: src=g2; break
            init=src.mod.ginit(src)
            o=Obj('@'+g.name,'glob',g.ty.size)
            o.meta['const']=src.const
            if init is not None: o.init=(src.mod,init)
            else: o.kind='input'
            self.globs[g.name]=o
        return o
    def const_at(self, init, off, size):
        """value of a constant initialiser at byte offset"""
        if isinstance(init,L.Fn): return FPtr(init)
        if isinstance(init,L.Glob): return init if off==0 else ('part',init,off)
        t=init.ty
        if isinstance(init,(L.CZero,L.CNull)):
            return ('zero',t,off)
        if isinstance(init,L.CUndef): return UNDEF
        if t.k in('arr','vec'):
            es=t.el.size if t.k=='arr' else t.el.store
            i=off//es
            if i>=t.n: return None
            if es<size: return None
            return self.const_at(init.els[i], off-i*es, size)
        if t.k=='st':
            for i in reversed(range(len(t.els))):
                if t.offs[i]<=off: return self.const_at(init.els[i], off-t.offs[i], size)
            return None
        if off!=0: 
            return ('part',init,off)
        return init

    # ----------------------------------------------------------------- operand evaluation
    def ev(self, v, env):
        if isinstance(v,(L.Inst,L.Arg)): 
            try: return env[v]
            except KeyError: raise Unsupported('use before def %r'%(v,))
        if isinstance(v,L.CI): return v.v if v.ty.w!=1 else (A.TRUE if v.v else A.FALSE)
        if isinstance(v,L.CF): return A.const(v.v)
        if isinstance(v,L.CNull): return NULL
        if isinstance(v,L.CUndef): 
            if v.ty.k in('st','arr','vec'): return Agg([self.ev(L.CUndef(t),env) for t in (v.ty.els if v.ty.k=='st' else [v.ty.el]*v.ty.n)])
            return UNDEF
        if isinstance(v,L.CZero):
            return self.zero(v.ty)
        if isinstance(v,L.CAgg): return Agg([self.ev(e,env) for e in v.els])
        if isinstance(v,L.Glob): return Ptr(self.glob_obj(v),0)
        if isinstance(v,L.Fn): return FPtr(v)
        if isinstance(v,L.CExpr):
            ops=[self.ev(o,env) for o in v.ops]
            if v.op=='gep': return self.gep(v.x,ops)
            if v.op in('bitcast','inttoptr','addrspacecast'): return ops[0]
            if v.op=='ptrtoint': return self.p2i(ops[0])
            if v.op in('add','sub','mul'): return self.binop(v.op,ops[0],ops[1],v.ty)
            if v.op=='trunc': return ops[0]
            raise Unsupported('cexpr '+v.op)
        raise Unsupported('operand %r'%(v,))
    def zero(self,t):
        if t.k=='i': return 0 if t.w!=1 else A.FALSE
        if t.k=='f': return A.ZERO
        if t.k=='ptr': return NULL
        if t.k=='st': return Agg([self.zero(e) for e in t.els])
        if t.k in('arr','vec'): return Agg([self.zero(t.el) for _ in range(t.n)])
        raise Unsupported('zero '+t.k)
    def p2i(self,p):
        if isinstance(p,Null): return 0
        if isinstance(p,Ptr): 
            t=A.mk('v','addr:%s#%d'%(p.o.name,p.o.id))
            self.addrs=getattr(self,'addrs',{}); self.addrs[t]=p.o
            return A.add(t,term(p.off))
        return term(p)
    def i2p(self,t):
        if is_int(t):
            return NULL if t==0 else Ptr(self.extobj(('int',t)),0)
        addrs=getattr(self,'addrs',{})
        # addr + offset
        c=A.Ctx()
        try: p=c.nf(t)
        except A.NeedSplit: raise Unsupported('i2p')
        for m,k in p.items():
            if len(m)==1 and m[0][1]==1 and k==1:
                v=A._atlist[m[0][0]].x
                if v in addrs:
                    off=A.sub(t,v)
                    return Ptr(addrs[v], self.simp(off))
        raise Unsupported('i2p %s'%A.show(t))
    def extobj(self,key):
        d=getattr(self,'_ext',None)
        if d is None: d=self._ext={}
        if key not in d: d[key]=Obj('ext:%s'%(key,),'input')
        return d[key]
    def gep(self, t, ops):
        base=ops[0]
        if isinstance(base,PIte): return PIte(base.c,self.gep(t,[base.a]+ops[1:]),self.gep(t,[base.b]+ops[1:]))
        if isinstance(base,A.T): base=self.ptr_of_term(base)
        off=0; ty=t
        for i,ix in enumerate(ops[1:]):
            if i==0: st=ty.size
            elif ty.k=='st':
                off=self.oadd(off,ty.offs[ix]); ty=ty.els[ix]; continue
            else: ty=ty.el; st=ty.size
            if is_int(ix): off=self.oadd(off,ix*st)
            else: off=self.oadd(off,A.mul(A.const(st),term(ix)))
        if isinstance(base,Null):
            if off==0: return NULL
            return Ptr(self.extobj('null'),off)
        if isinstance(base,FPtr): return base
        if isinstance(base,Undef): return UNDEF
        return Ptr(base.o,self.oadd(base.off,off))
    def oadd(self,a,b):
        if is_int(a) and is_int(b): return a+b
        return self.simp(A.add(term(a),term(b)))
    def simp(self,t):
        if is_int(t): return t
        if A.isc(t): return t.a[0]
        # normalise linear combinations cheaply
        try:
            p=A.Ctx().nf(t)
        except A.NeedSplit:
            return t
        if not p: return 0
        if len(p)==1 and () in p and isinstance(p[()],int): return p[()]
        return self.from_poly(p)
    def from_poly(self,p):
        r=A.ZERO
        for m,c in sorted(p.items()):
            x=A.const(c)
            for a,e in m:
                at=A._atlist[a]
                if at.x is None or not isinstance(at.x,A.T) or e<0: raise Unsupported('from_poly')
                x=A.mul(x,at.x if e==1 else at.x**e)
            r=A.add(r,x)
        return r
    def ptr_of_term(self,t):
        """a pointer read out of an input object"""
        d=getattr(self,'_pobj',None)
        if d is None: d=self._pobj={}
        if t not in d:
            o=Obj(A.show(t,8),'input'); o.meta['via']=t
            d[t]=Ptr(o,0)
        return d[t]

    # ----------------------------------------------------------------- memory
    def spread(self, p):
        """a pointer whose offset is one of a few constants, depending on conditions"""
        if isinstance(p,Ptr) and isinstance(p.off,A.T) and A.kite(p.off):
            def go(t):
                if A.isc(t): return Ptr(p.o,int(t.a[0]))
                return PIte(t.a[0],go(t.a[1]),go(t.a[2]))
            return go(p.off)
        return p
    def load(self, st, p, ty, inst=None):
        p=self.spread(p)
        if isinstance(p,PIte):
            return self.sel(p.c,self.load(st,p.a,ty,inst),self.load(st,p.b,ty,inst))
        if isinstance(p,A.T): p=self.ptr_of_term(p)
        if isinstance(p,(Null,Undef,FPtr)):
            raise Bottom('load through %r'%p)
        if ty.k in('st','arr','vec'):
            els=[]
            n=len(ty.els) if ty.k=='st' else ty.n
            for i in range(n):
                e=ty.els[i] if ty.k=='st' else ty.el
                o=ty.offs[i] if ty.k=='st' else i*e.size
                els.append(self.load(st,Ptr(p.o,self.oadd(p.off,o)),e,inst))
            return Agg(els)
        return self.load1(st,p.o,p.off,ty)
    def load1(self, st, o, off, ty):
        m=st.get(o)
        size=ty.store
        if m is None: return self.initial(o,off,ty)
        if m.log is not None:
            return self.load_log(st,m,o,off,ty)
        if not is_int(off):
            if not m.cells and m.zero is None: return self.initial(o,off,ty)
            # symbolic read over concrete cells
            return self.load_sym(m,o,off,ty)
        c=m.cells.get(off)
        if c is not None and c[0]==size: return self.conv(c[1],ty)
        if c is None:
            # overlapping?
            for k in range(max(0,off-31),off+size):
                cc=m.cells.get(k)
                if cc is not None and k+cc[0]>off and k<off+size:
                    return self.piece(m,o,off,ty,k)
            if m.zero is not None and any(a<=off and off+size<=b for a,b in m.zero): return self.zero(ty)
            return self.initial(o,off,ty)
        return self.piece(m,o,off,ty,off)
    def piece(self,m,o,off,ty,k):
        # constant bytes assembling
        size=ty.store
        bs=[]
        for i in range(off,off+size):
            b=None
            for s in range(i,max(-1,i-32),-1):
                cc=m.cells.get(s)
                if cc is not None:
                    if s+cc[0]>i:
                        v=cc[1]
                        if is_int(v): b=(v>>(8*(i-s)))&255
                        elif isinstance(v,Null): b=0
                        elif isinstance(v,A.T) and v.op=='c' and v.a[0]==0: b=0
                        elif isinstance(v,A.T) and v.op in('true','false'): b=1 if v is A.TRUE else 0
                        elif isinstance(v,A.T) and v.op=='c' and cc[0] in(4,8) and len(cc)>2 and cc[2]=='f':
                            b=struct.pack('<d' if cc[0]==8 else '<f',float(v.a[0]))[i-s]
                    break
            if b is None and m.zero is not None and any(a<=i<z for a,z in m.zero): b=0
            bs.append(b)
        if all(b is not None for b in bs):
            v=int.from_bytes(bytes(bs),'little')
            return self.frombits(v,ty)
        if ty.k=='i' and size in(8,16):
            # several cells moved at once: kept apart and put back by a store of the value
            parts=[(j-off,)+tuple(m.cells[j]) for j in range(off,off+size) if j in m.cells]
            if len(parts)>1 and sum(x[1] for x in parts)==size and not any(isinstance(x[2],Undef) for x in parts):
                v=self.opaque_val(ty,'pack(%s+%s)'%(o.name,off)); self.packs[v]=(size,parts); return v
        # wide integer load of narrower cells or vice versa: opaque
        return self.opaque_val(ty,'mix(%s+%s)'%(o.name,off))
    def frombits(self,v,ty):
        if ty.k=='i': return sgn(v,ty.w) if ty.w!=1 else (A.TRUE if v&1 else A.FALSE)
        if ty.k=='ptr': return NULL if v==0 else Ptr(self.extobj(('int',v)),0)
        if ty.k=='f':
            if ty.w==64: return A.const(struct.unpack('<d',v.to_bytes(8,'little'))[0])
            if ty.w==32: return A.const(struct.unpack('<f',v.to_bytes(4,'little'))[0])
        raise Unsupported('frombits')
    def opaque_val(self,ty,name):
        if ty.k=='ptr': return A.mk('fn','p:'+name)
        return fresh(name)
    def conv(self,v,ty):
        if ty.k=='f':
            if isinstance(v,int): return self.frombits(uns(v,ty.w),ty)
            return v
        if ty.k=='i':
            if isinstance(v,A.T) and v.op=='c' and not isinstance(v.a[0],bool):
                if isinstance(v.a[0],int) and v.a[0]==0: return 0 if ty.w!=1 else A.FALSE
            if isinstance(v,Null): return 0
            if isinstance(v,Ptr) or isinstance(v,FPtr) or isinstance(v,PIte): return v if ty.w==64 else term(v)
            if ty.w==1 and is_int(v): return A.TRUE if v&1 else A.FALSE
            return v
        if ty.k=='ptr':
            if is_int(v): return NULL if v==0 else Ptr(self.extobj(('int',v)),0)
            if isinstance(v,A.T) and not A.isbool(v) and v.op in('v','+','*'):
                try: return self.i2p(v)
                except Unsupported: return v
            return v
        return v
    def tyname(self,ty):
        return ty.k+str(ty.w) if ty.k in 'if' else ty.k
    def initial(self,o,off,ty):
        """contents of an object nobody wrote"""
        if o.init is not None:
            mod,init=o.init
            if is_int(off):
                v=self.const_at(init,off,ty.store)
                if v is None: return self.opaque_val(ty,'oob(%s+%s)'%(o.name,off))
                if isinstance(v,Undef): return UNDEF
                if isinstance(v,tuple):
                    if v[0]=='zero': return self.zero(ty)
                    _,ini,bo=v
                    if isinstance(ini,L.CI): return self.frombits((uns(ini.v,ini.ty.w)>>(8*bo))&((1<<(8*ty.store))-1),ty)
                    return self.opaque_val(ty,'part')
                r=v if isinstance(v,FPtr) else self.ev(v,{})
                return self.conv(r,ty)
            return A.fn('tab:'+o.name,self.tyname(ty),off)
        if o.kind=='local': return UNDEF
        # input
        nm=o.name
        es=ty.store
        if o.meta.get('get'):
            return o.meta['get'](o,off,ty)
        if is_int(off):
            if ty.k=='ptr':
                t=A.var(f'{nm}[{off//es}]' if off%es==0 and not o.meta.get('st') else f'{nm}.{off}')
                return t if not o.meta.get('null') else NULL
            ix = off//es if off%es==0 and not o.meta.get('st') else '.%d'%off
            if ty.k=='i' and ty.w==1: return A.bvar(f'{nm}[{ix}]')
            return A.var(f'{nm}[{ix}]' if not isinstance(ix,str) else f'{nm}{ix}')
        return A.fn('in:'+nm, off) if ty.k!='i' or ty.w!=1 else A.mk('bfn','in:%s'%nm,off)
    def load_sym(self,m,o,off,ty):
        r=None
        cells=sorted(m.cells.items())
        base=self.initial(o,off,ty) if o.kind!='local' else None
        if len(cells)>512: raise Unsupported('symbolic read over large object %s'%o.name)
        for k,c in cells:
            if c[0]!=ty.store: continue
            v=self.conv(c[1],ty)
            if r is None: r=base if base is not None and not isinstance(base,Undef) else v
            if r is v and base is None: continue
            r=self.sel(A.eq(off,A.const(k)),v,r)
        return r if r is not None else self.initial(o,off,ty)
    def distinct(self,d): return False
    def store(self, st, p, val, ty, inst=None):
        p=self.spread(p)
        if isinstance(p,PIte):
            for c,q in ((p.c,p.a),(A.not_(p.c),p.b)):
                old=self.load(st,q,ty,inst)
                self.store(st,q,self.sel(c,val,old),ty,inst)
            return
        if isinstance(p,A.T): p=self.ptr_of_term(p)
        if isinstance(p,(Null,Undef,FPtr)): raise Bottom('store through %r'%p)
        if ty.k in('st','arr','vec'):
            n=len(ty.els) if ty.k=='st' else ty.n
            if isinstance(val,Undef): return
            for i in range(n):
                e=ty.els[i] if ty.k=='st' else ty.el
                o=ty.offs[i] if ty.k=='st' else i*e.size
                self.store(st,Ptr(p.o,self.oadd(p.off,o)),val.els[i],e,inst)
            return
        if self.record_stores:
            self.event('store',(p,val,ty),inst)
        m=st.wr(p.o)
        size=ty.store
        if is_int(p.off) and m.log is None:
            off=p.off
            if off not in m.cells or m.cells[off][0]!=size:
                for k in range(max(0,off-31),off+size):
                    cc=m.cells.get(k)
                    if cc is not None and k+cc[0]>off:
                        del m.cells[k]
                        # keep constant remainder bytes
                        v=cc[1]
                        if isinstance(v,A.T) and v.op=='c' and cc[0] in(4,8) and len(cc)>2 and cc[2]=='f':
                            v=struct.unpack('<i' if cc[0]==4 else '<q',struct.pack('<f' if cc[0]==4 else '<d',float(v.a[0])))[0]
                        if is_int(v) and cc[0]>1:
                            for j in range(cc[0]):
                                if not(off<=k+j<off+size): m.cells[k+j]=(1,(v>>(8*j))&255)
            pk=self.packs.get(val) if isinstance(val,A.T) else None
            if pk is not None and pk[0]==size:
                for x in pk[1]: m.cells[off+x[0]]=tuple(x[1:])
            else: m.cells[off]=(size,val,ty.k)
        else:
            if m.log is None: m.log=[]
            m.log.append((p.off,size,val))
    def sel(self,c,a,b):
        if c is A.TRUE: return a
        if c is A.FALSE: return b
        if a is b: return a
        if is_int(a) and is_int(b) and a==b: return a
        if isinstance(a,Undef): return b
        if isinstance(b,Undef): return a
        if isinstance(a,Agg):
            return Agg([self.sel(c,x,y) for x,y in zip(a.els,b.els)])
        pk=(Ptr,Null,FPtr,PIte)
        if isinstance(a,pk) or isinstance(b,pk):
            if isinstance(a,Ptr) and isinstance(b,Ptr) and a.o is b.o:
                if is_int(a.off) and is_int(b.off) and a.off==b.off: return a
                return Ptr(a.o,A.ite(c,term(a.off),term(b.off)))
            if isinstance(a,Null) and isinstance(b,Null): return a
            if isinstance(a,FPtr) and isinstance(b,FPtr) and a.f is b.f: return a
            return PIte(c,a,b)
        return A.ite(c,term(a),term(b))

    # ----------------------------------------------------------------- state join
    def join(self,c,s1,s2):
        """state that is s1 where c holds and s2 elsewhere"""
        if s1 is None: return s2
        if s2 is None: return s1
        r=State()
        r.guard=s1.guard if s1.guard is s2.guard else A.ite(c,s1.guard,s2.guard)
        for o in s1.mem.keys()|s2.mem.keys():
            m1=s1.mem.get(o); m2=s2.mem.get(o)
            if m1 is m2: r.mem[o]=m1; m1.own=False; continue
            r.mem[o]=self.join_mem(c,o,m1,m2,s1,s2)
        return r
    def join_mem(self,c,o,m1,m2,s1,s2):
        if m1 is None: m1=Mem()
        if m2 is None: m2=Mem()
        r=Mem()
        z=[x for x in (m1.zero or []) if x in (m2.zero or [])]
        r.zero=z or None
        zd=(m1.zero or [])!=(m2.zero or [])
        if m1.log is not None or m2.log is not None:
            return self.join_log(c,o,m1,m2,s1,s2)
        ks=m1.cells.keys()|m2.cells.keys()
        if zd:
            r.zero=None
            ks=set(ks)
            # turn zero ranges into the union of touched cells only: conservative for small ones
            for mm in (m1,m2):
                for a,b in mm.zero or []:
                    if b-a>65536: raise Unsupported('join of differently cleared memory')
        for k in ks:
            c1=m1.cells.get(k); c2=m2.cells.get(k)
            if c1 is not None and c2 is not None and c1[0]==c2[0]:
                v=c1[1] if c1[1] is c2[1] else self.sel(c,c1[1],c2[1])
                r.cells[k]=(c1[0],v,c1[2] if len(c1)>2 else None); continue
            cc=c1 or c2
            ty=self.mkty(cc)
            a=self.load1(self.one(o,m1),o,k,ty) if c1 is None or c1[0]!=cc[0] else c1[1]
            b=self.load1(self.one(o,m2),o,k,ty) if c2 is None or c2[0]!=cc[0] else c2[1]
            r.cells[k]=(cc[0],self.sel(c,a,b),cc[2] if len(cc)>2 else None)
        if zd:
            for mm,oth,pos in ((m1,m2,True),(m2,m1,False)):
                for a,b in mm.zero or []:
                    if (oth.zero or []) and (a,b) in oth.zero:
                        continue
                    # memory cleared only on one side: cells not explicitly written stay side-dependent
                    for k in range(a,b,8):
                        if k not in r.cells:
                            r.cells[k]=(8,UNDEF,None)
        return r
    def one(self,o,m):
        s=State(); s.mem={o:m}; return s
    def mkty(self,cell):
        t=L.Ty(); k=cell[2] if len(cell)>2 and cell[2] else 'i'
        t.k=k; t.w=cell[0]*8; t.n=0; t.el=None; t.els=None; t.offs=None; t.size=cell[0]; t.store=cell[0]
        return t
    def join_log(self,c,o,m1,m2,s1,s2):
        # common prefix of the logs stays; the rest is guarded
        r=Mem()
        l1=m1.log or []; l2=m2.log or []
        b1=m1.cells; b2=m2.cells
        if b1 is b2 or (b1==b2):
            r.cells=dict(b1)
        else:
            base=self.join_mem(c,o,self._nolog(m1),self._nolog(m2),s1,s2)
            r.cells=base.cells; r.zero=base.zero
        if r.zero is None: r.zero=m1.zero if m1.zero==m2.zero else None
        n=0
        while n<len(l1) and n<len(l2) and l1[n] is l2[n]: n+=1
        r.log=list(l1[:n])
        if any(not isinstance(x[0],(int,A.T)) for x in l1[n:]+l2[n:]):
            r.log=[(HAVOC,0,_next())]; return r
        # side 1 writes: value where c else what was there before
        def cur(off,size,val):
            ty=self.mkty((size,val,'ptr' if isinstance(val,(Ptr,Null,PIte,FPtr)) else 'f'))
            return self.load_log(None,r,o,off,ty)
        for (off,size,val) in l1[n:]:
            r.log.append((off,size,self.sel(c,val,cur(off,size,val))))
        for (off,size,val) in l2[n:]:
            r.log.append((off,size,self.sel(c,cur(off,size,val),val)))
        return r
    def _nolog(self,m):
        x=Mem(); x.cells=m.cells; x.zero=m.zero; return x

    # ----------------------------------------------------------------- events
    def event(self,kind,data,inst):
        e=Event(); e.kind=kind; e.data=data; e.loc=inst.loc if inst is not None else None
        g=A.TRUE
        for x in self.guardstack: g=A.and_(g,x)
        e.guard=g; e.stack=tuple(self.stack); e.loops=tuple(self.loopstack)
        self.events.append(e)
        return e

    # ----------------------------------------------------------------- execution
    def call(self, name, args, st=None):
        f=self.find_fn(name)
        if f is None: raise Unsupported('no definition of '+name)
        if st is None: st=State()
        return self.run_fn(f,args,st)
    def run_fn(self,f,args,st):
        if len(self.stack)>200: raise Unsupported('recursion too deep')
        self.functions.add(f.name)
        env={}
        for p,a in zip(f.params,args): env[p]=a
        self.stack.append(f.name)
        gs=self.guardstack; self.guardstack=list(gs)
        try:
            out=self.run(f,f.blocks[0],None,env,st,'EXIT',())
        finally:
            self.stack.pop(); self.guardstack=gs
        if out is None: raise Bottom('no return from '+f.name+' '+str(self.bottoms[-1:]))
        env,st=out
        return env.get('ret'),st

    def do_phis(self,b,prev,env):
        upd=[]
        for i in b.insts:
            if i.op!='phi': break
            j=i.x.index(prev)
            try: upd.append((i,self.ev(i.ops[j],env)))
            except Unsupported: upd.append((i,UNDEF))
        for i,v in upd: env[i]=v
        return len(upd)

    def run(self,f,b,prev,env,st,stop,act):
        """flow from the start of block b, entered from prev (None: phis already set), to the start
        of block stop, whose phis are then set.  act: tuple of active loop records (innermost last).
        Returns (env, state) or None when no flow reaches stop."""
        idom,live=L.ipdoms(f)
        lps=L.loops(f)
        while True:
            if b==stop:
                if b!='EXIT' and prev is not None: self.do_phis(b,prev,env)
                return env,st
            if b not in live:
                self.checks.append((self.stack[-1], b.insts[-1].loc or b.insts[0].loc, tuple(self.guardstack)))
                return None
            if b in lps:
                rec=None
                for a in act:
                    if a.header is b: rec=a
                if rec is not None and prev in lps[b]:
                    rec.count+=1
                    if rec.generic:
                        e2=dict(env); self.do_phis(b,prev,e2)
                        rec.backs.append((e2,st,tuple(self.guardstack)))
                        return None
                    if rec.count>self.unroll: raise Unsupported('unroll limit')
                elif rec is not None and rec.first: rec.first=False
                else:
                    if prev is not None: self.do_phis(b,prev,env)
                    r=self.loop(f,b,env,st,stop,act,lps,idom)
                    if r is None: return None
                    env,st,b=r
                    prev=None
                    continue
            n=self.do_phis(b,prev,env) if prev is not None else sum(1 for i in b.insts if i.op=='phi')
            t=None
            try:
                for i in b.insts[n:]:
                    self.steps+=1
                    if self.steps>self.max_steps: raise Unsupported('step limit')
                    if not self.steps&255 and self.deadline is not None and time.time()>self.deadline: raise Unsupported('step limit (time)')
                    op=i.op
                    if op in TERMS: t=i; break
                    r=self.inst(i,env,st)
                    if i.ty.k!='void': env[i]=r
                    if self._newst is not None: st=self._newst; self._newst=None
            except Bottom as e:
                self._newst=None
                self.bottoms.append((str(e),self.stack[-1],i.loc))
                return None
            op=t.op
            if op=='ret':
                env['ret']=self.ev(t.ops[0],env) if t.ops else None
                prev,b=b,'EXIT'; continue
            if op in('unreachable','resume'): return None
            if op=='invoke':
                try: r=self.do_call(t,t.x[0],t.ops,env,st)
                except Bottom as e:
                    self._newst=None; self.bottoms.append((str(e),self.stack[-1],t.loc)); return None
                if t.ty.k!='void': env[t]=r
                if self._newst is not None: st=self._newst; self._newst=None
                prev,b=b,t.x[1][0]; continue
            if op=='br':
                if not t.ops: prev,b=b,t.x[0]; continue
                c=self.boolify(self.ev(t.ops[0],env))
                if c is A.TRUE or c is A.FALSE:
                    nb=t.x[0] if c is A.TRUE else t.x[1]
                    if act: self.note_exit(act,b,lps,t.x,True)
                    prev,b=b,nb; continue
                succs=[(c,t.x[0]),(A.not_(c),t.x[1])]
            else:
                v=self.ev(t.ops[0],env)
                sc,vals=t.x
                if is_int(v):
                    nb=sc[0]
                    for s,x in zip(sc[1:],vals):
                        if x==v: nb=s
                    prev,b=b,nb; continue
                if isinstance(v,Undef): v=fresh('undef')
                succs=[]; rest=A.TRUE
                for s,x in zip(sc[1:],vals):
                    e=A.eq(term(v),A.const(x))
                    succs.append((A.and_(rest,e),s)); rest=A.and_(rest,A.not_(e))
                succs.append((rest,sc[0]))
                mm={}
                for c,s in succs: mm[s]=A.or_(mm[s],c) if s in mm else c
                succs=[(c,s) for s,c in mm.items()]
            lv=[(c,s) for c,s in succs if s in live and c is not A.FALSE]
            for c,s in succs:
                if s not in live: self.checks.append((self.stack[-1],s.insts[0].loc or t.loc,tuple(self.guardstack)+(c,)))
            if not lv: return None
            if len(lv)==1: prev,b=b,lv[0][1]; continue
            if len(lv)==2:
                g=self.implied(lv[0][0])
                if g is not None:
                    prev,b=b,(lv[0][1] if g else lv[1][1]); continue
            if act: self.note_exit(act,b,lps,[s for _,s in lv],False)
            j=idom[b]
            outs=[]
            # loop-continuing side last keeps recursion shallow in the common case
            for c,s in lv:
                e2=dict(env); s2=st.fork()
                self.guardstack.append(c)
                try: r=self.run(f,s,b,e2,s2,j,act)
                finally: self.guardstack.pop()
                if r is not None: outs.append((c,r))
            if not outs: return None
            env,st=outs[-1][1]
            for c,(e2,s2) in reversed(outs[:-1]):
                st=self.join(c,s2,st)
                e3={}
                for k,v in env.items():
                    w=e2.get(k,MISSING)
                    if w is v: e3[k]=v
                    elif w is MISSING: continue
                    else: e3[k]=self.sel(c,w,v)
                env=e3
            b=j; prev=None
            if b=='EXIT':
                if stop!='EXIT': raise Unsupported('irregular region')
                return env,st

    def note_exit(self,act,b,lps,succs,concrete):
        for rec in act:
            body=lps[rec.header]
            if b in body and any(s not in body for s in succs):
                if concrete: rec.sym=0; rec.everc=True
                elif not rec.generic:
                    rec.sym+=1
                    if rec.sym>(self.sym_unroll if not rec.everc else 64): raise SymLoop(rec)

    def loop(self,f,h,env,st,stop,act,lps,idom):
        """flow through the loop with header h (phis of h set in env).  Continues at the nearest
        block outside the loop that post-dominates the header."""
        body=lps[h]
        x=idom[h]
        while x!='EXIT' and x in body and x!=stop: x=idom[x]
        ev0=len(self.events); ck0=len(self.checks); gs=list(self.guardstack)
        rec=LoopRec(h)
        mode=self.loop_mode(f,h,body)
        if mode!='generic':
            try:
                r=self.run(f,h,None,dict(env),st.fork(),x,act+(rec,))
                if r is None: return None
                return r[0],r[1],x
            except SymLoop as e:
                if e.rec is not rec: raise
                self.guardstack=gs
                del self.events[ev0:]; del self.checks[ck0:]
        # ---- generic iteration
        self.havoc_loops.append((f.name,h.insts[-1].loc))
        phis=[i for i in h.insts if i.op=='phi']
        k=fresh('k')
        ind={}
        hav={}          # obj -> set of concrete offsets or 'all'
        init={p:env.get(p) for p in phis}
        syms={p:(fresh('phi') if p.ty.k!='ptr' else None) for p in phis}
        bound=None
        for it in range(8):
            del self.events[ev0:]; del self.checks[ck0:]
            rec=LoopRec(h); rec.generic=True; rec.k=k
            e2=dict(env); s2=st.fork()
            for p in phis:
                if p in ind:
                    v0=init[p]
                    if isinstance(v0,Ptr): e2[p]=Ptr(v0.o,self.oadd(v0.off,A.mul(A.const(ind[p]),k)))
                    else: e2[p]=self.simp(A.add(term(v0),A.mul(term(ind[p]),k)))
                elif syms[p] is None:
                    v0=init[p]
                    o=v0.o if isinstance(v0,Ptr) else None
                    e2[p]=Ptr(o,fresh('poff')) if o is not None else A.mk('fn','phiptr!%d'%id(p))
                else: e2[p]=A.bvar(str(syms[p])) if p.ty.k=='i' and p.ty.w==1 else syms[p]
            for o,w in hav.items(): self.havoc(s2,o,w)
            before={o:m for o,m in s2.mem.items()}
            for m in s2.mem.values(): m.own=False
            self.loopstack.append((f.name,h,k))
            try: r=self.run(f,h,None,e2,s2,x,act+(rec,))
            finally: self.loopstack.pop()
            # what was written?
            ch=False
            for (eb,sb,_) in rec.backs+([(None,r[1],None)] if r is not None else []):
                for o,m in sb.mem.items():
                    m0=before.get(o)
                    if m is m0 or o.meta.get('fresh_in')==(f.name,h): continue
                    if o not in before and o.kind=='local' and o not in st.mem and o.id>self.loop_oid: pass
                    w=self.diff(m0,m)
                    if not w: continue
                    cur=hav.get(o)
                    if cur=='all': continue
                    if w=='all' : hav[o]='all'; ch=True
                    else:
                        n=(cur or set())|w
                        if n!=cur: hav[o]=n; ch=True
            if it==0 or ch or True:
                for p in phis:
                    if p in ind: continue
                    steps=set()
                    for (eb,sb,_) in rec.backs:
                        v=eb.get(p); cur=e2.get(p)
                        try:
                            if isinstance(cur,Ptr) and isinstance(v,Ptr) and v.o is cur.o: d=self.simp(A.sub(term(v.off),term(cur.off)))
                            elif isinstance(cur,(int,A.T)) and isinstance(v,(int,A.T)) and p.ty.k=='i' and p.ty.w>1: d=self.simp(A.sub(term(v),term(cur)))
                            else: d=None
                        except Unsupported: d=None
                        steps.add(d if is_int(d) else None)
                    if len(steps)==1 and None not in steps: ind[p]=steps.pop(); ch=True
            if not ch: break
        else: raise Unsupported('loop summary does not stabilise')
        self.loop_records.append((f.name,h,k,dict(e2),rec,init))
        if r is None: return None
        return r[0],r[1],x
    _newst=None
    loop_oid=10**9
    sym_unroll=2
    deadline=None
    loop_records=()
    def loop_mode(self,f,h,body): return None
    def diff(self,m0,m):
        if m0 is None: m0=Mem()
        if m is m0: return None
        if m.log is not None and (m0.log is None or len(m.log)!=len(m0.log) or any(a is not b for a,b in zip(m.log,m0.log))): return 'all'
        w=set()
        for k,c in m.cells.items():
            c0=m0.cells.get(k)
            if c0 is None or c0[1] is not c[1] and not (is_int(c0[1]) and is_int(c[1]) and c0[1]==c[1]): w.add((k,c[0],c[2] if len(c)>2 else None))
        return w
    def havoc(self,st,o,w):
        m=st.wr(o)
        if w=='all':
            n=Mem(); n.log=[]
            st.mem[o]=n
            # contents unknown: an object that answers every read with an opaque value
            _fr[0]+=1
            n.log.append((HAVOC,0,_fr[0]))
        else:
            for k,size,kind in w:
                if kind=='ptr': v=A.mk('fn','hvp!%d'%(_fr[0]+1)); _fr[0]+=1
                else: v=fresh('hv:%s[%s]'%(o.name,k))
                if m.log is None: m.cells[k]=(size,v,kind)
                else: m.log.append((k,size,v))
    def boolify(self,c):
        if isinstance(c,Undef): return A.bvar(str(fresh('undef')))
        if is_int(c): return A.TRUE if c&1 else A.FALSE
        if A.isc(c): return A.TRUE if c.a[0] else A.FALSE
        if A.isbool(c): return self.simp_cond(c)
        return A.not_(A.eq0(c))
    def simp_cond(self,c):
        if c.op in('gt0','ge0','eq0'):
            r=self._sc.get(c)
            if r is None:
                r=c
                lim=A.LIMIT; A.LIMIT=min(lim,600)
                try:
                    p=A.Ctx(None,self.pos).nf(c.a[0])
                    if not p: r=A.TRUE if c.op!='gt0' else A.FALSE
                    elif len(p)==1 and () in p:
                        v=p[()]
                        r=A.TRUE if (v>0 if c.op=='gt0' else v>=0 if c.op=='ge0' else v==0) else A.FALSE
                    else:
                        s=A.Ctx(None,self.pos).sign(p)
                        if s=='+': r=A.TRUE if c.op!='eq0' else A.FALSE
                        elif s=='-': r=A.FALSE
                except (A.NeedSplit,A.TooBig,ZeroDivisionError): pass
                finally: A.LIMIT=lim
                self._sc[c]=r
            return r
        if c.op=='not': return A.not_(self.simp_cond(c.a[0]))
        if c.op=='and': return A.and_(self.simp_cond(c.a[0]),self.simp_cond(c.a[1]))
        return c
    pos=()
    def implied(self,c):
        c=self.simp_cond(c)
        if c is A.TRUE: return True
        if c is A.FALSE: return False
        for g in self.guardstack:
            if g is c: return True
            if g is A.not_(c): return False
            if g.op=='and' :
                st=[g]
                while st:
                    x=st.pop()
                    if x.op=='and': st.extend(x.a)
                    elif x is c: return True
                    elif x is A.not_(c): return False
        return None

    # ----------------------------------------------------------------- instructions
    def inst(self,i,env,st):
        op=i.op
        if op=='load':
            return self.load(st,self.ev(i.ops[0],env),i.ty,i)
        if op=='store':
            v=i.ops[0]
            self.store(st,self.ev(i.ops[1],env),self.ev(v,env),v.ty if not isinstance(v,(L.Fn,L.Glob)) else PTRTY,i)
            return None
        if op=='gep': return self.gep(i.x,[self.ev(o,env) for o in i.ops])
        if op in BIN:
            a=self.ev(i.ops[0],env); b=self.ev(i.ops[1],env)
            return self.binop(op,a,b,i.ty)
        if op=='fneg':
            a=self.ev(i.ops[0],env)
            if isinstance(a,Agg): return Agg([A.neg(term(x)) for x in a.els])
            return A.neg(term(a))
        if op=='icmp': return self.icmp(i.x,self.ev(i.ops[0],env),self.ev(i.ops[1],env),i.ops[0])
        if op=='fcmp':
            a=term(self.ev(i.ops[0],env)); b=term(self.ev(i.ops[1],env)); p=i.x
            if p in('oeq','ueq'): return A.eq(a,b)
            if p in('one','une'): return A.not_(A.eq(a,b))
            if p[1:]=='lt': return A.lt(a,b)
            if p[1:]=='le': return A.le(a,b)
            if p[1:]=='gt': return A.gt(a,b)
            if p[1:]=='ge': return A.ge(a,b)
            if p=='ord': return A.TRUE
            if p=='uno': return A.FALSE
            raise Unsupported('fcmp '+p)
        if op=='select':
            c=self.ev(i.ops[0],env)
            if isinstance(c,Agg):
                a=self.ev(i.ops[1],env); b=self.ev(i.ops[2],env)
                return Agg([self.sel(self.boolify(z),x,y) for z,x,y in zip(c.els,a.els,b.els)])
            c=self.boolify(c)
            if c is not A.TRUE and c is not A.FALSE:
                g=self.implied(c)
                if g is not None: c=A.TRUE if g else A.FALSE
            return self.sel(c,self.ev(i.ops[1],env),self.ev(i.ops[2],env))
        if op=='call': return self.do_call(i,i.x[0],i.ops,env,st)
        if op=='alloca':
            n=self.ev(i.ops[0],env) if i.ops else 1
            o=Obj('%s:%%%d'%(self.stack[-1],i.id),'local',i.x.size*n if is_int(n) else None)
            return Ptr(o,0)
        if op in('bitcast','addrspacecast','freeze'):
            v=self.ev(i.ops[0],env)
            if op=='bitcast':
                ft=i.ops[0].ty
                if ft.k=='f' and i.ty.k=='i' or ft.k=='i' and i.ty.k=='f':
                    if is_int(v): return self.frombits(uns(v,ft.w),i.ty)
                    if isinstance(v,A.T) and v.op=='c' and ft.k=='f':
                        return sgn(int.from_bytes(struct.pack('<d' if ft.w==64 else '<f',float(v.a[0])),'little'),ft.w)
                    return A.fn('bits',term(v)) if not(isinstance(v,A.T) and v.op=='fn' and v.a[0]=='bits') else v.a[1]
            return v
        if op in('zext','sext','trunc','fptrunc','fpext','fptosi','fptoui','sitofp','uitofp','ptrtoint','inttoptr'):
            v=self.ev(i.ops[0],env)
            if isinstance(v,Agg): 
                ft=i.ops[0].ty.el
                return Agg([self.cast(op,x,ft,i.ty.el) for x in v.els])
            return self.cast(op,v,i.ops[0].ty,i.ty)
        if op=='extractvalue':
            v=self.ev(i.ops[0],env)
            for k in i.x:
                if isinstance(v,Undef): return UNDEF
                if not isinstance(v,Agg): raise Unsupported('extractvalue of %r'%(v,))
                v=v.els[k]
            return v
        if op=='insertvalue':
            a=self.ev(i.ops[0],env); v=self.ev(i.ops[1],env)
            def ins(a,ix,t):
                if not ix: return v
                els=list(a.els) if isinstance(a,Agg) else [UNDEF]*(len(t.els) if t.k=='st' else t.n)
                els[ix[0]]=ins(els[ix[0]],ix[1:],(t.els[ix[0]] if t.k=='st' else t.el))
                return Agg(els)
            return ins(a,i.x,i.ty)
        if op=='extractelement':
            v=self.ev(i.ops[0],env); k=self.ev(i.ops[1],env)
            if is_int(k): return v.els[k]
            raise Unsupported('extractelement')
        if op=='insertelement':
            v=self.ev(i.ops[0],env); k=self.ev(i.ops[2],env)
            els=list(v.els) if isinstance(v,Agg) else [UNDEF]*i.ty.n
            els[k]=self.ev(i.ops[1],env); return Agg(els)
        if op=='shufflevector':
            a=self.ev(i.ops[0],env); b=self.ev(i.ops[1],env)
            n=i.ops[0].ty.n
            ae=a.els if isinstance(a,Agg) else [UNDEF]*n
            be=b.els if isinstance(b,Agg) else [UNDEF]*n
            al=list(ae)+list(be)
            return Agg([al[k] if k>=0 else UNDEF for k in i.x])
        if op=='fence': self.event('fence',(),i); return None
        if op=='atomicrmw':
            p=self.ev(i.ops[0],env); v=self.ev(i.ops[1],env)
            old=self.load(st,p,i.ty,i)
            if i.x in('add','sub','and','or','xor'): n=self.binop(i.x,old,v,i.ty)
            elif i.x=='fadd': n=A.add(term(old),term(v))
            elif i.x=='xchg': n=v
            elif i.x in('max','umax'): n=A.ite(A.gt(term(old),term(v)),term(old),term(v))
            elif i.x in('min','umin'): n=A.ite(A.lt(term(old),term(v)),term(old),term(v))
            else: raise Unsupported('rmw '+i.x)
            self.event('atomic',(i.x,p,v),i)
            self.store(st,p,n,i.ty,i)
            return old
        if op=='cmpxchg':
            p=self.ev(i.ops[0],env)
            old=self.load(st,p,i.ops[1].ty,i)
            c=A.eq(term(old),term(self.ev(i.ops[1],env)))
            self.event('atomic',('cmpxchg',p,self.ev(i.ops[2],env)),i)
            self.store(st,p,self.sel(c,self.ev(i.ops[2],env),old),i.ops[1].ty,i)
            return Agg([old,c])
        if op=='landingpad': raise Bottom('exception')
        if op=='vaarg': raise Unsupported('vaarg')
        raise Unsupported('inst '+op)
    _sc={}
    def cast(self,op,v,ft,tt):
        if isinstance(v,Undef): return UNDEF
        if op in('fptrunc','fpext'): return v
        if op in('sitofp','uitofp'):
            if is_int(v): return A.const(uns(v,ft.w) if op=='uitofp' else v)
            if isinstance(v,A.T) and A.isbool(v): return A.ite(v,A.ONE if op=='uitofp' else A.MONE,A.ZERO)
            return term(v)
        if op in('fptosi','fptoui'):
            v=term(v)
            if A.isc(v): return sgn(int(v.a[0]),tt.w) if abs(v.a[0])<2**63 else int(v.a[0])
            if self.integral(v): return v
            return A.fn('trunc',self.unround(op,v))
        if op=='ptrtoint':
            return self.p2i(v) if not isinstance(v,PIte) else A.ite(v.c,self.cast(op,v.a,ft,tt) if not is_int(self.cast(op,v.a,ft,tt)) else A.const(0),term(self.cast(op,v.b,ft,tt)))
        if op=='inttoptr':
            if isinstance(v,(Ptr,Null,PIte,FPtr)): return v
            return self.i2p(v)
        if is_int(v):
            if op=='zext': return uns(v,ft.w) if tt.w>ft.w else v
            if op=='sext': return sgn(v,ft.w)
            r=sgn(v,tt.w)
            if tt.w==1: return A.TRUE if r&1 else A.FALSE
            return r
        if isinstance(v,A.T):
            if A.isbool(v) and ft.w==1:
                return A.ite(v,A.ONE if op=='zext' else A.MONE,A.ZERO)
            if op=='trunc' and tt.w==1: return A.not_(A.eq0(A.fn('bitand',v,A.ONE)))
            if op=='trunc' and not self.trunc_id: return A.fn('trunc%d'%tt.w,v)
            return v
        if isinstance(v,(Ptr,Null,PIte,FPtr)): return v
        raise Unsupported('cast %s %r'%(op,v))
    trunc_id=True
    def unround(self,op,v):
        """rounding before the conversion changes nothing: the conversion to an unsigned type is only defined above -1"""
        return v.a[1] if v.op=='fn' and (v.a[0]=='trunc' or (v.a[0]=='floor' and op=='fptoui')) else v
    def integral(self,v):
        return v.op=='v' and v.a[0] in self.intvars
    intvars=()
    def icmp(self,p,a,b,opnd):
        w=opnd.ty.w if opnd.ty.k=='i' else 64
        if isinstance(a,Agg): raise Unsupported('vector icmp')
        pk=(Ptr,Null,FPtr,PIte)
        if isinstance(a,Undef) or isinstance(b,Undef): return A.bvar(str(fresh('undef')))
        if isinstance(a,pk) or isinstance(b,pk):
            return self.pcmp(p,a,b)
        if is_int(a) and is_int(b):
            if p[0]=='u': a,b=uns(a,w),uns(b,w)
            r={'eq':a==b,'ne':a!=b}.get(p)
            if r is None: r={'gt':a>b,'ge':a>=b,'lt':a<b,'le':a<=b}[p[1:]]
            return A.TRUE if r else A.FALSE
        if p[0]=='u':
            if is_int(a): a=uns(a,w)
            if is_int(b): b=uns(b,w)
        elif p in('eq','ne') and w>1:
            pass
        if isinstance(a,A.T) and A.isbool(a) and w==1 or isinstance(b,A.T) and A.isbool(b) and w==1:
            x=A.xor_(self.boolify(a),self.boolify(b))
            return x if p=='ne' else A.not_(x)
        # unsigned compare against zero
        if p=='ult' and b==0: return A.FALSE
        if p=='uge' and b==0: return A.TRUE
        if p=='ugt' and b==0: return A.not_(A.eq0(term(a)))
        if p=='ule' and b==0: return A.eq0(term(a))
        if p=='ult' and b==1: return A.eq0(term(a))
        ta,tb=term(a),term(b)
        # lifting of ite-valued integers keeps finite domains finite
        if p=='eq': return self.scond(A.eq(ta,tb))
        if p=='ne': return A.not_(self.scond(A.eq(ta,tb)))
        q=p[1:]
        return self.scond({'gt':A.gt,'ge':A.ge,'lt':A.lt,'le':A.le}[q](ta,tb))
    def scond(self,c):
        """push a comparison of an ite against a constant inwards"""
        if c.op in('gt0','ge0','eq0'):
            x=c.a[0]
            y=self.lift_ite(x)
            if y is not None:
                cc,u,v=y
                f={'gt0':A.gt0,'ge0':A.ge0,'eq0':A.eq0}[c.op]
                return A.ite(cc,self.scond(f(u)),self.scond(f(v)))
        return c
    def lift_ite(self,x):
        # (ite +/- const) only
        if x.op=='ite': return x.a
        if x.op=='+':
            for p,q in((x.a[0],x.a[1]),(x.a[1],x.a[0])):
                if q.op=='c':
                    if p.op=='ite': return p.a[0],A.add(p.a[1],q),A.add(p.a[2],q)
                    if p.op=='*' and p.a[0].op=='c' and p.a[1].op=='ite':
                        k=p.a[0]; i=p.a[1]
                        return i.a[0],A.add(A.mul(k,i.a[1]),q),A.add(A.mul(k,i.a[2]),q)
        if x.op=='*' and x.a[0].op=='c' and x.a[1].op=='ite':
            k=x.a[0]; i=x.a[1]
            return i.a[0],A.mul(k,i.a[1]),A.mul(k,i.a[2])
        return None
    def pcmp(self,p,a,b):
        if isinstance(a,PIte): return A.ite(a.c,self.pcmp(p,a.a,b),self.pcmp(p,a.b,b))
        if isinstance(b,PIte): return A.ite(b.c,self.pcmp(p,a,b.a),self.pcmp(p,a,b.b))
        if is_int(a) and a==0: a=NULL
        if is_int(b) and b==0: b=NULL
        if isinstance(a,Null) and isinstance(b,Null): r=True
        elif isinstance(a,Null) or isinstance(b,Null):
            o=b if isinstance(a,Null) else a
            if isinstance(o,A.T): 
                r=A.eq0(o); return r if p=='eq' else A.not_(r) if p=='ne' else self._pc(p)
            r=False
        elif isinstance(a,Ptr) and isinstance(b,Ptr) and a.o is b.o:
            d=self.simp(A.sub(term(a.off),term(b.off)))
            d=term(d)
            q=p if p in('eq','ne') else p[1:]
            return {'eq':A.eq0(d),'ne':A.not_(A.eq0(d)),'gt':A.gt0(d),'ge':A.ge0(d),'lt':A.gt0(A.neg(d)),'le':A.ge0(A.neg(d))}[q]
        elif isinstance(a,FPtr) and isinstance(b,FPtr): r=a.f is b.f
        elif isinstance(a,Ptr) and isinstance(b,Ptr): 
            if a.o.kind=='input' and b.o.kind=='input' and a.o.meta.get('via') is not None and b.o.meta.get('via') is not None:
                e=A.eq(a.o.meta['via'],b.o.meta['via'])
                return e if p=='eq' else A.not_(e) if p=='ne' else self._pc(p)
            r=False
        else:
            t=A.eq(term(a),term(b))
            return t if p=='eq' else A.not_(t) if p=='ne' else self._pc(p)
        if p=='eq': return A.TRUE if r else A.FALSE
        if p=='ne': return A.FALSE if r else A.TRUE
        if isinstance(a,Null) and isinstance(b,Null): return A.TRUE if p in('uge','ule','sge','sle') else A.FALSE
        return self._pc(p)
    def _pc(self,p): return A.bvar(str(fresh('pcmp')))
    def binop(self,op,a,b,ty):
        if isinstance(a,Agg) or isinstance(b,Agg):
            if not isinstance(a,Agg): a=Agg([UNDEF]*ty.n)
            if not isinstance(b,Agg): b=Agg([UNDEF]*ty.n)
            return Agg([self.binop(op,x,y,ty.el) for x,y in zip(a.els,b.els)])
        if isinstance(a,Undef) and isinstance(b,Undef): return UNDEF
        else_int=op[0]!='f'
        if else_int:
            if isinstance(a,A.T) and A.isc(a) and a.a[0].denominator==1: a=int(a.a[0])
            if isinstance(b,A.T) and A.isc(b) and b.a[0].denominator==1: b=int(b.a[0])
        if op[0]=='f':
            a=term(a); b=term(b)
            if op=='fadd': return A.add(a,b)
            if op=='fsub': return A.sub(a,b)
            if op=='fmul': return A.mul(a,b)
            if op=='fdiv': return A.div(a,b)
            return A.fn('fmod',a,b)
        w=ty.w
        if w==1:
            a=self.boolify(a); b=self.boolify(b)
            if op in('and','mul'): return A.and_(a,b)
            if op=='or': return A.or_(a,b)
            if op in('xor','add','sub'): return A.xor_(a,b)
            raise Unsupported('i1 '+op)
        if is_int(a) and is_int(b):
            ua,ub=uns(a,w),uns(b,w)
            if op=='add': r=a+b
            elif op=='sub': r=a-b
            elif op=='mul': r=a*b
            elif op in('udiv','sdiv','urem','srem') and b==0: raise Bottom('division by zero')
            elif op=='udiv': r=ua//ub
            elif op=='urem': r=ua%ub
            elif op=='sdiv': r=abs(a)//abs(b)*(1 if (a<0)==(b<0) else -1)
            elif op=='srem': r=abs(a)%abs(b)*(-1 if a<0 else 1)
            elif op=='shl': r=a<<b if 0<=b<256 else 0
            elif op=='lshr': r=ua>>b
            elif op=='ashr': r=a>>b
            elif op=='and': r=a&b
            elif op=='or': r=a|b
            elif op=='xor': r=a^b
            else: raise Unsupported(op)
            return sgn(r,w)
        if isinstance(a,(Ptr,Null,PIte)): a=self.p2i(a) if not isinstance(a,PIte) else term(a)
        if isinstance(b,(Ptr,Null,PIte)): b=self.p2i(b) if not isinstance(b,PIte) else term(b)
        # finite ite trees of constants: push in
        if isinstance(a,A.T) and a.op=='ite' and is_int(b) and self.ctree(a): return self.maptree(op,a,b,ty,True)
        if isinstance(b,A.T) and b.op=='ite' and is_int(a) and self.ctree(b): return self.maptree(op,b,a,ty,False)
        ta,tb=term(a),term(b)
        if op=='add': return A.add(ta,tb)
        if op=='sub':
            if hasaddr(ta) and hasaddr(tb): return self.simp(A.sub(ta,tb))
            return A.sub(ta,tb)
        if op=='mul': return A.mul(ta,tb)
        if op=='shl' and is_int(b): return A.mul(A.const(1<<b),ta)
        if op in('udiv','sdiv') and is_int(b) or op=='lshr' and is_int(b) or op=='ashr' and is_int(b):
            k=b if op in('udiv','sdiv') else 1<<b
            if k==1: return a
            # exact division of a multiple
            q=self.exact_div(ta,k)
            if q is not None: return q
            return A.fn('idiv',ta,A.const(k))
        if op in('udiv','sdiv'): return A.fn('idiv',ta,tb)
        if op in('urem','srem'):
            if is_int(b) and self.exact_div(ta,b) is not None: return 0
            return A.fn('imod',ta,tb)
        if op=='and':
            if is_int(b) and b==-1: return a
            if (is_int(a) and a==0) or (is_int(b) and b==0): return 0
            if is_int(b) and b>0 and (b+1)&b==0: return A.fn('imod',ta,A.const(b+1))
            if is_int(b) and b<0 and ((-b)&(-b-1))==0:
                if self.exact_div(ta,-b) is not None: return a
            return A.fn('bitand',*sorted((ta,tb),key=lambda t:t.id))
        if op=='or':
            if is_int(b) and b==0: return a
            if is_int(a) and a==0: return b
            # disjoint or used as add (x*2^k | c)
            if is_int(b) and b>0:
                q=self.exact_div(ta,1<<b.bit_length())
                if q is not None: return A.add(ta,tb)
            return A.fn('bitor',*sorted((ta,tb),key=lambda t:t.id))
        if op=='xor':
            if is_int(b) and b==-1: return A.sub(A.MONE,ta)
            return A.fn('bitxor',*sorted((ta,tb),key=lambda t:t.id))
        return A.fn(op,ta,tb)
    def ctree(self,t,d=0):
        if t.op=='c': return True
        return t.op=='ite' and d<24 and self.ctree(t.a[1],d+1) and self.ctree(t.a[2],d+1)
    def maptree(self,op,t,k,ty,left):
        if t.op=='c':
            r=self.binop(op,t.a[0],k,ty) if left else self.binop(op,k,t.a[0],ty)
            return term(r)
        return A.ite(t.a[0],term(self.maptree(op,t.a[1],k,ty,left)),term(self.maptree(op,t.a[2],k,ty,left)))
    def exact_div(self,t,k):
        try: p=A.Ctx().nf(t)
        except (A.NeedSplit,A.TooBig): return None
        if all(isinstance(c,int) and c%k==0 for c in p.values()):
            try: return self.simp(self.from_poly({m:c//k for m,c in p.items()})) if p else 0
            except Unsupported: return None
        return None

    # ----------------------------------------------------------------- calls
    def do_call(self,i,callee,ops,env,st):
        if isinstance(callee,L.Other): 
            if callee.k=='asm': return UNDEF
            raise Unsupported('call %s'%callee.k)
        fv=callee if isinstance(callee,L.Fn) else self.ev(callee,env)
        if isinstance(fv,FPtr): fv=fv.f
        if not isinstance(fv,L.Fn):
            return self.indirect(i,fv,ops,env,st)
        name=fv.name
        if name.startswith('llvm.'):
            base=name[5:]
            if base.startswith(IGN): return None
            return self.intrinsic(i,base,[self.ev(o,env) if not isinstance(o,L.Other) else None for o in ops],env,st)
        args=[self.ev(o,env) if not isinstance(o,L.Other) else None for o in ops]
        return self.call_fn(i,fv,args,st)
    def indirect(self,i,fv,ops,env,st):
        raise Unsupported('indirect call through %r'%(fv,))
    def call_fn(self,i,fv,args,st):
        name=fv.name
        m=self.models.get(name) or self.models.get(name.split('.specialized.')[0])
        if m is None:
            for pat,mm in self.pmodels:
                if pat(name): m=mm; break
        if m is not None:
            r=m(self,i,args,st)
            if r is not NOTMODELLED: return r
        if not self.opaque(name):
            f=self.find_fn(name)
            if f is not None:
                r,ns=self.run_fn(f,args,st)
                self._newst=ns
                return r
        if fv.noret or (i.op=='call' and i.x[1]): raise Bottom(name)
        return self.external(i,name,args,st)
    pmodels=()
    def external(self,i,name,args,st):
        self.unknown.add(name)
        self.event('call',(name,args),i)
        for a in args:
            if isinstance(a,Ptr) and a.o.kind!='glob':
                self.havoc(st,a.o,'all')
        t=i.ty
        if t.k=='void': return None
        if t.k=='ptr':
            return A.mk('fn','ret:%s!%d'%(name,_next()))
        if t.k=='i' and t.w==1: return A.bvar('ret:%s!%d'%(name,_next()))
        if t.k in('st','arr','vec'): return UNDEF
        return fresh('ret:'+name)
    def intrinsic(self,i,b,args,env,st):
        if b.startswith(('memcpy','memmove')):
            self.memcpy(st,args[0],args[1],args[2],i); return None
        if b.startswith('memset'):
            self.memset(st,args[0],args[1],args[2],i); return None
        if b.startswith('sqrt'): return self.vec1(A.sqrt,args[0])
        if b.startswith('fabs'): return self.vec1(A.abs_,args[0])
        if b.startswith('fmuladd') or b.startswith('fma'):
            if isinstance(args[0],Agg): return Agg([A.add(A.mul(term(x),term(y)),term(z)) for x,y,z in zip(*(a.els for a in args))])
            return A.add(A.mul(term(args[0]),term(args[1])),term(args[2]))
        if b.startswith(('minnum','minimum')): return A.ite(A.lt(term(args[1]),term(args[0])),term(args[1]),term(args[0]))
        if b.startswith(('maxnum','maximum')): return A.ite(A.lt(term(args[0]),term(args[1])),term(args[1]),term(args[0]))
        if b.split('.')[0] in('umin','smin','umax','smax','abs'):
            k=b.split('.')[0]
            if k=='abs':
                a=args[0]
                return abs(a) if is_int(a) else A.abs_(a)
            x,y=args
            if isinstance(x,Agg): raise Unsupported(b)
            p={'umin':'ult','smin':'slt','umax':'ugt','smax':'sgt'}[k]
            c=self.icmp(p,x,y,i.ops[0])
            return self.sel(c,x,y)
        if b.startswith(('pow','exp','log','sin','cos','floor','ceil','round','copysign','trunc','rint','nearbyint','lround','llround','lrint','llrint','ldexp')):
            nm=b.split('.')[0]
            if isinstance(args[0],Agg): return Agg([mathfn(nm,[term(x) for x in q]) for q in zip(*(a.els for a in args))])
            if nm in('lround','llround','lrint','llrint'):
                v=mathfn(nm.replace('ll','l'),[term(args[0])])
                return sgn(int(v.a[0]),i.ty.w) if A.isc(v) else v
            return mathfn(nm,[term(a) for a in args])
        if b.startswith('powi'): return mathfn('pow',[term(a) for a in args])
        if b.startswith('usub.sat'):
            c=self.icmp('ugt',args[0],args[1],i.ops[0])
            return self.sel(c,self.binop('sub',args[0],args[1],i.ty),0)
        if b.split('.')[0] in('umul','uadd','smul','sadd','usub','ssub') and 'overflow' in b:
            k={'umul':'mul','uadd':'add','smul':'mul','sadd':'add','usub':'sub','ssub':'sub'}[b.split('.')[0]]
            return Agg([self.binop(k,args[0],args[1],i.ty.els[0]),A.FALSE])
        if b.startswith('expect'): return args[0]
        if b.startswith('is.fpclass') and is_int(args[1]) and not isinstance(args[0],Agg):
            # values are real numbers: neither NaN nor infinite
            k=args[1]&0x1f8
            if k==0: return A.FALSE
            if k==0x1f8: return A.TRUE
            x=term(args[0])
            if k&0x38==0x18 and not k&0x1c0: return A.lt(x,A.ZERO)
            if k==0x60 or k==0x60^0x1f8: r=A.eq(x,A.ZERO); return r if k==0x60 else A.not_(r)
            if k in(0x38,0x18): return A.lt(x,A.ZERO)
            if k in(0x1c0,0x180): return A.lt(A.ZERO,x)
            if k==0x1e0: return A.not_(A.lt(x,A.ZERO))
        if b.startswith('is.constant'): return A.FALSE
        if b.startswith('objectsize'): return -1
        if b.startswith('trap'): raise Bottom('trap')
        if b.startswith('eh.typeid'): return fresh('eh')
        if b.startswith(('fshl','bswap','ctpop','ctlz','cttz','load.relative','threadlocal','x86','vector.reduce')):
            if b.startswith('threadlocal'): return args[0]
            if b.startswith(('ctlz','cttz','ctpop')) and is_int(args[0]) and i.ty.k=='i':
                w=i.ty.w; u=uns(args[0],w)
                if b.startswith('ctpop'): return bin(u).count('1')
                if b.startswith('ctlz'): return w-u.bit_length()
                return (u&-u).bit_length()-1 if u else w
            if b.startswith('vector.reduce'):
                k=b.split('.')[2]
                els=args[-1].els
                if k in('fadd','add'):
                    r=term(args[0]) if k=='fadd' else A.ZERO
                    for e in els: r=A.add(r,term(e))
                    return r
            self.event('call',('llvm.'+b,args),i)
            if i.ty.k=='void': return None
            return fresh('llvm.'+b)
        raise Unsupported('intrinsic '+b+' in '+str(self.stack[-1:]))
    def vec1(self,f,a):
        if isinstance(a,Agg): return Agg([f(term(x)) for x in a.els])
        return f(term(a))
    def memset(self,st,p,v,n,i):
        if isinstance(p,PIte): raise Unsupported('memset pite')
        if isinstance(p,A.T): p=self.ptr_of_term(p)
        if isinstance(n,int) and n==0: return
        if isinstance(p,(Null,Undef)): raise Bottom('memset null')
        if self.record_stores: self.event('memset',(p,v,n),i)
        if not is_int(n) or not is_int(p.off):
            m=st.wr(p.o)
            if m.log is None: m.log=[]
            m.log.append((SETR,(p.off,n),v)); 
            return
        m=st.wr(p.o)
        if m.log is not None:
            m.log.append((SETR,(p.off,n),v)); return
        if is_int(v) and (v&255)==0:
            for k in [k for k in m.cells if p.off-31<=k<p.off+n]:
                c=m.cells[k]
                if k>=p.off: del m.cells[k]
            m.zero=(m.zero or [])+[(p.off,p.off+n)]
        elif is_int(v):
            for k in [k for k in m.cells if p.off<=k<p.off+n]: del m.cells[k]
            if n>4096*8: raise Unsupported('large memset')
            for k in range(n): m.cells[p.off+k]=(1,v&255,'i')
        else: raise Unsupported('memset symbolic')
    def memcpy(self,st,d,s,n,i):
        if isinstance(d,A.T): d=self.ptr_of_term(d)
        if isinstance(s,A.T): s=self.ptr_of_term(s)
        if is_int(n) and n==0: return
        if isinstance(n,A.T) and n.op=='ite':
            outs=[]
            for q in (n.a[1],n.a[2]):
                f=st.fork(); self.memcpy(f,d,s,q.a[0] if A.isc(q) else q,i); outs.append(f)
            st.mem=self.join(n.a[0],outs[0],outs[1]).mem
            return
        if isinstance(d,(Null,Undef)) or isinstance(s,(Null,Undef)): raise Bottom('memcpy null')
        if isinstance(s,PIte) or isinstance(d,PIte):
            pi=s if isinstance(s,PIte) else d
            outs=[]
            for q in (pi.a,pi.b):
                f=st.fork()
                self.memcpy(f,q if pi is not s else d,q if pi is s else s,n,i); outs.append(f)
            j=self.join(pi.c,outs[0],outs[1])
            st.mem=j.mem
            return
        if self.record_stores: self.event('memcpy',(d,s,n),i)
        sm=st.get(s.o)
        if is_int(n) and is_int(s.off) and is_int(d.off) and (sm is None or sm.log is None) and (st.get(d.o) is None or st.get(d.o).log is None):
            cells=[]
            covered=0
            if sm is not None:
                if n<len(sm.cells):
                    for k in range(s.off,s.off+n):
                        c=sm.cells.get(k)
                        if c is not None and k+c[0]<=s.off+n: cells.append((k-s.off,c)); covered+=c[0]
                else:
                    for k,c in sm.cells.items():
                        if s.off<=k and k+c[0]<=s.off+n: cells.append((k-s.off,c)); covered+=c[0]
            zeros=[(max(a,s.off)-s.off,min(b,s.off+n)-s.off) for a,b in (sm.zero or [])] if sm is not None else []
            zeros=[(a,b) for a,b in zeros if a<b]
            if covered<n and not zeros or covered<n and sum(b-a for a,b in zeros)+covered<n:
                # uncovered source bytes: initial contents
                if s.o.init is not None:
                    self.copy_init(st,d,s,n,set(k for k,_ in cells))
                elif s.o.kind!='local':
                    el=s.o.elt or (d.o.elt)
                    w=self.eltsize(s.o)
                    done=set()
                    for k,c in cells:
                        for b in range(c[0]): done.add(k+b)
                    ty=self.mkty((w,0,s.o.elt or ('f' if w in(4,8) else 'i')))
                    if n//w>200000: raise Unsupported('huge memcpy')
                    dm=st.wr(d.o)
                    for k in range(0,n-w+1,w):
                        if k in done: continue
                        dm.cells[d.off+k]=(w,self.initial(s.o,s.off+k,ty),ty.k)
            dm=st.wr(d.o)
            ds=[k for k in (range(d.off,d.off+n) if n<len(dm.cells) else dm.cells) if d.off<=k<d.off+n and k in dm.cells]
            newc={k for k,_ in cells}
            if not(s.o.init is not None or s.o.kind!='local'):
                for k in ds: del dm.cells[k]
            for a,b in zeros:
                for k in [k for k in (range(d.off+a,d.off+b) if b-a<len(dm.cells) else dm.cells) if d.off+a<=k<d.off+b and k in dm.cells]: del dm.cells[k]
                dm.zero=addzero(dm.zero,d.off+a,d.off+b)
            for k,c in cells: dm.cells[d.off+k]=c
            return
        # symbolic copy
        m=st.wr(d.o)
        if m.log is None: m.log=[]
        m.log.append((COPYR,(d.off,n),(s.o,s.off,sm.copy() if sm is not None else None)))
    def eltsize(self,o):
        return o.meta.get('esz',8)
    def copy_init(self,st,d,s,n,skip):
        mod,init=s.o.init
        dm=st.wr(d.o)
        def walk(v,off):
            t=v.ty
            if off>=s.off+n or off+max(t.size,1)<=s.off: return
            if isinstance(v,(L.CZero,L.CNull)) or isinstance(v,L.CUndef):
                a=max(off,s.off); b=min(off+t.size,s.off+n)
                if isinstance(v,L.CNull) or t.size<=8 and t.k in('i','f','ptr'):
                    dm.cells[d.off+off-s.off]=(t.store,self.zero(t),t.k)
                else: 
                    for k in [k for k in dm.cells if d.off+a-s.off<=k<d.off+b-s.off]: del dm.cells[k]
                    dm.zero=(dm.zero or [])+[(d.off+a-s.off,d.off+b-s.off)]
                return
            if isinstance(v,L.CAgg):
                for k,e in enumerate(v.els):
                    walk(e,off+(t.offs[k] if t.k=='st' else k*t.el.size))
                return
            if off>=s.off and off-s.off not in skip:
                dm.cells[d.off+off-s.off]=(t.store,self.ev(v,{}),t.k)
        walk(init,0)
    # read from logs with ranges
    def load_log(self,st,m,o,off,ty):
        conds=[]; res=None
        for (woff,wsize,val) in reversed(m.log):
            if woff is HAVOC:
                res=self.hv(val,o,off,ty); break
            if woff is SETR or woff is COPYR:
                a,n=wsize
                lo=self.simp(A.sub(term(off),term(a))); hi=self.simp(A.sub(A.add(term(a),term(n)),A.add(term(off),A.const(ty.store))))
                c=A.and_(A.ge0(term(lo)),A.ge0(term(hi)))
                if c is A.FALSE: continue
                if woff is SETR: v=self.zero(ty) if is_int(val) and val&255==0 else self.opaque_val(ty,'memset')
                else:
                    so,soff,sm=val
                    s2=State(); 
                    if sm is not None: s2.mem={so:sm}
                    v=self.load1(s2,so,self.oadd(soff,lo),ty)
                if c is A.TRUE: res=v; break
                conds.append((c,v)); continue
            if is_int(woff) and is_int(off):
                if woff==off and wsize==ty.store: res=self.conv(val,ty); break
                if woff+wsize<=off or off+ty.store<=woff: continue
                res=self.opaque_val(ty,'overlap(%s)'%o.name); break
            d=self.simp(A.sub(term(woff),term(off)))
            if is_int(d):
                if d==0 and wsize==ty.store: res=self.conv(val,ty); break
                if d>=ty.store or -d>=wsize: continue
                res=self.opaque_val(ty,'overlap(%s)'%o.name); break
            if wsize!=ty.store: continue   # differently sized fields of one record type do not alias
            if self.noalias(d,max(wsize,ty.store)): continue
            conds.append((A.eq0(d),self.conv(val,ty)))
        else:
            mm=Mem(); mm.cells=m.cells; mm.zero=m.zero
            s2=State(); s2.mem={o:mm}
            res=self.load1(s2,o,off,ty)
        for c,v in reversed(conds): res=self.sel(c,v,res)
        return res
    def noalias(self,d,size):
        """the two offsets differ by d: never within one record when the constant part is not a
        multiple of every symbolic stride (fields of different index in an array of records)"""
        try: p=A.Ctx().nf(d)
        except A.NeedSplit: return False
        c0=p.get((),0)
        g=0
        from math import gcd
        for m,c in p.items():
            if m!=():
                if not isinstance(c,int): return False
                g=gcd(g,abs(c))
        if g==0 or not isinstance(c0,int): return False
        r=c0%g
        return min(r,g-r)>=size if r else False
    def hv(self,idn,o,off,ty):
        if ty.k=='i' and ty.w==1: return A.mk('bfn','hv%d:%s'%(idn,o.name),term(off))
        return A.fn('hv%d:%s'%(idn,o.name),self.tyname(ty),term(off))

DEFAULT_MODELS={}
PTRTY=L.Ty(); PTRTY.k='ptr'; PTRTY.w=0; PTRTY.n=0; PTRTY.el=None; PTRTY.els=None; PTRTY.offs=None; PTRTY.size=8; PTRTY.store=8
def _next():
    _fr[0]+=1; return _fr[0]
class SymLoop(Exception):
    def __init__(s,rec): s.rec=rec
class LoopRec:
    __slots__=('header','count','generic','sym','everc','backs','k','first')
    def __init__(s,h): s.header=h; s.first=True; s.count=0; s.generic=False; s.sym=0; s.everc=False; s.backs=[]; s.k=None
class _M: 
    def __init__(s,n): s.n=n
    def __repr__(s): return s.n
MISSING=_M('missing'); NOTMODELLED=_M('nm'); HAVOC=_M('HAVOC'); SETR=_M('SETR'); COPYR=_M('COPYR')
TERMS={'br','switch','ret','unreachable','invoke','resume'}
BIN={'add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'}
IGN=('dbg.','lifetime.','assume','experimental.noalias','invariant.','donothing','annotation','stacksave','stackrestore','prefetch','sideeffect','pseudoprobe','var.annotation')

def mathfn(nm,a):
    if nm=='pow' and A.isc(a[1]):
        e=a[1].a[0]
        if e==Fraction(1,2): return A.sqrt(a[0])
        if not isinstance(e,int) and Fraction(e).limit_denominator(4)==e and e.denominator==2 and abs(e)<16:
            n=int(e-Fraction(1,2)); b=A.sqrt(a[0])*(a[0]**abs(n) if n>=0 else A.inv(a[0]**abs(n)))
            return b
        if isinstance(e,int) and 0<=e<=32: return a[0]**e
        if isinstance(e,int) and -32<=e<0: return A.inv(a[0]**(-e))
    if nm=='copysign': return A.ite(A.lt(a[1],A.ZERO),A.neg(A.abs_(a[0])),A.abs_(a[0]))
    if nm=='hypot': return A.sqrt(A.add(A.mul(a[0],a[0]),A.mul(a[1],a[1])))
    if nm=='fdim': return A.ite(A.lt(a[1],a[0]),A.add(a[0],A.neg(a[1])),A.ZERO)
    if nm in('nearbyint','roundeven'): nm='rint'
    if nm=='lrint': nm='rint'
    if nm in('lround','llround'): nm='round'
    if all(A.isc(x) for x in a):
        c=[Fraction(x.a[0]) for x in a]; x=c[0]
        if nm=='floor': return A.const(math.floor(x))
        if nm=='ceil': return A.const(math.ceil(x))
        if nm=='trunc': return A.const(math.trunc(x))
        if nm=='round': return A.const((math.floor(abs(x)+Fraction(1,2)))*(1 if x>=0 else -1))
        if nm=='rint': return A.const(round(x))
        if nm=='fmod' and c[1]!=0: return A.const(x-c[1]*math.trunc(x/c[1]))
        if nm=='exp2' and x.denominator==1 and abs(x)<64: return A.const(Fraction(2)**int(x))
        if nm=='ldexp' and abs(c[1])<64: return A.const(x*Fraction(2)**int(c[1]))
        if nm=='log2' and x>0 and (x.numerator==1 or x.denominator==1) and (n:=max(x.numerator,x.denominator))&(n-1)==0: return A.const((n.bit_length()-1)*(1 if x>=1 else -1))
        if nm in('exp','cos','cosh') and x==0: return A.ONE
        if nm in('sin','tan','atan','asin','sinh','tanh') and x==0: return A.ZERO
        if nm=='log' and x==1: return A.ZERO
    return A.fn(nm,*a)

def _m1(nm): return lambda I,i,a,st: mathfn(nm,[term(x) for x in a])
def m_sqrt(I,i,a,st): return A.sqrt(term(a[0]))
def m_abs(I,i,a,st): return A.abs_(term(a[0]))
def m_alloc(I,i,a,st,k=0):
    n=a[k]
    o=Obj('heap%d'%_next(),'local',n if is_int(n) else None)
    o.meta['heap']=True; o.meta['size']=n
    I.event('alloc',(i.x[0].name if isinstance(i.x[0],L.Fn) else '?',Ptr(o,0),a),i)
    return Ptr(o,0)
def m_free(I,i,a,st):
    I.event('free',(i.x[0].name,a),i); return None
def bytes_at(I,st,p,n):
    """constant bytes behind a pointer, or None"""
    if not isinstance(p,Ptr) or not is_int(p.off) or not is_int(n): return None
    ty=I.mkty((1,0,'i')); out=[]
    for k in range(n):
        v=I.load(st,Ptr(p.o,p.off+k),ty)
        if isinstance(v,A.T) and v.op=='c': v=v.a[0]
        if not is_int(v): return None
        out.append(v&255)
    return bytes(out)
def cstr_at(I,st,p):
    if not isinstance(p,Ptr) or not is_int(p.off): return None
    ty=I.mkty((1,0,'i')); out=[]
    for k in range(4096):
        v=I.load(st,Ptr(p.o,p.off+k),ty)
        if isinstance(v,A.T) and v.op=='c': v=v.a[0]
        if not is_int(v): return None
        if v==0: return bytes(out)
        out.append(v&255)
    return None
def m_memcmp(I,i,a,st):
    x=bytes_at(I,st,a[0],a[2]); y=bytes_at(I,st,a[1],a[2])
    if x is None or y is None:
        if is_int(a[2]) and a[2]==0: return 0
        return fresh('memcmp')
    return 0 if x==y else (-1 if x<y else 1)
def m_strlen(I,i,a,st):
    x=cstr_at(I,st,a[0])
    return len(x) if x is not None else fresh('strlen')
def m_strcmp(I,i,a,st):
    x=cstr_at(I,st,a[0]); y=cstr_at(I,st,a[1])
    if x is None or y is None: return fresh('strcmp')
    return 0 if x==y else (-1 if x<y else 1)
def m_strncmp(I,i,a,st):
    x=cstr_at(I,st,a[0]); y=cstr_at(I,st,a[1])
    if x is None or y is None or not is_int(a[2]): return fresh('strcmp')
    x,y=x[:a[2]],y[:a[2]]
    return 0 if x==y else (-1 if x<y else 1)
def str_at(I,st,p):
    """constant contents of a std::string object"""
    if not isinstance(p,Ptr): return None
    d=I.load(st,p,PTRTY); n=I.load(st,Ptr(p.o,I.oadd(p.off,8)),I.mkty((8,0,'i')))
    if isinstance(n,A.T) and n.op=='c': n=n.a[0]
    return bytes_at(I,st,d,n)
def set_str(I,st,p,b):
    """overwrite a std::string object with constant contents"""
    o=Obj('str%d'%_next(),'local',len(b)+1); m=st.wr(o)
    for k,x in enumerate(b+bytes([0])): m.cells[k]=(1,x,'i')
    if len(b)<16:
        for k,x in enumerate(b+bytes([0])): I.store(st,Ptr(p.o,p.off+16+k),x,I.mkty((1,0,'i')))
        I.store(st,p,Ptr(p.o,p.off+16),PTRTY)
    else: I.store(st,p,Ptr(o,0),PTRTY)
    I.store(st,Ptr(p.o,p.off+8),len(b),I.mkty((8,0,'i')))
_SS='_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
_SK='_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
def m_str_cmp_c(I,i,a,st):
    x=str_at(I,st,a[0]); y=cstr_at(I,st,a[1])
    if x is None or y is None: return NOTMODELLED
    return 0 if x==y else (-1 if x<y else 1)
def m_str_cmp(I,i,a,st):
    x=str_at(I,st,a[0]); y=str_at(I,st,a[1])
    if x is None or y is None: return NOTMODELLED
    return 0 if x==y else (-1 if x<y else 1)
def m_str_append(I,i,a,st):
    x=str_at(I,st,a[0]); y=bytes_at(I,st,a[1],a[2])
    if x is None or y is None: return NOTMODELLED
    set_str(I,st,a[0],x+y); return a[0]
def m_str_append_s(I,i,a,st):
    x=str_at(I,st,a[0]); y=str_at(I,st,a[1])
    if x is None or y is None: return NOTMODELLED
    set_str(I,st,a[0],x+y); return a[0]
def m_str_assign(I,i,a,st):
    y=str_at(I,st,a[1])
    if y is None: return NOTMODELLED
    set_str(I,st,a[0],y); return a[0]
def m_str_replace(I,i,a,st):
    x=str_at(I,st,a[0]); y=bytes_at(I,st,a[3],a[4])
    if x is None or y is None or not is_int(a[1]) or not is_int(a[2]): return NOTMODELLED
    n=len(x)-a[1] if a[2]<0 else a[2]
    set_str(I,st,a[0],x[:a[1]]+y+x[a[1]+n:]); return a[0]
def m_bottom(I,i,a,st): raise Bottom('noreturn')
def m_memcpy(I,i,a,st): I.memcpy(st,a[0],a[1],a[2],i); return a[0]
def m_memset(I,i,a,st): I.memset(st,a[0],a[1],a[2],i); return a[0]
def m_none(I,i,a,st): return None
def m_calloc(I,i,a,st):
    p=m_alloc(I,i,[I.binop('mul',a[0],a[1],i.ty) if False else (a[0]*a[1] if is_int(a[0]) and is_int(a[1]) else A.mul(term(a[0]),term(a[1])))],st)
    m=st.wr(p.o); m.zero=[(0,1<<40)]
    return p
for _n in ('sin','cos','tan','exp','log','atan','atan2','sinh','cosh','asin','acos','asinh','log10','floor','ceil','round','pow','fmod','tanh','log2','trunc','rint','nearbyint','hypot','cbrt','exp2','copysign','fdim','ldexp','expm1','log1p'):
    DEFAULT_MODELS[_n]=_m1(_n); DEFAULT_MODELS[_n+'f']=_m1(_n)
DEFAULT_MODELS.update({'sqrt':m_sqrt,'sqrtf':m_sqrt,'fabs':m_abs,'fabsf':m_abs,
 'fmax':lambda I,i,a,st: A.ite(A.lt(term(a[0]),term(a[1])),term(a[1]),term(a[0])),
 'fmin':lambda I,i,a,st: A.ite(A.lt(term(a[1]),term(a[0])),term(a[1]),term(a[0])),
 'malloc':m_alloc,'_Znwm':m_alloc,'_Znam':m_alloc,'calloc':m_calloc,
 'free':m_free,'_ZdlPv':m_free,'_ZdaPv':m_free,'_ZdlPvm':m_free,'_ZdaPvm':m_free,
 '__vp_fatal':m_bottom,'abort':m_bottom,'exit':m_bottom,'__assert_fail':m_bottom,'_ZSt9terminatev':m_bottom,
 'memcpy':m_memcpy,'memmove':m_memcpy,'memset':m_memset,
 '__cxa_atexit':lambda I,i,a,st:0,
 'bcmp':m_memcmp,'memcmp':m_memcmp,'strlen':m_strlen,'strcmp':m_strcmp,'strncmp':m_strncmp,
 _SK+'7compareEPKc':m_str_cmp_c, _SK+'7compareERKS4_':m_str_cmp,
 _SS+'9_M_appendEPKcm':m_str_append, _SS+'6appendEPKcm':m_str_append,
 _SS+'7reserveEm':lambda I,i,a,st:None if str_at(I,st,a[0]) is not None else NOTMODELLED, _SS+'9_M_createERmm':lambda I,i,a,st:m_alloc(I,i,[1<<12],st), _SS+'12_M_constructEmc':lambda I,i,a,st:set_str(I,st,a[0],bytes([a[2]&255])*a[1]) if is_int(a[1]) and is_int(a[2]) else NOTMODELLED,
 _SS+'9_M_assignERKS4_':m_str_assign, _SS+'10_M_replaceEmmPKcm':m_str_replace,
})
def m_str_ctor(I,i,a,st):
    y=cstr_at(I,st,a[1])
    if y is None: return NOTMODELLED
    set_str(I,st,a[0],y)
for _c in ('C1','C2'): DEFAULT_MODELS[_SS+_c+'EPKcRKS3_']=m_str_ctor; DEFAULT_MODELS[_SS+_c+'ERKS4_']=m_str_assign
for _c in ('D1','D2'): DEFAULT_MODELS[_SS+_c+'Ev']=m_none
def m_to_xstring(I,i,a,st):
    """std::to_string of a floating-point number (messages only): some text"""
    set_str(I,st,a[0],b'?'); return None
DEFAULT_MODELS['_ZN9__gnu_cxx12__to_xstringINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEcEET_PFiPT0_mPKS8_P13__va_list_tagEmSB_z']=m_to_xstring
def _m_find(what,nargs):
    """std::string searches in constant text (positions as in <string>, npos is -1)"""
    def f(I,i,a,st):
        s=str_at(I,st,a[0])
        if nargs=='s': q=str_at(I,st,a[1]); p=a[2]
        elif nargs=='c': q=bytes([a[1]&255]) if is_int(a[1]) else None; p=a[2]
        elif nargs=='n': p=a[2]; q=bytes_at(I,st,a[1],a[3])
        else: q=cstr_at(I,st,a[1]); p=a[2]
        if s is None or q is None or not is_int(p): return NOTMODELLED
        if p<0: p=len(s)+len(q)+1
        if what=='find': return s.find(q,p)
        if what=='rfind': return s.rfind(q,0,min(p,len(s))+len(q))
        hit=[k for k,x in enumerate(s) if (x in q)!=('not' in what)]
        if 'first' in what: return next((k for k in hit if k>=p),-1)
        return next((k for k in reversed(hit) if k<=p),-1)
    return f
for _n in ('find','rfind','find_first_of','find_last_of','find_first_not_of','find_last_not_of'):
    for _s,_k in (('EPKcmm','n'),('EPKcm','z'),('Ecm','c'),('ERKS4_m','s')): DEFAULT_MODELS[_SK+'%d%s%s'%(len(_n),_n,_s)]=_m_find(_n,_k)
def m_strstr(I,i,a,st):
    x,y=cstr_at(I,st,a[0]),cstr_at(I,st,a[1])
    if x is None or y is None: return NOTMODELLED
    k=x.find(y)
    return NULL if k<0 else Ptr(a[0].o,a[0].off+k)
def m_strcpy(I,i,a,st):
    x=cstr_at(I,st,a[1])
    if x is None or not isinstance(a[0],Ptr) or not is_int(a[0].off): return NOTMODELLED
    for k,b in enumerate(x+bytes([0])): I.store(st,Ptr(a[0].o,a[0].off+k),b,I.mkty((1,0,'i')))
    return a[0]
DEFAULT_MODELS.update({'strstr':m_strstr,'strcpy':m_strcpy})
def m_str_replace_aux(I,i,a,st):
    s=str_at(I,st,a[0])
    if s is None or not all(is_int(x) for x in a[1:5]): return NOTMODELLED
    set_str(I,st,a[0],s[:a[1]]+bytes([a[4]&255])*a[3]+s[a[1]+a[2]:]); return a[0]
DEFAULT_MODELS[_SS+'14_M_replace_auxEmmmc']=m_str_replace_aux
# ordered containers of the standard library: the order of the nodes is what matters, they are not balanced
class _RB:
    def __init__(s,it,st): s.it,s.st,s.pt,s.ct=it,st,it.mkty((8,0,'ptr')),it.mkty((4,0,'i'))
    def ok(s,p):
        if not isinstance(p,(Ptr,Null)): raise Unsupported('tree with an unknown node')
        return p
    def g(s,p,k): return s.ok(s.it.load(s.st,Ptr(p.o,p.off+8*(1+k)),s.pt))
    def p(s,p,k,v): s.it.store(s.st,Ptr(p.o,p.off+8*(1+k)),v,s.pt)
    def c(s,p,v): s.it.store(s.st,Ptr(p.o,p.off),v,s.ct)
    def red(s,p): return s.it.load(s.st,Ptr(p.o,p.off),s.ct)==0
    @staticmethod
    def eq(a,b): return isinstance(a,Ptr) and isinstance(b,Ptr) and a.o is b.o and a.off==b.off
    def end(s,x,k):
        while isinstance(s.g(x,k),Ptr): x=s.g(x,k)
        return x
def m_rb_insert(it,i,a,st):
    t=_RB(it,st); left,x,p,h=a; left=left is TRUE_ or left==1
    for q in (x,p,h): t.ok(q)
    root=t.eq(p,h)
    t.p(x,0,p); t.p(x,1,NULL); t.p(x,2,NULL); t.c(x,1 if root else 0)
    if left:
        t.p(p,1,x)
        if root: t.p(h,0,x); t.p(h,2,x)
        elif t.eq(p,t.g(h,1)): t.p(h,1,x)
    else:
        t.p(p,2,x)
        if t.eq(p,t.g(h,2)): t.p(h,2,x)
def m_rb_inc(it,i,a,st):
    t=_RB(it,st); x=t.ok(a[0])
    r=t.g(x,2)
    if isinstance(r,Ptr): return t.end(r,1)
    y=t.g(x,0)
    while t.eq(x,t.g(y,2)): x,y=y,t.g(y,0)
    return x if t.eq(t.g(x,2),y) else y
def m_rb_dec(it,i,a,st):
    t=_RB(it,st); x=t.ok(a[0])
    if t.red(x) and t.eq(t.g(t.g(x,0),0),x): return t.g(x,2)
    l=t.g(x,1)
    if isinstance(l,Ptr): return t.end(l,2)
    y=t.g(x,0)
    while t.eq(x,t.g(y,1)): x,y=y,t.g(y,0)
    return y
def m_rb_erase(it,i,a,st):
    t=_RB(it,st); z,h=t.ok(a[0]),t.ok(a[1])
    if t.eq(z,t.g(h,1)): t.p(h,1,m_rb_inc(it,i,[z],st))
    if t.eq(z,t.g(h,2)): t.p(h,2,m_rb_dec(it,i,[z],st))
    def put(u,v):
        p=t.g(u,0)
        if t.eq(t.g(h,0),u): t.p(h,0,v)
        elif t.eq(t.g(p,1),u): t.p(p,1,v)
        else: t.p(p,2,v)
        if isinstance(v,Ptr): t.p(v,0,p)
    l,r=t.g(z,1),t.g(z,2)
    if not isinstance(l,Ptr): put(z,r)
    elif not isinstance(r,Ptr): put(z,l)
    else:
        y=t.end(r,1)
        if not t.eq(y,r):
            put(y,t.g(y,2)); t.p(y,2,r); t.p(r,0,y)
        put(z,y); t.p(y,1,l); t.p(l,0,y)
    q=t.g(h,0)
    if isinstance(q,Ptr): t.c(q,1)
    else: t.p(h,1,h); t.p(h,2,h)
    return z
TRUE_=A.TRUE
for _q in ('PSt18_Rb_tree_node_base','PKSt18_Rb_tree_node_base'):
    DEFAULT_MODELS['_ZSt18_Rb_tree_increment'+_q]=m_rb_inc; DEFAULT_MODELS['_ZSt18_Rb_tree_decrement'+_q]=m_rb_dec
DEFAULT_MODELS['_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_']=m_rb_insert
DEFAULT_MODELS['_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_']=m_rb_erase
# doubly linked lists and hash tables of the standard library
class _LI(_RB):
    def g(s,p,k): return s.ok(s.it.load(s.st,Ptr(p.o,p.off+8*k),s.pt))
    def p(s,p,k,v): s.it.store(s.st,Ptr(p.o,p.off+8*k),v,s.pt)
def m_list_hook(it,i,a,st):
    t=_LI(it,st); x,q=t.ok(a[0]),t.ok(a[1]); r=t.g(q,1)
    t.p(x,0,q); t.p(x,1,r); t.p(r,0,x); t.p(q,1,x)
def m_list_unhook(it,i,a,st):
    t=_LI(it,st); x=t.ok(a[0]); n,r=t.g(x,0),t.g(x,1)
    t.p(r,0,n); t.p(n,1,r)
def m_list_transfer(it,i,a,st):
    t=_LI(it,st); x,f,l=(t.ok(q) for q in a[:3])
    if t.eq(x,l): return
    lp,fp,xp=t.g(l,1),t.g(f,1),t.g(x,1)
    t.p(lp,0,x); t.p(fp,0,l); t.p(xp,0,f); t.p(x,1,lp); t.p(l,1,fp); t.p(f,1,xp)
def m_list_reverse(it,i,a,st):
    t=_LI(it,st); x=y=t.ok(a[0])
    while True:
        n,r=t.g(x,0),t.g(x,1); t.p(x,0,r); t.p(x,1,n); x=n
        if t.eq(x,y): return
def m_list_swap(it,i,a,st):
    t=_LI(it,st); x,y=t.ok(a[0]),t.ok(a[1])
    d=[[] if t.eq(t.g(q,0),q) else [t.g(q,0),t.g(q,1)] for q in (x,y)]
    for q,r in ((x,d[1]),(y,d[0])):
        if r: t.p(q,0,r[0]); t.p(q,1,r[1]); t.p(r[0],1,q); t.p(r[1],0,q)
        else: t.p(q,0,q); t.p(q,1,q)
_LN='_ZNSt8__detail15_List_node_base'
DEFAULT_MODELS.update({_LN+'7_M_hookEPS0_':m_list_hook,_LN+'9_M_unhookEv':m_list_unhook,_LN+'11_M_transferEPS0_S1_':m_list_transfer,
 _LN+'10_M_reverseEv':m_list_reverse,_LN+'4swapERS0_S1_':m_list_swap})
_PRIMES=[1,2,5,11,23,47,97,199,409,823,1741,3739,7517,15173,30727,62233]
def _bkt(n): return next((x for x in _PRIMES if x>=n),None)
def m_hash_next(it,i,a,st):
    b=_bkt(a[1]) if is_int(a[1]) else None
    if b is None: return NOTMODELLED
    it.store(st,Ptr(a[0].o,a[0].off+8),b,it.mkty((8,0,'i'))); return b
def m_hash_need(it,i,a,st):
    # the number of buckets is free as long as it is sufficient (load factor one): order of iteration is unspecified
    if not all(is_int(x) for x in a[1:4]): return NOTMODELLED
    n=a[2]+a[3]
    if n<=a[1] and a[1]>1: return Agg([0,0])
    b=_bkt(max(n,2*a[1],11))
    return NOTMODELLED if b is None else Agg([1,b])
def m_hash_bytes(it,i,a,st):
    x=bytes_at(it,st,a[0],a[1])
    if x is None: return NOTMODELLED
    h=1469598103934665603
    for b in x: h=(h^b)*1099511628211&(2**63-1)
    return h
_PR='_ZNKSt8__detail20_Prime_rehash_policy'
DEFAULT_MODELS.update({_PR+'11_M_next_bktEm':m_hash_next,_PR+'14_M_need_rehashEmmm':m_hash_need,'_ZSt11_Hash_bytesPKvmm':m_hash_bytes,
 '_ZnwmRKSt9nothrow_t':m_alloc,'_ZnamRKSt9nothrow_t':m_alloc,'_ZdlPvRKSt9nothrow_t':m_free,'_ZdaPvRKSt9nothrow_t':m_free,
 '__cxa_throw':m_bottom,'__cxa_guard_release':m_none,'__cxa_guard_abort':m_none})

def _m_strto(I,i,a,st):
    x=cstr_at(I,st,a[0])
    if x is None: return NOTMODELLED
    import re
    m=re.match(rb'\s*[-+]?\d+',x)
    if len(a)>2 and a[2] not in(0,10): return NOTMODELLED
    if len(a)>1 and isinstance(a[1],Ptr): I.store(st,a[1],Ptr(a[0].o,a[0].off+(m.end() if m else 0)),PTRTY)
    return int(m.group()) if m else 0
for _n in ('strtol','strtoll','strtoul','strtoull','__isoc23_strtol','__isoc23_strtoll','__isoc23_strtoul','__isoc23_strtoull'): DEFAULT_MODELS[_n]=_m_strto
def m_errno(I,i,a,st):
    o=I.inputs.get('errno') or I.input_obj('errno')
    return Ptr(o,0)
DEFAULT_MODELS['__errno_location']=m_errno
def m_strchr(I,i,a,st):
    x=cstr_at(I,st,a[0])
    if x is None or not is_int(a[1]): return NOTMODELLED
    k=(x+bytes([0])).find(bytes([a[1]&255]))
    return NULL if k<0 else Ptr(a[0].o,a[0].off+k)
DEFAULT_MODELS['strchr']=m_strchr
