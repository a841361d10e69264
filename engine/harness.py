"""Shared frame of the checks: drivers, obligations, evidence, verdict."""
import json, multiprocessing, os, signal, sys, time, traceback
from . import build as B, absint as I, algebra as A, llvm as L

VERIF = B.VERIF
class Broken(Exception): pass     # an anchor vanished: the analysis gives no verdict

class Result:
    """abstract final state of one driver call"""
    def __init__(s, it, st, ret): s.it=it; s.st=st; s.ret=ret; s._ty={}
    def ty(s, k, w):
        t=s._ty.get((k,w))
        if t is None:
            t=s.it.mkty((w//8 if w>=8 else 1,0,k)); t.w=w; s._ty[(k,w)]=t
        return t
    def get(s, name, i, k='f', w=64):
        o=s.it.inputs[name] if isinstance(name,str) else name.o
        base=0 if isinstance(name,str) else name.off
        v=s.it.load(s.st, I.Ptr(o,base+i*(w//8) if isinstance(i,int) else s.it.oadd(base,A.mul(A.const(w//8),i))), s.ty(k,w))
        return I.term(v) if not isinstance(v,(I.Ptr,I.Null,I.FPtr,I.PIte)) else v
    def f64(s,name,i): return s.get(name,i)
    def f32(s,name,i): return s.get(name,i,'f',32)
    def mat(s,name,r,c,w=64,off=0): return [[s.get(name,off+i*c+j,'f',w) for j in range(c)] for i in range(r)]
    def vec(s,name,n,w=64,off=0): return [s.get(name,off+i,'f',w) for i in range(n)]
    def u64(s,name,i): return s.get(name,i,'i',64)
    def u16(s,name,i): return s.get(name,i,'i',16)

class Session:
    """several driver calls on one evolving abstract state"""
    def __init__(s,c,mods,models=None,pos=(),max_steps=30_000_000,cls=None,**kw):
        s.c=c; s.it=(cls or I.Interp)(mods,models=models,max_steps=max_steps,**kw); s.it.pos=pos; s.st=I.State(); s.r=Result(s.it,s.st,None); s.why=''
    def val(s,a):
        if isinstance(a,str): return I.Ptr(s.it.inputs.get(a) or s.it.input_obj(a),0)
        if isinstance(a,tuple):
            o=s.it.inputs.get(a[0]) or s.it.input_obj(a[0]); o.meta['esz']=a[1]; return I.Ptr(o,0)
        if a is None: return I.NULL
        return a
    def put(s,name,off,v,size=8,kd='i'):
        if name not in s.it.inputs: s.it.input_obj(name)
        s.st.wr(s.it.inputs[name]).cells[off]=(size,v,kd)
    def call(s,fn,*args):
        """False if no flow returns (a check of the code fails, or it never ends)"""
        try: s.ret,s.st=s.it.call(fn,[s.val(a) for a in args],s.st)
        except I.Bottom as e: s.why=str(e); s.ret=None; return False
        except I.Unsupported as e: s.why=f'a construct outside of the analysed language is used: {e}'; s.ret=None; return False
        except (AttributeError,TypeError,KeyError,IndexError,ValueError) as e:
            # a value of another kind than the rule needs reached one of its observers
            s.why=f'a value of an unexpected kind is used: {e}'; s.ret=None; return False
        finally: s.c.functions|=s.it.functions
        if isinstance(s.ret,A.T) and A.isc(s.ret) and s.ret.a[0].denominator==1: s.ret=int(s.ret.a[0])
        s.r.st=s.st
        return True
    def refused(s):
        """the last call ended in a failed check or fatal message on every flow (not in an invalid access or an analysis limit)"""
        return s.ret is None and s.why.startswith('no return') and all(b[0].startswith('no return') for b in s.it.bottoms)
    def get(s,name,i,k='f',w=64): return s.r.get(name,i,k,w)
    def int(s,name,i,w=64):
        v=s.get(name,i,'i',w)
        return int(v.a[0]) if isinstance(v,A.T) and A.isc(v) else v
    def fork(s): return s.st.fork()

def inmat(name,r,c,off=0): return [[A.var(f'{name}[{off+i*c+j}]') for j in range(c)] for i in range(r)]
def invec(name,n,off=0): return [A.var(f'{name}[{off+i}]') for i in range(n)]
def matmul(a,b):
    return [[sum((a[i][k]*b[k][j] for k in range(len(b))),A.ZERO) for j in range(len(b[0]))] for i in range(len(a))]
def ident(n): return [[A.ONE if i==j else A.ZERO for j in range(n)] for i in range(n)]

class Check:
    def __init__(self, pid, tier=None):
        self.pid=pid
        self.tier=tier or os.environ.get('VERIF_TIER','quick')
        self.seed=int(os.environ.get('VERIF_SEED','1') or 1)
        self.t0=time.time()
        self.obl=0; self.ok=0
        self.viol=[]      # (key, text)
        self.rules={}     # rule -> [n instances, text]
        self.functions=set()
        self.units=[]
        self.samples=[]
        self.notes=[]
        self.known=load_known(pid)
        self.knownhit=[]
    # ------------------------------------------------------------ drivers
    def driver(self, text, flags, name='driver'):
        m=B.load(None,flags,text,name); self.units.append(name); return m
    def source(self, rel, flags):
        m=B.load(os.path.join(B.REPO,rel),flags,None,rel); self.units.append(rel); return m
    def prefetch(self, jobs):
        """compile in parallel what driver()/source() will ask for: (repo path or None, flags, driver text or None)"""
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda j: B.compile_bc(os.path.join(B.REPO,j[0]) if j[0] else None, j[1], j[2]), jobs))
    def run(self, mods, fn, args, models=None, pos=(), setup=None, max_steps=3_000_000, **kw):
        it=I.Interp(mods,models=models,max_steps=max_steps,**kw)
        it.pos=pos
        vals=[]
        for a in args:
            if isinstance(a,str): 
                o=it.inputs.get(a) or it.input_obj(a); vals.append(I.Ptr(o,0))
            elif isinstance(a,tuple): # (name, esz)
                o=it.inputs.get(a[0]) or it.input_obj(a[0]); o.meta['esz']=a[1]; vals.append(I.Ptr(o,0))
            elif a is None: vals.append(I.NULL)
            else: vals.append(a)
        st=I.State()
        if setup: st=setup(it,st) or st
        ret,st=it.call(fn,vals,st)
        self.functions|=it.functions
        return Result(it,st,ret)
    def session(self, mods, models=None, pos=(), **kw): return Session(self,mods,models,pos,**kw)
    # ------------------------------------------------------------ obligations
    def rule(self, name, text): self.rules.setdefault(name,[0,text])
    def holds(self, rule, cond, key, text, sample=None):
        self.obl+=1
        r=self.rules.setdefault(rule,[0,'']); r[0]+=1
        if cond:
            self.ok+=1
            if sample and len(self.samples)<12: self.samples.append(sample)
        else:
            self.violation(rule,key,text)
        return bool(cond)
    def violation(self, rule, key, text):
        for kf in self.known:
            if kf['key']==f'{rule}:{key}':
                self.knownhit.append(kf); return
        self.viol.append((f'{rule}:{key}',text))
    def same(self, rule, key, a, b, where, pos=(), env=None, prune=None, tol=None):
        """a and b are the same value for all inputs"""
        try: r=A.equal(a,b,pos,env,prune,tol)
        except A.TooBig: raise Broken(f'{rule} {key}: normal form too large')
        if r is None:
            return self.holds(rule,True,key,'',f'{rule} {key}: {A.show(A.lift(b),4)}')
        c,p=r
        return self.holds(rule,False,key,f'{where}: {self.rules.get(rule,[0,""])[1] or rule} -- {key}: computed - expected = {A.p_show(p,5)} when {A.env_show(c.env)}')
    def samemat(self, rule, key, a, b, where, **kw):
        for i,(x,y) in enumerate(zip(a,b)):
            for j,(u,v) in enumerate(zip(x,y)):
                if not self.same(rule,f'{key}[{i}][{j}]',u,v,where,**kw): return False
        return True
    def need(self, cond, text):
        if not cond: raise Broken(text)
    # ------------------------------------------------------------ verdict
    def finish(self, explanation, assumptions=(), min_obl=1):
        for n,(k,t) in self.rules.items():
            if k==0 and not self.viol: raise Broken(f'rule {n} matched no instance')
        if self.obl<min_obl and not self.viol: raise Broken(f'only {self.obl} obligations, expected at least {min_obl}')
        wall=time.time()-self.t0
        ev={'property':self.pid,'tier':self.tier if self.tier in('quick','thorough') else 'quick','seed':self.seed,'level':'other',
            'coverage':{'explanation':explanation,'obligations':self.obl,'discharged':self.ok,
                        'functions_analysed':len(self.functions),'units':sorted(set(self.units))[:60],
                        'rules':{n:{'instances':k,'rule':t} for n,(k,t) in self.rules.items()},
                        'samples':self.samples[:8] or ['none'],
                        'known_findings':[k['key'] for k in self.knownhit]},
            'assumptions':list(assumptions),'wall_s':round(wall,2),'violations':len(self.viol)}
        os.makedirs(os.path.join(VERIF,'evidence'),exist_ok=True)
        json.dump(ev,open(os.path.join(VERIF,'evidence',self.pid+'.json'),'w'),indent=1)
        print(f'{self.pid}: {self.obl} obligations, {self.ok} discharged, {len(self.functions)} functions, {len(self.rules)} rules, {wall:.1f} s')
        for n,(k,t) in self.rules.items(): print(f'  rule {n}: {k} instances')
        seen=set()
        for k in self.knownhit:
            if k['key'] in seen: continue
            seen.add(k['key'])
            print(f'KNOWN-FINDING: property={self.pid} {k["what"]}')
        if self.viol:
            rp=os.path.join(VERIF,'evidence',self.pid+'.violation.txt')
            with open(rp,'w') as f:
                for k,t in self.viol: f.write(f'{k}\n  {t}\n')
            for k,t in self.viol[:12]: print(f'  {k[:200]}\n    {t[:700]}')
            print(f'VIOLATION property={self.pid} replay={rp}')
            return 1
        return 0

def load_known(pid):
    p=os.path.join(VERIF,'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('findings',[]) if k['property']==pid]

class TimeUp(BaseException): pass
def main(pid, body):
    """run a check body; anything but a verdict is an error exit (2)"""
    if len(sys.argv)>1 and sys.argv[1] in('quick','thorough'): os.environ['VERIF_TIER']=sys.argv[1]
    c=Check(pid)
    if c.tier!='thorough':
        def up(*a):
            for p in multiprocessing.active_children(): p.kill()
            raise TimeUp('the analysis of the current code does not end within its time (unmodified: less than a tenth of it)')
        signal.signal(signal.SIGALRM,up); signal.alarm(700)
    try:
        rc=body(c)
    except SystemExit: raise
    except BaseException as e:
        if not c.viol and c.functions and isinstance(e,(TimeUp,TypeError,AttributeError,KeyError,IndexError,ValueError,I.Unsupported,I.Bottom)):
            # the rules take every value the code can produce on the tree they were written for
            tb=traceback.extract_tb(e.__traceback__)[-1]
            c.violation('analysis','values',f'a value or construct of an unexpected kind reaches the rules, the property cannot be shown: {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})')
        if c.viol:
            # what was decided before the analysis stopped stands
            print(f'analysis stopped early: {type(e).__name__}: {e}')
            c.rules={n:v for n,v in c.rules.items() if v[0]}
            sys.exit(c.finish('stopped early after violations were found',min_obl=0))
        traceback.print_exc()
        print(f'ANALYSIS-BROKEN property={pid}: {type(e).__name__}: {e}')
        sys.exit(2)
    sys.exit(2 if rc is None else rc)
