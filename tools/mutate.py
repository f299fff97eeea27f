"""mutation harness: python3 mut.py MODPREFIX N SEED"""
import sys,random,ast,copy,os,shutil,time
sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.core import *
from collections import Counter
pref=sys.argv[1]; N=int(sys.argv[2]); seed=int(sys.argv[3])
rng=random.Random(seed)
eng=Engine('/verif/model','/repo')
funcs=[f for f in eng.ref.all_funcs() if f.qual.startswith(pref)]
def sites(fn):
    out=[]
    ann=set()
    for x in ast.walk(fn):
        for a in ([x.annotation] if getattr(x,'annotation',None) else [])+([x.returns] if getattr(x,'returns',None) else [])+list(getattr(x,'decorator_list',[])):
            ann|={id(y) for y in ast.walk(a)}
    for n in ast.walk(fn):
        if id(n) in ann: continue
        if isinstance(n,ast.BinOp):
            if isinstance(n.op,(ast.Add,ast.Sub,ast.Mult,ast.Div)): out.append((n,'binop'))
            out.append((n,'left'))
        elif isinstance(n,ast.Compare): out.append((n,'cmp'))
        elif isinstance(n,ast.If): out.append((n,'negif')); 
        elif isinstance(n,ast.Constant) and isinstance(n.value,(int,float)) and not isinstance(n.value,bool): out.append((n,'const'))
        elif isinstance(n,ast.Constant) and isinstance(n.value,bool): out.append((n,'bool'))
        elif isinstance(n,ast.Call):
            if len(n.args)>=2: out.append((n,'swap'))
            if len(n.args)==1 and not n.keywords: out.append((n,'unwrap'))
            if n.keywords: out.append((n,'dropkw'))
        elif isinstance(n,ast.UnaryOp): out.append((n,'unary'))
        elif isinstance(n,ast.BoolOp): out.append((n,'boolop'))
        elif isinstance(n,ast.Slice): out.append((n,'slice'))
        if hasattr(n,'body') and isinstance(n.body,list):
            for i,s in enumerate(n.body):
                if isinstance(s,(ast.Assign,ast.AugAssign,ast.Expr,ast.Raise,ast.Continue,ast.Break)) and not (isinstance(s,ast.Expr) and isinstance(s.value,ast.Constant)):
                    out.append(((n,i),'drop'))
                if isinstance(s,ast.AugAssign): out.append(((n,i),'aug'))
                if isinstance(s,ast.If): out.append(((n,i),'dropif'))
        if isinstance(n,ast.Name) and isinstance(n.ctx,ast.Load): out.append((n,'name'))
        if isinstance(n,ast.Attribute) and isinstance(n.ctx,ast.Load): out.append((n,'attr'))
    return out
def apply(fn,k,rng):
    n,kind=k
    if kind=='binop':
        new=rng.choice([o for o in (ast.Add,ast.Sub,ast.Mult,ast.Div) if not isinstance(n.op,o)]); n.op=new()
    elif kind=='left': n.right=ast.Constant(value=1) if isinstance(n.op,(ast.Mult,ast.Div,ast.Pow)) else ast.Constant(value=0)
    elif kind=='cmp':
        mp={ast.Lt:ast.LtE,ast.LtE:ast.Lt,ast.Gt:ast.GtE,ast.GtE:ast.Gt,ast.Eq:ast.NotEq,ast.NotEq:ast.Eq,ast.Is:ast.IsNot,ast.IsNot:ast.Is,ast.In:ast.NotIn,ast.NotIn:ast.In}
        n.ops[0]=mp[type(n.ops[0])]()
    elif kind=='negif': n.test=ast.UnaryOp(op=ast.Not(),operand=n.test)
    elif kind=='const': n.value=n.value+1
    elif kind=='bool': n.value=not n.value
    elif kind=='swap': n.args[0],n.args[1]=n.args[1],n.args[0]
    elif kind=='unwrap': 
        a=n.args[0]
        n.func=ast.Name(id='list',ctx=ast.Load()) if False else n.func
        repl(fn,n,a)
    elif kind=='dropkw': n.keywords.pop(rng.randrange(len(n.keywords)))
    elif kind=='unary': repl(fn,n,n.operand)
    elif kind=='boolop': n.op=ast.Or() if isinstance(n.op,ast.And) else ast.And()
    elif kind=='slice':
        n.lower=ast.Constant(value=1)
    elif kind=='drop':
        b,i=n; b.body[i]=ast.Pass()
    elif kind=='dropif':
        b,i=n; b.body[i:i+1]=b.body[i].body
    elif kind=='aug':
        b,i=n; s=b.body[i]; t=copy.deepcopy(s.target); b.body[i]=ast.Assign(targets=[t],value=s.value,lineno=1)
    elif kind=='name':
        names=sorted(({x.id for x in ast.walk(fn) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store) and x.id!=n.id}|{a.arg for a in fn.args.args if a.arg!='self'})-{n.id})
        if n.id not in {x.id for x in ast.walk(fn) if isinstance(x,ast.Name) and isinstance(x.ctx,ast.Store)}|{a.arg for a in fn.args.args}: return False
        if not names: return False
        n.id=rng.choice(names)
    elif kind=='attr':
        names=sorted({x.attr for x in ast.walk(fn) if isinstance(x,ast.Attribute) and x.attr!=n.attr and ast.dump(x.value)==ast.dump(n.value)})
        if not names: return False
        n.attr=rng.choice(names)
    return True
def repl(fn,a,b):
    class R(ast.NodeTransformer):
        def visit(self,n):
            if n is a: return b
            return super().generic_visit(n)
    R().visit(fn)
cnt=Counter(); bykind={}
t0=time.time(); slow=[]
show=os.environ.get('SHOW','')
done=0
while done<N:
    f=rng.choice(funcs)
    g=eng.cur_func(f.qual)
    orig=g.node
    node=copy.deepcopy(orig)
    ss=sites(node)
    if not ss: continue
    k=rng.choice(ss)
    try:
        if not apply(node,k,rng): continue
    except KeyError: continue
    if ast.dump(node)==ast.dump(orig): continue
    ast.fix_missing_locations(node)
    done+=1
    g2=Func(g.qual,node,g.module,g.cls)
    # swap in
    if g.cls is not None:
        key=[a for a,b in g.cls.methods.items() if b is g][0]; d=g.cls.methods
    else: key=g.name; d=g.module.funcs
    d[key]=g2; eng.cur._find={}; eng.cur._methods_by_name=None; eng.cur._attrs_written=None
    t=time.time()
    eng._ident={}; eng._shallow={}; eng._v={}; eng._changed={f.qual}
    v=eng.verdict(f.qual)
    dt=time.time()-t
    if dt>5: slow.append((f.qual,dt))
    d[key]=g; eng.cur._find={}; eng.cur._methods_by_name=None; eng.cur._attrs_written=None
    cnt[v.status]+=1; bykind.setdefault(k[1],Counter())[v.status]+=1
    if v.status in show.split(','):
        import difflib
        print('----',v.status,k[1],f.qual,g.where,v.how)
        for l in difflib.unified_diff(ast.unparse(orig).split('\n'),ast.unparse(node).split('\n'),lineterm='',n=0):
            if l[:2] not in('--','++','@@'): print('    ',l)
        for x in v.notes[:2]: print('      note',x[:300])
print(cnt,time.time()-t0); 
for k,v in bykind.items(): print(k,dict(v))
print('slow',slow)
