rm -rf /verif/model/spins; cd /repo
python3 - <<'PY'
import os,ast
for base,dirs,files in os.walk('/repo/spins'):
    dirs[:]=[d for d in dirs if d!='__pycache__']
    for f in files:
        if f.endswith('.py') and not f.startswith('test_') and not f.endswith('_test.py'):
            p=os.path.join(base,f); t=ast.parse(open(p).read())
            for n in ast.walk(t):
                if isinstance(n,(ast.FunctionDef,ast.ClassDef,ast.Module,ast.AsyncFunctionDef)) and n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant) and isinstance(n.body[0].value.value,str):
                    n.body=n.body[1:] or ([ast.Pass()] if not isinstance(n,ast.Module) else [])
            q=os.path.join('/verif/model',os.path.relpath(p,'/repo')); os.makedirs(os.path.dirname(q),exist_ok=True)
            open(q,'w').write(ast.unparse(ast.fix_missing_locations(t))+'\n')
PY
