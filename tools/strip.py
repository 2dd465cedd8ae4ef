import ast,sys
src=open(sys.argv[1]).read()
t=ast.parse(src)
rm=set()
for n in ast.walk(t):
    if isinstance(n,(ast.Module,ast.ClassDef,ast.FunctionDef)):
        if n.body and isinstance(n.body[0],ast.Expr) and isinstance(n.body[0].value,ast.Constant) and isinstance(n.body[0].value.value,str):
            d=n.body[0]
            rm.update(range(d.lineno,d.end_lineno+1))
for i,l in enumerate(src.splitlines(),1):
    if i in rm or not l.strip() or l.startswith('#'): continue
    print(i,l)
