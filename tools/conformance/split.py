import ast,sys,copy
src=open(sys.argv[1]).read(); m=ast.parse(src); out=[]
for st in m.body:
    if isinstance(st,ast.FunctionDef) and st.name.startswith('c') and st.name[1:].isdigit() and isinstance(st.body[-1],ast.Return) and isinstance(st.body[-1].value,ast.Tuple):
        for i,e in enumerate(st.body[-1].value.elts):
            f=copy.deepcopy(st); f.name='%s_%d'%(st.name,i); f.body[-1].value=copy.deepcopy(e); out.append(f)
    else: out.append(st)
m.body=out
open(sys.argv[2],'w').write(ast.unparse(m))
