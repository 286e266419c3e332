import ast, sys, os, shutil
src='/repo/esp_idf_size'; dst=sys.argv[1]
which=set(sys.argv[2].split(',')) if len(sys.argv)>2 else {'priv','wrap','loop','inv','tmp'}
shutil.rmtree(dst,ignore_errors=True); shutil.copytree(src,dst+'/esp_idf_size',ignore=shutil.ignore_patterns('__pycache__'))
files=[f for f in os.listdir(src) if f.endswith('.py')]
trees={f:ast.parse(open(f'{src}/{f}').read()) for f in files}
# private function/method/global names
priv=set()
for t in trees.values():
    for n in ast.walk(t):
        if isinstance(n,(ast.FunctionDef,ast.ClassDef)) and n.name.startswith('_') and not n.name.startswith('__'): priv.add(n.name)
        if isinstance(n,ast.Attribute) and n.attr.startswith('_') and not n.attr.startswith('__') and isinstance(n.value,ast.Name) and n.value.id=='self': priv.add(n.attr)
print(len(priv),sorted(priv)[:80])
class Priv(ast.NodeTransformer):
    def r(self,x): return x+'_renamed' if x in priv else x
    def visit_FunctionDef(self,n): n.name=self.r(n.name); self.generic_visit(n); return n
    def visit_ClassDef(self,n): n.name=self.r(n.name); self.generic_visit(n); return n
    def visit_Name(self,n): n.id=self.r(n.id); return n
    def visit_Attribute(self,n): self.generic_visit(n); n.attr=self.r(n.attr); return n
    def visit_ImportFrom(self,n):
        for a in n.names: a.name=self.r(a.name)
        return n
class Wrap(ast.NodeTransformer):
    "module-level and method functions get an inner helper"
    def visit_FunctionDef(self,n):
        if any(isinstance(x,(ast.Yield,ast.YieldFrom)) for x in ast.walk(n)): return n
        if any(isinstance(x,ast.Nonlocal) or isinstance(x, ast.Global) for x in ast.walk(n)): return n
        if n.name=='__init__' or any('super' in ast.dump(x) for x in n.body): return n
        # parameters reassigned inside must be passed: inner takes same args
        doc=[]; body=n.body
        if body and isinstance(body[0],ast.Expr) and isinstance(body[0].value,ast.Constant) and isinstance(body[0].value.value,str): doc=body[:1]; body=body[1:]
        if not body: return n
        a=n.args
        inner_args=ast.arguments(posonlyargs=[],args=[ast.arg(x.arg) for x in a.posonlyargs+a.args+a.kwonlyargs]+([ast.arg(a.vararg.arg)] if a.vararg else [])+([ast.arg(a.kwarg.arg)] if a.kwarg else []),kwonlyargs=[],kw_defaults=[],defaults=[],vararg=None,kwarg=None)
        inner=ast.FunctionDef(name='inner_helper',args=inner_args,body=body,decorator_list=[],type_params=[])
        call=ast.Return(ast.Call(ast.Name('inner_helper',ast.Load()),[ast.Name(x.arg,ast.Load()) for x in inner_args.args],[]))
        n.body=doc+[inner,call]
        return n
cnt=[0]
class Loop(ast.NodeTransformer):
    "for x in y -> while with iterator (no else), list comps -> list(generator)"
    def visit_For(self,n):
        self.generic_visit(n)
        if n.orelse: return n
        cnt[0]+=1; it=f'it_{cnt[0]}'; s=f'end_{cnt[0]}'; v=f'val_{cnt[0]}'
        pre=[ast.Assign([ast.Name(it,ast.Store())],ast.Call(ast.Name('iter',ast.Load()),[n.iter],[])),ast.Assign([ast.Name(s,ast.Store())],ast.Call(ast.Name('object',ast.Load()),[],[]))]
        body=[ast.Assign([ast.Name(v,ast.Store())],ast.Call(ast.Name('next',ast.Load()),[ast.Name(it,ast.Load()),ast.Name(s,ast.Load())],[])),
              ast.If(ast.Compare(ast.Name(v,ast.Load()),[ast.Is()],[ast.Name(s,ast.Load())]),[ast.Break()],[]),
              ast.Assign([n.target],ast.Name(v,ast.Load()))]+n.body
        return pre+[ast.While(ast.Constant(True),body,[])]
    def visit_ListComp(self,n):
        self.generic_visit(n)
        return ast.Call(ast.Name('list',ast.Load()),[ast.GeneratorExp(n.elt,n.generators)],[])
class Inv(ast.NodeTransformer):
    def visit_If(self,n):
        self.generic_visit(n)
        if n.orelse: n.test,n.body,n.orelse=ast.UnaryOp(ast.Not(),n.test),n.orelse,n.body
        else: n.test,n.body,n.orelse=ast.UnaryOp(ast.Not(),n.test),[ast.Pass()],n.body
        return n
class Tmp(ast.NodeTransformer):
    def visit_Assign(self,n):
        self.generic_visit(n)
        if len(n.targets)==1 and isinstance(n.targets[0],(ast.Subscript,ast.Attribute)):
            cnt[0]+=1; t=f'tmp_{cnt[0]}'
            return [ast.Assign([ast.Name(t,ast.Store())],n.value),ast.Assign(n.targets,ast.Name(t,ast.Load()))]
        return n
    def visit_AugAssign(self,n):
        self.generic_visit(n)
        if isinstance(n.target,ast.Name): return ast.Assign([ast.Name(n.target.id,ast.Store())],ast.BinOp(ast.Name(n.target.id,ast.Load()),n.op,n.value)) if isinstance(n.value,(ast.Constant,)) else n
        return n
def infunc(t,T):
    for n in t.body:
        if isinstance(n,ast.FunctionDef): T.visit(n) if not isinstance(T,Wrap) else T.visit_FunctionDef(n)
        elif isinstance(n,ast.ClassDef):
            for m in n.body:
                if isinstance(m,ast.FunctionDef) and not m.decorator_list: T.visit(m) if not isinstance(T,Wrap) else T.visit_FunctionDef(m)
for f,t in trees.items():
    if 'loop' in which: infunc(t,Loop())
    if 'inv' in which: infunc(t,Inv())
    if 'tmp' in which: infunc(t,Tmp())
    if 'wrap' in which: infunc(t,Wrap())
    if 'priv' in which: Priv().visit(t)
    ast.fix_missing_locations(t)
    open(f'{dst}/esp_idf_size/{f}','w').write(ast.unparse(t))
