"""Mechanical extraction: the source of /repo/copt/*.py is parsed on every run and executed with
symbolic stand-ins for its libraries.  The only changes made to the text: every `for` / `while`
statement is turned into an equivalent `while` driven by a loop handler (loops.py), break /
return inside loops notify it, and [e for v in it] becomes comp(lambda v: e, it).  Nothing else
is dropped or rewritten."""
import ast, os, types, builtins
import core, shims, loops
from core import Unsupported

REPO = os.environ.get("COPT_REPO", "/repo")


class Names(ast.NodeVisitor):
    """names assigned in a statement list (not inside nested functions)"""
    def __init__(self):
        self.out = []

    def add(self, n):
        if n not in self.out:
            self.out.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    def visit_Lambda(self, n): pass
    def visit_ListComp(self, n): pass
    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

    def visit_Import(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split(".")[0])
    visit_ImportFrom = visit_Import


def assigned(stmts):
    v = Names()
    for s in stmts:
        v.visit(s)
    return v.out


class Loops(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod, self.n = mod, 0
        self.stack = []
        self.infunc = 0

    def visit_FunctionDef(self, node):
        old, self.stack = self.stack, []
        self.infunc += 1
        node = self.generic_visit(node)
        self.infunc -= 1
        self.stack = old
        return node

    def visit_Lambda(self, node):
        return node

    def visit_ListComp(self, node):
        """[e for v in it] becomes a call that applies the element function along it"""
        self.generic_visit(node)
        if len(node.generators) == 1 and not node.generators[0].ifs and isinstance(node.generators[0].target, ast.Name) \
           and self.infunc and not any(isinstance(q, (ast.NamedExpr, ast.Yield)) for q in ast.walk(node.elt)):
            g = node.generators[0]
            lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=g.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=node.elt)
            call = ast.Call(func=ast.parse("__vc__.comp", mode="eval").body, args=[lam, g.iter], keywords=[])
            ast.copy_location(call, node)
            return ast.fix_missing_locations(call)
        return node

    def _sv(self):
        self.n += 1
        return "__L%d" % self.n

    def _gets(self, L, names):
        out = []
        for v in names:
            out += ast.parse("if %s.has(%r): %s = %s.get(%r)" % (L, v, v, L, v)).body
        return out

    def _loop(self, node, L, enter, names):
        self.stack.append(L)
        body = [self.visit(s) for s in node.body]
        body = [x for s in body for x in (s if isinstance(s, list) else [s])]
        self.stack.pop()
        orelse = [self.visit(s) for s in node.orelse]
        orelse = [x for s in orelse for x in (s if isinstance(s, list) else [s])]
        pre = ast.parse(enter).body
        w = ast.parse("while %s.head(locals()):\n    pass" % L).body[0]
        gets = self._gets(L, names)
        if isinstance(node, ast.For):
            item = ast.parse("__t = %s.item()" % L).body[0]
            item.targets = [node.target]
            w.body = gets + [item] + body
        else:
            c = ast.parse("if not (__c):\n    %s.stop()\n    continue" % L).body[0]
            c.test.operand = node.test
            w.body = gets + [c] + body
        w.orelse = gets + orelse
        res = pre + [w] + ast.parse("%s.after(locals())" % L).body
        for r in res:
            for q in ast.walk(r):
                if not hasattr(q, "lineno") or q.lineno is None:
                    pass
            ast.copy_location(r, node)
            ast.fix_missing_locations(r)
        return res

    def visit_For(self, node):
        L = self._sv()
        names = assigned(node.body + [ast.Assign(targets=[node.target], value=ast.Constant(0))])
        it = ast.unparse(node.iter)
        site = "%s:%d" % (self.mod, node.lineno)
        return self._loop(node, L, "%s = __vc__.enter(%r, %s, %r, locals())" % (L, site, it, names), names)

    def visit_While(self, node):
        L = self._sv()
        names = assigned(node.body)
        site = "%s:%d" % (self.mod, node.lineno)
        return self._loop(node, L, "%s = __vc__.enter_while(%r, %r, locals())" % (L, site, names), names)

    def visit_Break(self, node):
        if not self.stack:
            return node
        s = ast.parse("%s.brk(locals())" % self.stack[-1]).body[0]
        ast.copy_location(s, node)
        ast.fix_missing_locations(s)
        return [s, node]

    def visit_Return(self, node):
        self.generic_visit(node)
        if not self.stack:
            return node
        # the value is computed first, then every enclosing loop is left
        out = ast.parse("__r = 0").body
        out[0].value = node.value or ast.Constant(None)
        for L in self.stack:
            out += ast.parse("%s.ret(locals())" % L).body
        out += ast.parse("return __r").body
        for s in out:
            ast.copy_location(s, node)
            ast.fix_missing_locations(s)
        return out


class Loader:
    """the modules of copt, executed with symbolic libraries"""
    def __init__(self, E):
        self.E = E
        self.np = shims.build_numpy(E)
        self.sp = shims.build_scipy(E, self.np)
        self.sk = shims.build_sklearn(E)
        self.warn = shims.Warnings(E)
        self.mods = {}
        self.builtins = dict(vars(builtins))
        self.builtins.update(shims.BUILTINS)
        self.builtins["__import__"] = self._import
        self.vc = loops.Runtime(E)
        self.pkg = types.ModuleType("copt")
        self.pkg.__path__ = []

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        top = name.split(".")[0]
        if level > 0 or top == "copt":
            sub = name.split(".")[1:] if top == "copt" and level == 0 else (name.split(".") if name else [])
            if sub:
                m = self.load(sub[0])
                return m if fromlist else self.pkg
            for f in fromlist or ():
                setattr(self.pkg, f, self.load(f))
            return self.pkg
        root = {"numpy": self.np, "scipy": self.sp, "sklearn": self.sk, "warnings": self.warn}.get(top)
        if root is not None:
            if not fromlist:
                return root
            m = root
            for p in name.split(".")[1:]:
                m = getattr(m, p)
            return m
        if top == "collections":
            return shims.Collections
        if top in ("datetime", "time"):
            return shims.Clock(top)
        if top == "numba":
            raise ImportError("numba is not installed")
        return builtins.__import__(name, globals, locals, fromlist, level)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(REPO, "copt", name + ".py")
        src = open(path).read()
        tree = ast.parse(src)
        tree = Loops(name).visit(tree)
        ast.fix_missing_locations(tree)
        m = types.ModuleType("copt." + name)
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["__vc__"] = self.vc
        m.__dict__["__package__"] = "copt"
        m.__dict__["__name__"] = "copt." + name
        m.__dict__["__file__"] = path
        self.mods[name] = m
        exec(compile(tree, "<copt/%s.py>" % name, "exec"), m.__dict__)
        setattr(self.pkg, name, m)
        return m

    def __getattr__(self, n):
        return self.load(n)
