"""Which instance attributes of the package exist, and which change after construction (a syntactic scan of the current source).

Contracts start from an arbitrary state of the attributes they list. An attribute they do not list may, in a changed
tree, carry information from earlier calls: an obligation that depends on one is not discharged.
"""
import ast
import json
import os

MUT = {"append", "update", "setdefault", "pop", "popitem", "add", "extend", "insert", "clear", "remove", "discard", "sort", "fill", "reverse"}


def trees(repo):
    for d, ds, fs in os.walk(os.path.join(repo, "gym_anm")):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(".py"):
                with open(os.path.join(d, f), encoding="utf-8") as h:
                    try:
                        yield ast.parse(h.read())
                    except SyntaxError:
                        pass


def root_attr(x):
    """The attribute name whose content an access path reaches: self.a[k].b -> a."""
    while isinstance(x, (ast.Subscript, ast.Call)):
        x = x.value if isinstance(x, ast.Subscript) else x.func
        if isinstance(x, ast.Attribute) and x.attr in MUT | {"get"}:
            x = x.value
    return x.attr if isinstance(x, ast.Attribute) else None


def stores(fn):
    """Attributes assigned or whose content is modified in a function; local aliases of attributes are followed."""
    out, alias = set(), {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            a = root_attr(n.value)
            if a:
                alias.setdefault(n.targets[0].id, set()).add(a)
    def hit(x):
        a = root_attr(x)
        if a:
            out.add(a)
        while isinstance(x, (ast.Subscript, ast.Call)):
            x = x.value if isinstance(x, ast.Subscript) else x.func
        if isinstance(x, ast.Name):
            out.update(alias.get(x.id, ()))
    for n in ast.walk(fn):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.attr)
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            hit(n)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
            hit(n.func.value)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3:
            out.add(n.args[1].value if isinstance(n.args[1], ast.Constant) else "*")
    return out


def scan(repo):
    """(attributes assigned anywhere, attributes modified outside construction)"""
    funcs, calls, outside = [], {}, set()
    every = set()
    for t in trees(repo):
        inner = [n for n in ast.walk(t) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]
        funcs += inner
        seen = set()
        for f in inner:
            for n in ast.walk(f):
                if isinstance(n, ast.Call):
                    nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                    if nm:
                        calls.setdefault(nm, set()).add(f.name)
                        seen.add(id(n))
        for n in ast.walk(t):
            if isinstance(n, ast.Call) and id(n) not in seen:
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                if nm:
                    calls.setdefault(nm, set()).add("<module>")
    names = {f.name for f in funcs}
    ctor = {"__init__"}
    while True:
        new = {n for n in names - ctor if calls.get(n) and n.startswith("_") and calls[n] <= ctor}
        if not new:
            break
        ctor |= new
    for f in funcs:
        s = stores(f)
        every |= s
        if f.name not in ctor:
            outside |= s
    return every, outside


def reference():
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_attrs.json")
    return set(json.load(open(p))) if os.path.exists(p) else set()


if __name__ == "__main__":
    import sys
    e, o = scan(sys.argv[1] if len(sys.argv) > 1 else "/repo")
    print(json.dumps(sorted(o)))
