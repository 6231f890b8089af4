"""Which functions of the package write to what outlives a call: module globals, classes, class attributes."""
import ast
import inspect
import pkgutil
import importlib
import types

MUTATORS = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "update", "add", "discard", "setdefault", "sort", "reverse",
            "difference_update", "intersection_update", "symmetric_difference_update", "appendleft", "__setitem__", "__setattr__", "__delitem__"}


def modules():
    import pddl

    out = [pddl]
    for m in pkgutil.walk_packages(pddl.__path__, "pddl."):
        if m.name.endswith("__main__"):
            continue
        out.append(importlib.import_module(m.name))
    return out


def root(n):
    while isinstance(n, (ast.Attribute, ast.Subscript)):
        n = n.value
    return n


def locals_of(f):
    """Names bound in a function (parameters, assignments, loops, imports, nested functions)."""
    a = f.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    gl = set()
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and n is not f:
            out.add(n.name)
        elif isinstance(n, ast.alias):
            pass
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, ast.Global):
            gl |= set(n.names)
    return out - gl, gl


def scan(mod):
    """[(function, line, what)] of writes to what outlives a call."""
    tree = ast.parse(inspect.getsource(mod))
    out = []

    def shared(n, outer, cls, f):
        """Does the expression denote something that is not local to a call or an instance?"""
        r = root(n)
        if isinstance(r, ast.Call):
            return isinstance(r.func, ast.Name) and r.func.id in ("type", "globals", "vars") and len(r.args) < 2
        if not isinstance(r, ast.Name):
            return False
        if r.id in outer:
            if r.id == "cls" and cls is not None:
                return True
            # attributes of self that are attributes of the class, or the class of an object
            x = n
            while isinstance(x, (ast.Attribute, ast.Subscript)):
                if isinstance(x, ast.Attribute) and x.attr in ("__class__", "__globals__", "__defaults__", "__kwdefaults__"):
                    return True
                x = x.value
            return False
        return True

    def visit_fn(f, outer, cls, qual):
        loc, gl = locals_of(f)
        env = outer | loc
        for d in list(f.args.defaults) + [k for k in f.args.kw_defaults if k is not None]:
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp)):
                out.append((qual, d.lineno, "mutable default argument"))
        stack = list(f.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                visit_fn(n, env, cls, qual + "." + n.name)
                continue
            if isinstance(n, ast.ClassDef):
                visit_cls(n, env, qual + "." + n.name)
                continue
            if isinstance(n, ast.Global):
                out.append((qual, n.lineno, "global " + ", ".join(n.names)))
            if isinstance(n, ast.Nonlocal):
                out.append((qual, n.lineno, "nonlocal " + ", ".join(n.names)))
            ts = []
            if isinstance(n, ast.Assign):
                ts = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                ts = [n.target]
            elif isinstance(n, ast.Delete):
                ts = n.targets
            for t in ts:
                for u in ast.walk(t):
                    if isinstance(u, (ast.Attribute, ast.Subscript)) and isinstance(u.ctx, (ast.Store, ast.Del)) and shared(u, env, cls, f):
                        out.append((qual, n.lineno, ast.unparse(u)))
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and shared(n.func.value, env, cls, f):
                    out.append((qual, n.lineno, ast.unparse(n.func)))
                if isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and n.args and shared(n.args[0], env, cls, f):
                    out.append((qual, n.lineno, ast.unparse(n)))
            stack.extend(ast.iter_child_nodes(n))

    def visit_cls(c, outer, qual):
        for n in c.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                visit_fn(n, outer, c, qual + "." + n.name)
            elif isinstance(n, ast.ClassDef):
                visit_cls(n, outer, qual + "." + n.name)

    for n in tree.body:
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            visit_fn(n, set(), None, f"{mod.__name__}.{n.name}")
        elif isinstance(n, ast.ClassDef):
            visit_cls(n, set(), f"{mod.__name__}.{n.name}")
    return out


def class_containers(mod):
    """Mutable containers that are attributes of classes: written through an instance, they would be shared."""
    out = []
    for c in vars(mod).values():
        if isinstance(c, type) and c.__module__ == mod.__name__:
            for k, v in vars(c).items():
                if isinstance(v, (list, dict, set)) and not k.startswith("__") and not k.startswith("_member") and not k.startswith("_value2"):
                    out.append(f"{c.__module__}.{c.__qualname__}.{k}")
    return out


def caches(mod):
    """Functions that remember their results."""
    out = []
    for x in vars(mod).values():
        if type(x).__name__ == "_lru_cache_wrapper":
            out.append(f"{x.__module__}.{x.__qualname__}")
        if isinstance(x, type) and x.__module__ == mod.__name__:
            for y in vars(x).values():
                y = getattr(y, "fget", y)
                y = getattr(y, "__func__", y)
                if type(y).__name__ in ("_lru_cache_wrapper", "cached_property"):
                    out.append(f"{x.__module__}.{x.__qualname__}")
    return sorted(set(out))
