"""Entries of dictionaries and keyword arguments given a value of another name although a value of their own name is at hand."""
import ast


def words(s):
    return {x[:-1] if x.endswith("s") and len(x) > 3 else x for x in s.strip("_").lower().split("_") if x}


def at_hand(p, f):
    r = {a.arg for a in ast.walk(f.node) if isinstance(a, ast.arg)} | {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    if f.cls:
        r |= set(p.attr_stores(f.cls))
    return {x.strip("_") for x in r}


def name_of(v):
    while True:
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("copy", "tolist") and not v.args:
            v = v.func.value
        elif isinstance(v, ast.Subscript):
            v = v.value
        else:
            break
    if isinstance(v, ast.Name):
        return v.id
    if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name):
        return v.attr
    return None


def mixed(p, f, known=()):
    """(kind, name, given, node, total) where kind is "entry" or "keyword"; name None for each pair examined."""
    have = at_hand(p, f)
    for n in ast.walk(f.node):
        kind, prs, sib = None, (), ()
        if isinstance(n, ast.Dict):
            kind, prs = "entry", [(k.value, v) for k, v in zip(n.keys, n.values) if isinstance(k, ast.Constant)]
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].slice, ast.Constant):
            kind, prs = "entry", [(n.targets[0].slice.value, n.value)]
        elif isinstance(n, ast.Call):
            kind, prs = "keyword", [(k.arg, k.value) for k in n.keywords if k.arg]
        sib = {k for k, _ in prs if isinstance(k, str)} | set(f.params) | set(f.kwonly) | set(known)
        sib = {x.strip("_") for x in sib}
        for k, v in prs:
            w = name_of(v)
            if not isinstance(k, str) or w is None or k.strip("_") not in have:
                continue
            yield kind, None, None, n
            if not words(w) >= words(k) and not words(k) >= words(w) and w.strip("_") in sib:
                yield kind, k, w, n
