"""Datastore simulation shared by several checks: scenario generation.

Clients branch from common data, edit, and get steered: besides arbitrary
steps there are compound moves that go to a chosen place (a violated
constraint, a sensitive member) and change it there.
"""
from . import ops, ref, steps


def route(path):
    """Steps leading from the top to `path`."""
    return [["member", p] if isinstance(p, str) else ["entry", p]
            for p in path]


def fix_steps(g, root, v):
    """Steps repairing the violation `v` the way ref.Gen.repair does."""
    if v.fix[0] == "del":
        p = list(v.fix[1])
        return [["top"]] + route(p[:-1]) + [["del", p[-1]]]
    new = g.add_missing(root, list(v.fix[1]), v.fix[2])
    k, p = v.fix[2], list(v.fix[1])
    if k.kind == "choice":
        par = ref.get(new, p)
        m = [x for x in par if x not in ref.get(root, p)]
        return [["top"]] + route(p) + [["put", m[0], par[m[0]]]] if m else []
    if p and p[-1:] == [k.iname]:
        return [["top"]] + route(p) + [["update", ref.get(new, p)]]
    return [["top"]] + route(p) + [
        ["put", k.iname, ref.get(new, p + [k.iname])]]


def toggle_steps(r, root):
    """Steps changing one of the members that conditions depend on."""
    path, vals = r.choice(ops.TOGGLES)
    out, cur = [["top"]], root
    for p in path[:-1]:
        if p not in cur:
            out.append(["put", p, {}])
            cur = {}
        else:
            out.append(["member", p])
            cur = cur[p]
    if path[-1] in cur and r.random() < .3:
        out.append(["del", path[-1]])
    else:
        out.append(["put", path[-1], r.choice(vals)])
    return out


def spoil_steps(r, g, root):
    """Steps that replace or remove something small somewhere."""
    ps = [p for p in ref.all_paths(root) if p]
    if not ps:
        return []
    p = list(r.choice(ps))
    n, ent = steps.kind_at(root, p)
    if n is None:
        return []
    if r.random() < .4:
        return [["top"]] + route(p[:-1]) + [["del", p[-1]]]
    if n.kind == "leaf":
        v = n.type.bad(r) if r.random() < .5 else n.type.gen(r)
        if v is None or not ref.decodable(n, v):
            v = n.type.gen(r)
        return [["top"]] + route(p[:-1]) + [["put", p[-1], v]]
    if n.kind == "leaflist" and not ent:
        arr = ref.get(root, p)
        return [["top"]] + route(p) + [["update", arr + [
            r.choice(arr) if arr and r.random() < .5 else n.type.gen(r)]]]
    if n.kind == "list" and not ent:
        arr = ref.get(root, p)
        e = dict(r.choice(arr)) if arr else g.entry(n)
        if r.random() < .7:
            ks = [k for k in n.data if n.data[k][0].kind == "leaf"]
            k = r.choice(ks)
            e[k] = n.data[k][0].type.gen(r)
        return [["top"]] + route(p) + [["update", arr + [e]]]
    if n.kind in ("container", "list") and n.data:
        k = r.choice(list(n.data))
        return [["top"]] + route(p) + [["put", k, g.value(n.data[k][0])]]
    return []


def play(cur, sts):
    """Apply steps to the reference cursor; None if one is refused."""
    root, path = cur
    for st in sts:
        if st[0] == "del" and isinstance(st[1], str):
            v = ref.get(root, path)
            if isinstance(v, dict) and "@" + st[1] in v:
                return None         # would leave its annotation behind
        try:
            out = steps.apply_ref(root, path, st)
        except (KeyError, IndexError, TypeError):
            return None
        if not isinstance(out, steps.Ok):
            return None
        root, path = out.root, out.path
    return root, path


def gen_edits(r, g, ch, cur, ctype="config", p_fix=.35, p_toggle=.15,
              p_spoil=.15):
    """A list of steps for one client, and its new cursor."""
    x = r.random()
    sts = None
    if x < p_fix:
        errs = ref.validate(cur[0], ctype)
        if errs:
            sts = fix_steps(g, cur[0], r.choice(errs))
    elif x < p_fix + p_toggle:
        sts = toggle_steps(r, cur[0])
    elif x < p_fix + p_toggle + p_spoil:
        sts = spoil_steps(r, g, cur[0])
    if sts:
        new = play(cur, sts)
        if new is not None:
            return sts, new
    st = ch.step(*cur)
    new = play(cur, [st])
    if new is None:
        out = steps.apply_ref(cur[0], cur[1], st)
        if isinstance(out, steps.Skip):
            return [], cur
        return [st], cur
    return [st], new
