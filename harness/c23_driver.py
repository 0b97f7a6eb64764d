"""Executes scenarios through the Python module and records what it sees.
Usage: c23_driver.py DIR  (reads DIR/in.json, writes DIR/out.json)"""
import re
import gc
import json
import os
import sys

import vara_feature.constraint as C
import vara_feature.feature as F
import vara_feature.feature_model as FM
import vara_feature.feature_model_builder as FB
import vara_feature.fm_writer as W

DIR = sys.argv[1]


def churn():
    """Frees what is garbage and reuses the memory."""
    gc.collect()
    for n in (16, 24, 32, 48, 64, 96, 128, 256):
        [bytearray(b"\xee" * n) for _ in range(40)]


def s(x):
    """A name: a StringRef or a str."""
    return x if isinstance(x, str) else x.str()


def typed(x, t):
    assert type(x) is t, "%r is no %s" % (x, t.__name__)
    return x


def pos(p):
    if p is None:
        return None
    assert type(p) is F.LineColumnOffset
    return [typed(p.line_number, int), typed(p.column_offset, int), str(p)]


def loc(x):
    assert type(x) is F.Location
    assert (x == x) is True and (x == None) is False  # noqa
    return {"path": typed(x.path, str), "start": pos(x.start), "end": pos(x.end),
            "category": x.category.name, "text": typed(str(x), str)}


def node(x):
    if x is None:
        return None
    return s(x.name) if isinstance(x, F.Feature) else "<group>"


def anyorder(t):
    """The order of children is open (e.g., after merges): sorts the list in the text."""
    i = t.find("children: [")
    if i < 0:
        return t
    i += len("children: [")
    m = re.compile(r"\](?=\Z|,\n  minValue|,\n  values)").search(t, i)
    e = m.start() if m else len(t)
    parts = t[i:e].split(",")
    if parts[-1] == "":
        parts.pop()
    return t[:i] + "".join(p + "," for p in sorted(parts, key=lambda p: p.encode())) + t[e:]


def feature(f):
    parent = f.parent()
    kids = list(f.children())
    assert [id(k) for k in kids] == [id(k) for k in f]
    for k in kids:
        assert f.is_child(k) is True and k.is_parent(f) is True
        assert f.is_parent(k) is False and k.is_child(f) is False
        assert k.parent() is f
        if not isinstance(k, F.Feature):
            for m in k:
                assert m.parent() is k and k.is_child(m) is True
    locs = [loc(x) for x in f.locations]
    assert typed(f.hasLocations(), bool) == bool(locs)
    assert parent is None or f.is_parent(parent) is True
    return {"type": type(f).__name__, "name": s(f.name), "output": s(f.output_string), "root": typed(f.is_root(), bool),
            "optional": typed(f.is_optional(), bool), "locations": locs, "str": anyorder(typed(str(f), str)),
            "string": anyorder(f.to_string()) if hasattr(f, "to_string") else None, "parent": node(parent),
            "children": sorted(node(k) for k in kids),
            "groups": sorted(" ".join(sorted(node(m) for m in k)) for k in kids if not isinstance(k, F.Feature))}


def constraints(cs):
    out = []
    for c in cs:
        k = c.constraint
        d = [typed(str(c), str), typed(str(k), str), str(k.clone())]
        if isinstance(c, FM.MixedConstraint):
            d += [c.req.name, c.exprKind.name]
        out.append(d)
    return out


def model(m):
    if m is None:
        return None
    assert type(m) is FM.FeatureModel
    fs = list(m)
    assert len(m) == m.size()
    order = []
    for i, a in enumerate(fs):
        assert m.get_feature(s(a.name)) is a
        for j in range(max(0, i - 3), min(len(fs), i + 4)):
            b = fs[j]
            order.append([typed(a < b, bool), typed(a == b, bool)])
            if a == b:
                assert hash(a) == hash(b)
    assert m.get_feature("there is no such feature") is None
    assert m.get_root() is None or m.get_root() is fs[0]
    return {"name": s(m.name), "path": typed(m.path, str), "commit": typed(m.commit, str), "size": typed(m.size(), int),
            "root": node(m.get_root()), "features": [feature(f) for f in fs], "order": order,
            "bool": constraints(m.booleanConstraints), "nonbool": constraints(m.nonBooleanConstraints),
            "mixed": constraints(m.mixedConstraints)}


def make_pos(p):
    return None if p is None else F.LineColumnOffset(p[0], p[1])


def make_loc(d):
    n = d.get("args", 4)
    a = [d["path"], make_pos(d["start"]), make_pos(d["end"]), getattr(F.Location.Category, d["category"])]
    return F.Location(*a[:n])


def make_vals(v):
    return tuple(v["range"]) if isinstance(v, dict) else list(v)


def path(text, name="in.xml"):
    p = os.path.join(DIR, name)
    with open(p, "wb") as f:
        f.write(text.encode())
    return p


def op(m, o):
    """-> (model, result)"""
    k = o["op"]
    if k == "observe":
        return m, model(m)
    if k == "add":
        args = [m.get_feature(o["parent"]), o["name"]]
        if "values" in o:
            args.append(make_vals(o["values"]))
        args.append(o["opt"])
        if o["locs"] is not None:
            args.append([make_loc(x) for x in o["locs"]])
        return m, (m.add_numeric_feature if "values" in o else m.add_binary_feature)(*args)
    if k == "remove":
        f = m.get_feature(o["name"])
        return m, m.remove_feature(f, o["rec"]) if o["rec"] or len(o["name"]) % 2 else m.remove_feature(f)
    if k == "commit":
        m.commit = o["text"]
        return m, m.commit
    if k == "merge":
        other = m if o["with"] is None else FM.loadFeatureModel(path(o["with"], "other.xml"))
        r = m.merge_with(other, o["strict"]) if not o["strict"] or len(o["with"] or "") % 2 else m.merge_with(other)
        return (r or m), model(r)
    if k == "write":
        return m, W.FeatureModelXmlWriter(m).get_feature_model_as_string()
    if k == "write_file":
        p = os.path.join(DIR, "out.xml")
        r = W.FeatureModelXmlWriter(m).write_feature_model_to_file(p)
        t = None
        if os.path.exists(p):
            t = open(p, "rb").read().decode()
            os.unlink(p)
        return m, [typed(r, int), t]
    f = m.get_feature(o["f"])
    if k == "add_loc":
        return m, f.addLocation(make_loc(o["loc"]))
    ls = list(f.locations)
    if k == "upd_loc":
        old = ls[o["i"]] if o["i"] < len(ls) else F.Location("nowhere")
        return m, typed(f.updateLocation(old, make_loc(o["loc"])), bool)
    if k == "rm_loc":
        return m, f.removeLocation(ls[o["i"]] if o["i"] < len(ls) else F.Location("nowhere"))
    x = ls[o["i"]]
    if k == "set_path":
        x.path = o["text"]
    elif k == "set_cat":
        x.category = getattr(F.Location.Category, o["text"])
    elif k == "set_pos":
        p = getattr(x, o["which"])
        if p is None:
            return m, None
        p.line_number = o["at"][0]
        p.column_offset = o["at"][1]
    return m, loc(x)


def keep(p, o):
    """What is obtained from objects nobody holds any more."""
    def load():
        return FM.loadFeatureModel(p)
    out = []

    def see(make, show):
        x = make()
        churn()
        r = show(x)
        del x
        churn()
        out.append(r)
    n = o["feature"]
    see(lambda: load().name, s)
    see(lambda: load().get_root(), feature)
    see(lambda: load().get_feature(n), feature)
    see(lambda: load().get_feature(n).name, s)
    see(lambda: load().get_feature(n).output_string, s)
    see(lambda: load().get_feature(n).parent(), node)
    see(lambda: list(load()), lambda fs: [feature(f) for f in fs])
    see(lambda: list(load())[-1], feature)
    see(lambda: iter(load()), lambda it: [node(f) for f in it])
    see(lambda: next(iter(load())), feature)
    see(lambda: iter(load().get_root()), lambda it: sorted(node(f) for f in it))
    see(lambda: load().get_root().children(), lambda it: sorted(node(f) for f in it))
    see(lambda: list(load().get_root().children()), lambda fs: sorted(node(f) for f in fs))
    see(lambda: [x for x in load().get_root() if isinstance(x, F.Feature)][:1], lambda fs: len([feature(f) for f in fs]))
    see(lambda: load().get_feature(n).locations, lambda it: [loc(x) for x in it])
    see(lambda: list(load().get_feature(n).locations), lambda xs: [loc(x) for x in xs])
    see(lambda: [x.start for x in load().get_feature(n).locations], lambda ps: [pos(x) for x in ps])
    see(lambda: load().booleanConstraints, constraints)
    see(lambda: load().nonBooleanConstraints, constraints)
    see(lambda: load().mixedConstraints, constraints)
    see(lambda: [c.constraint for c in load().booleanConstraints], lambda cs: [str(c) for c in cs])
    see(lambda: [c.constraint.clone() for c in load().mixedConstraints], lambda cs: [str(c) for c in cs])
    see(lambda: W.FeatureModelXmlWriter(load()), lambda w: w.get_feature_model_as_string())
    see(lambda: load().merge_with(load(), False), lambda m: model(m)["size"])
    return out


def builder(o):
    b = FB.FeatureModelBuilder()
    log = []
    for c in o["calls"]:
        k, a = c[0], c[1:]
        if k == "constraint":
            x = cons(a[1])[1]
            if x is None:
                log.append(None)
                continue
            r = (b.add_boolean_constraint if a[0] == "bool" else b.add_non_boolean_constraint)(x)
        else:
            r = getattr(b, k)(*a)
        log.append(r is b)
        del r
    m = b.build_feature_model()
    del b
    churn()
    return [log, model(m)]


def cons(calls):
    """-> (builder, constraint)"""
    b = C.ConstraintBuilder()
    for c in calls:
        r = b if c[0] == "()" else getattr(b, c[0])(*c[1:])
        if c[0] == "()":
            r = b()
        assert r is b
    return b, b.build()


def constraint(o):
    x = cons(o["calls"])[1]
    churn()
    if x is None:
        return None
    assert type(x) is C.Constraint
    t = str(x)
    out = [t, str(x.clone())]
    c = x.clone()
    ks = [FM.BooleanConstraint(x), FM.NonBooleanConstraint(x),
          FM.MixedConstraint(x, getattr(FM.Req, o["req"]), getattr(FM.ExprKind, o["expr"]))]
    del x
    churn()
    out += [str(c)] + [str(k) for k in ks] + [str(k.constraint) for k in ks] + [ks[2].req.name, ks[2].exprKind.name]
    inner = ks[0].constraint
    del ks
    churn()
    return out + [str(inner)]


def standalone(o):
    """Features and locations that belong to no model."""
    out = []
    for d in o["features"]:
        a = [d["name"]]
        if d["kind"] == "root":
            f = F.RootFeature(*a)
        else:
            if d["kind"] == "numeric":
                a.append(make_vals(d["values"]))
            a.append(d["opt"])
            if d["locs"] is not None:
                a.append([make_loc(x) for x in d["locs"]])
                if d["out"] is not None:
                    a.append(d["out"])
            f = (F.NumericFeature if d["kind"] == "numeric" else F.BinaryFeature)(*a)
        out.append(feature(f))
        ps = [x.start for x in f.locations]
        nm = f.name
        del f
        churn()
        out.append([[pos(p) for p in ps], s(nm)])
    ls = [make_loc(x) for x in o["locations"]]
    out.append([loc(x) for x in ls])
    out.append([[typed(a == b, bool) for a in ls] for b in ls])
    ps = [x.start for x in ls]
    del ls
    churn()
    out.append([pos(p) for p in ps])
    out.append([[None if a is None else typed(a == b, bool) for a in ps] for b in ps])
    return out


def files(o):
    out = []
    for t in o["texts"]:
        p = os.path.join(DIR, "no.xml") if t is None else path(t, "f.xml")
        out.append([typed(FM.verifyFeatureModel(p), bool), model(FM.loadFeatureModel(p))])
    return out


def misuse(o):
    """Every call must raise an exception or return, and leave things usable."""
    m = FM.loadFeatureModel(path(o["xml"]))
    before = model(m)
    root = m.get_root()
    b = FB.FeatureModelBuilder()
    x = F.Location("p")
    bad = [lambda: m.get_feature(None), lambda: m.get_feature(5), lambda: m.get_feature(),
           lambda: m.add_binary_feature(None, "x", True), lambda: m.add_binary_feature(root, None, True),
           lambda: m.add_numeric_feature(root, "x", "12", True), lambda: m.add_numeric_feature(root, "x", [1.5], True),
           lambda: m.add_numeric_feature(root, "x", [2**70], True), lambda: m.add_numeric_feature(root, "x", None, True),
           lambda: m.remove_feature(None), lambda: m.remove_feature("A"), lambda: m.merge_with(None), lambda: m.merge_with(5),
           lambda: F.BinaryFeature(), lambda: F.BinaryFeature(None, True), lambda: F.NumericFeature("x", (1, 2, "3"), True),
           lambda: F.BinaryFeature("x", True, [None]), lambda: F.BinaryFeature("x", True, [5]),
           lambda: F.Location(None), lambda: F.Location(5), lambda: F.Location("p", 5), lambda: F.LineColumnOffset("1", 2),
           lambda: F.LineColumnOffset(2**40, 2), lambda: setattr(x, "start", None), lambda: setattr(x, "path", None),
           lambda: setattr(x, "category", 7), lambda: F.FeatureTreeNode(), lambda: F.Feature(), lambda: FM.FeatureModel(),
           lambda: FM.BooleanConstraint(None), lambda: FM.MixedConstraint(None, FM.Req.ALL, FM.ExprKind.POS),
           lambda: C.Constraint(), lambda: C.ConstraintBuilder().constant(2**70), lambda: C.ConstraintBuilder().feature(None),
           lambda: b.add_boolean_constraint(None), lambda: b.make_root(None), lambda: b.add_an_edge("a"),
           lambda: b.emplace_relationship("root", "AND"), lambda: b.emplace_relationship("root", ""),
           lambda: b.set_path(5), lambda: W.FeatureModelXmlWriter(None), lambda: W.FeatureModelXmlWriter(5),
           lambda: FM.loadFeatureModel(None), lambda: FM.loadFeatureModel(5), lambda: FM.verifyFeatureModel([]),
           lambda: root.addLocation(None), lambda: root.updateLocation(None, None), lambda: root.removeLocation(5),
           lambda: setattr(m, "commit", None), lambda: setattr(m, "name", "x"), lambda: root < 5, lambda: root.is_child(5)]
    out = []
    for i, f in enumerate(bad):
        try:
            f()
            out.append("call %d is accepted" % i)
        except Exception:
            pass
    assert model(m) == before, "misuse changes the model"
    assert FM.loadFeatureModel(DIR) is None and FM.verifyFeatureModel(DIR) is False
    w = W.FeatureModelXmlWriter(m)
    assert w.write_feature_model_to_file(os.path.join(DIR, "no", "dir", "x.xml")) != 0
    return out


def scenario(o):
    k = o["kind"]
    if k == "history":
        m = FM.loadFeatureModel(path(o["xml"]))
        out = [model(m)]
        for x in o["ops"]:
            m, r = op(m, x)
            out.append(r)
        return out
    if k == "keep":
        return keep(path(o["xml"]), o)
    return {"builder": builder, "constraint": constraint, "standalone": standalone, "files": files, "misuse": misuse}[k](o)


def main():
    out = []
    with open(os.path.join(DIR, "in.json")) as f:
        todo = json.load(f)
    for i, o in enumerate(todo):
        with open(os.path.join(DIR, "at"), "w") as f:
            f.write(str(i))
        try:
            out.append(scenario(o))
        except Exception as x:  # noqa
            import traceback
            out.append({"exception": traceback.format_exc()})
    with open(os.path.join(DIR, "out.json"), "w") as f:
        json.dump(out, f)


main()
