"""C18: a set, a drill list or a join's field list is exactly the fields it adds minus the fields it takes away."""
from contracts.lib import dim, measure, mk_project, model_dict, view_dict
from pyvc.api import contract

S = "metrics_layer.core.model.set:Set."
FN = [S + "field_names", S + "_internal_get_fields_from_set", S + "_get_view_name", "metrics_layer.core.model.project:Project.get_set", "metrics_layer.core.model.project:Project.sets",
      "metrics_layer.core.model.view:View.list_sets"]


def qualified(name, view):
    return name if "." in name else view + "." + name


def lower_field(name):
    v, f = name.split(".")
    return v + "." + f.lower()


class Items:
    """what a list of a set may hold: the text the user writes, and the names it adds or takes away"""

    def __init__(self, I):
        self.I, self.n = I, 0

    def name(self, mixed=False):
        self.n += 1
        return self.I.ident(f"field {self.n}", mixed=mixed)


def add(view, name):
    return ("a_v." if view is None else view + ".") + name.lower()


def minus(added, removed):
    out = []
    for x in added:
        if x not in removed and x not in out:
            out.append(x)
    return out


SHAPES = [
    ["own"], ["other"], ["own", "own"], ["own", "other", "own"], ["own", "own", "-own"], ["-own", "own", "own"], ["own", "other", "-other"], ["other", "own", "-own", "-other"],
    ["inner*"], ["own", "inner*"], ["inner*", "own", "-own"], ["inner*", "-inner*"], ["own", "own", "-inner*"], ["b_v.inner*"], ["inner*", "b_v.inner*"], ["outer*", "-b_v.inner*"],
    ["only_b*"], ["only_b*", "own", "-only_b*"], ["nowhere*", "own"], ["own", "-nowhere*"], ["ALL_FIELDS*"], ["ALL_FIELDS*", "-own"], ["ALL_FIELDS*", "-inner*"], ["ALL_FIELDS*", "other", "-ALL_FIELDS*"],
    ["outer*", "own"], ["-inner*", "inner*", "own"], ["-inner*", "outer*"], ["-b_v.inner*", "own", "outer*"], ["-other", "b_v.inner*", "other"], ["-ALL_FIELDS*", "ALL_FIELDS*", "other"],
]


def shop(I, fields=()):
    """two views, both with a set called inner, one of each with a set of another name"""
    n = [I.ident(f"listed {k}") for k in range(4)]
    a_sets = [{"name": "inner", "fields": [n[0], n[1], "-" + n[2]]}, {"name": "outer", "fields": ["inner*", "b_v." + n[2], "b_v.inner*"]}]
    b_sets = [{"name": "inner", "fields": [n[3]]}, {"name": "only_b", "fields": ["inner*", "a_v." + n[3]]}]
    p = mk_project([
        view_dict("b_v", [dim("id", primary_key=True), dim("z")], sets=b_sets),
        view_dict("a_v", [dim("id", primary_key=True), dim("hid", hidden=True), {"name": "made", "field_type": "dimension_group", "type": "time", "timeframes": ["raw", "week"], "sql": "${TABLE}.made"},
                          {"name": "wait", "field_type": "dimension_group", "type": "duration", "intervals": ["day"], "sql_start": "${TABLE}.a", "sql_end": "${TABLE}.b"}, measure("s"), measure("hm", hidden=True), *fields], sets=a_sets),
    ], models=[model_dict()])
    inner = minus(["a_v." + n[0], "a_v." + n[1]], ["a_v." + n[2]])
    b_inner = ["b_v." + n[3]]
    known = {
        "inner": inner, "b_v.inner": b_inner, "a_v.inner": inner, "outer": minus(inner + ["b_v." + n[2]] + b_inner, []), "only_b": minus(b_inner + ["a_v." + n[3]], []), "nowhere": [],
        "ALL_FIELDS": ["a_v.id", "a_v.hid", "a_v.made_raw", "a_v.made_week", "a_v.days_wait", "a_v.s", "a_v.hm"] + ["a_v." + f["name"] for f in fields],
    }
    return p, known


def written(I, shape, known, mixed=False):
    """the list the user writes for this shape, and the names it comes to"""
    texts, added, removed = [], [], []
    for k, kind in enumerate(shape):
        sign = "-" if kind[0] == "-" else ""
        what = kind[len(sign):]
        if what[-1] == "*":
            texts.append(kind)
            names = known[what[:-1]]
        else:
            name = I.ident(f"field {k}", mixed=mixed)
            texts.append(sign + ("b_v." if what == "other" else "") + name)
            names = [("b_v." if what == "other" else "a_v.") + name.lower()]
        (removed if sign else added).extend(names)
    return texts, minus(added, removed)


@contract("C18", functions=FN, weight=2, doc=(
    "whatever the fields are called, a set lists, once each and in the order given, the fields it names and those of the sets it takes in, except the fields it takes away and those of the sets it "
    "takes away, wherever in the list that is written; unqualified names, of fields and of sets, are its own view's"))
def listed(I):
    shape = I.choice("list", SHAPES)
    p, known = shop(I)
    texts, want = written(I, shape, known)
    from metrics_layer.core.model.set import Set

    got = I.outcome(lambda: Set({"name": "x", "fields": texts, "view_name": "a_v"}, project=p).field_names())
    I.check_eq("fields", got.value, want)


@contract("C18", functions=FN, doc="a set of the project, asked for by name in its view, lists the same as written there, again and again")
def named(I):
    p, known = shop(I)
    view, name = I.choice("set", [("a_v", "inner"), ("a_v", "outer"), ("b_v", "inner"), ("b_v", "only_b"), (None, "only_b"), (None, "outer")])
    want = known[("b_v." if (view, name) == ("b_v", "inner") else "") + name]
    I.check_eq("fields", p.get_set(name, view_name=view).field_names(), want)
    I.check_eq("again", p.get_set(name, view_name=view).field_names(), want)
    I.check_eq("sets of the view", [s.name for s in p.sets("a_v")], ["inner", "outer"])
    I.check_eq("all sets", [s.name for s in p.sets()], ["inner", "only_b", "inner", "outer"])
    I.check("no such set", p.get_set(name, view_name="a_v" if name == "only_b" else "c_v") is None)


@contract("C18", functions=FN + ["metrics_layer.core.model.field:Field.drill_fields"], weight=2, doc=(
    "the drill fields of a field are the list it gives, read as a set of its view; a field that gives none has none"))
def drilled(I):
    shape = I.choice("list", [None] + [x for x in SHAPES if len(x) > 1])
    d = dim("d")
    p, known = shop(I, [d])
    texts, want = written(I, shape, known) if shape else (None, None)
    if shape:
        p.views()
        f = p.get_field("a_v.d")
        f._definition["drill_fields"] = texts
    else:
        f = p.get_field("a_v.d")
    got = I.outcome(lambda: f.drill_fields)
    I.check("answered", got.ok)
    I.check_eq("fields", got.value, want)
    I.check_eq("again", f.drill_fields, want)


@contract("C18", functions=FN, doc="letter case in a field name does not matter to a set: a field is added once and taken away however it is written")
def any_case(I):
    shape = I.choice("list", [["own", "own"], ["own", "own", "-own"], ["other", "-other"], ["ALL_FIELDS*", "-own"], ["inner*", "own"]])
    p, known = shop(I)
    texts, want = written(I, shape, known, mixed=True)
    from metrics_layer.core.model.set import Set

    got = I.outcome(lambda: Set({"name": "x", "fields": texts, "view_name": "a_v"}, project=p).field_names())
    I.check_eq("fields", got.value, want)


@contract("C18", functions=FN, doc="a field that is not in any view the list belongs to is refused, not guessed")
def no_view(I):
    from metrics_layer.core.model.set import Set

    p, known = shop(I)
    name = I.ident("field")
    sign = I.choice("sign", ["", "-"])
    got = I.outcome(lambda: Set({"name": "x", "fields": ["b_v." + name, sign + name]}, project=p).field_names())
    I.check("refused", not got.ok and got.exc_type == "QueryError")
    one = I.outcome(lambda: Set({"name": "x", "fields": ["b_v." + name]}, project=p).field_names())
    I.check_eq("qualified names need no view", one.value, ["b_v." + name])
