from contracts.lib import conn, dim, measure, mk_project, model_dict, view_dict
from pyvc.api import contract

P = "metrics_layer.core.model.project:Project."
FN = [P + "get_field", P + "_parse_field_and_view_name", P + "_matching_field_handler", P + "fields", "metrics_layer.core.model.field:Field.equal",
      "metrics_layer.core.model.field:Field.alias"]


def group(name, frames):
    return {"name": name, "field_type": "dimension_group", "type": "time", "timeframes": frames, "sql": "${TABLE}.g"}


def lag(name, intervals):
    return {"name": name, "field_type": "dimension_group", "type": "duration", "intervals": intervals, "sql_start": "${TABLE}.g", "sql_end": "${TABLE}.h"}


@contract("C09", functions=FN, weight=3, doc=(
    "looking a field up finds exactly the field of that name (letter case aside), restricted to the named view when one is given; time and duration groups "
    "answer to each of their timeframes and intervals and to nothing else; a name that several fields answer to is refused, as is one that none does"))
def get_field(I):
    n = [I.ident("n" + str(i), mixed=True) for i in range(5)]
    # hidden from a user's menu or not, a field is as much in the data model as any other
    h = [{"hidden": I.bool("hidden" + str(i))} for i in range(5)]
    p = mk_project([
        view_dict("a_v", [{**dim(n[0]), **h[0]}, {**group(n[1], ["raw", "month"]), **h[1]}, {**measure(n[4]), **h[4]}]),
        view_dict("b_v", [{**measure(n[2]), **h[2]}, {**lag(n[3], ["day", "hour"]), **h[3]}]),
    ])
    t = I.ident("asked", mixed=True)
    view = I.choice("view", [None, "a_v", "b_v"])
    how = I.choice("how", ["argument", "dotted", "both", "model"]) if view else "argument"
    low = [x.lower() for x in n]
    answers = [("a_v", low[0]), ("a_v", low[1] + "_raw"), ("a_v", low[1] + "_month"), ("a_v", low[4]), ("b_v", low[2]), ("b_v", "days_" + low[3]), ("b_v", "hours_" + low[3])]
    ask = t if view is None or how == "argument" else ("m." if how == "model" else "") + view + "." + t
    arg = view if how in ("argument", "both") else None
    o = I.outcome(lambda: p.get_field(ask, view_name=arg))
    found = [v + "." + a for v, a in answers if (view is None or v == view) and a == t.lower()]
    if len(found) == 1:
        I.check("found", o.ok and o.value.id() == found[0])
    elif len(found) > 1:
        I.check("ambiguous", not o.ok and o.exc_type == "QueryError")
    elif view and t.lower() == "count":
        I.check("default count", o.ok and o.value.id() == view + ".count" and o.value.type == "count")
    else:
        I.check("unknown", not o.ok and o.exc_type == "AccessDeniedOrDoesNotExistException")


def models():
    return [model_dict(name=n) for n in ("m", "w")]


@contract("C09", functions=FN + ["metrics_layer.core.sql.resolve:SQLQueryResolver._get_model_for_query", "metrics_layer.core.sql.resolve:SQLQueryResolver._derive_model",
                                 P + "views", P + "_all_views"], kind="exhaustive", doc=(
    "a query reads the field it names: in any letter case, qualified or not, an unqualified name only when one field has it; "
    "without a given model the fields' own model is used"))
def in_query(I):
    a, b, c = [I.choice(x, ["total", "Total_2", "cnt"]) for x in ("a", "b", "c")]
    p = mk_project([
        view_dict("a_v", [measure(a, sql="${TABLE}.x")]),
        view_dict("b_v", [measure(b, sql="${TABLE}.y")]),
        view_dict("c_v", [measure(c, sql="${TABLE}.z")], model_name="w"),
    ], models=models())
    owner = {"a_v": (a, "m", "x"), "b_v": (b, "m", "y"), "c_v": (c, "w", "z")}
    pick, form = I.choice("asked", ["a_v", "b_v", "c_v"]), I.choice("form", ["name", "NAME", "view.name"])
    n = owner[pick][0]
    ask = {"name": n, "NAME": n.upper(), "view.name": pick + "." + n}[form]
    kw = {"model_name": owner[pick][1]} if I.bool("model given") else {}
    o = I.outcome(lambda: conn(p).get_sql_query(metrics=[ask], dimensions=[], query_type="POSTGRES", **kw))
    found = [v for v in owner if owner[v][0].lower() == n.lower() and (form != "view.name" or v == pick)]
    if found == [pick]:
        I.check_eq("sql", o.value, "SELECT SUM(" + pick + "." + owner[pick][2] + ") as " + pick + "_" + n.lower() + " FROM t_" + pick + " " + pick + ";")
    else:
        I.check("refused", not o.ok)


@contract("C09", functions=["metrics_layer.core.sql.resolve:SQLQueryResolver._derive_model", "metrics_layer.core.sql.single_query_resolve:SingleSQLQueryResolver.parse_input"], doc=(
    "a query is refused when it mixes fields of two models, or names one field twice"))
def mixed(I):
    n = I.choice("n", ["total", "Total_2"])
    p = mk_project([view_dict("a_v", [measure(n), dim("d")]), view_dict("c_v", [measure("s"), dim("e")], model_name="w")], models=models())
    ms, ds = I.choice("query", [(["a_v.*", "s"], []), (["a_v.*"], ["e"]), (["s"], ["d"]), (["a_v.*", "a_v.*"], []), (["a_v.*"], ["d", "d"])])
    o = I.outcome(lambda: conn(p).get_sql_query(metrics=["a_v." + n if m == "a_v.*" else m for m in ms], dimensions=list(ds), query_type="POSTGRES"))
    I.check("refused", not o.ok and o.exc_type == "QueryError")
