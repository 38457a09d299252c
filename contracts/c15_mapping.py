"""C15: a mapping name in a query stands for the one of its fields that belongs to the query, wherever it is used."""
from contracts.lib import conn, dim, measure, mk_project, model_dict, plain_value, view_dict
from pyvc.api import contract

from metrics_layer.core.model.model import SPECIAL_MAPPING_VALUES

R = "metrics_layer.core.sql.resolve:SQLQueryResolver."
P = "metrics_layer.core.model.project:Project."
FN = [R + x for x in ("_resolve_mapped_fields", "_replace_mapped_field", "_replace_dict_or_literal", "determine_field_to_replace_with", "_join_graphs_by_type",
                      "_handle_invalid_merged_result", "_get_field_from_lookup")] + [P + "get_mapped_field", "metrics_layer.core.model.model:Model.mappings"]
DATES = sorted(SPECIAL_MAPPING_VALUES)


def date(name, sql=None, **kw):
    return {"name": name, "field_type": "dimension_group", "type": "time", "datatype": "timestamp", "timeframes": DATES, "sql": sql or "${TABLE}." + name, **kw}


def column(I, name):
    return I.str(name + " before", exclude="${}\n%") + "(${TABLE}.c" + I.str(name + " after", exclude="${}\n%") + ")"


def shop(I, fields, **more):
    """orders of customers, and visits nothing links to them; the mapping named place has the given fields"""
    c = {n: column(I, n) for n in ("region", "country", "zone")}
    ms = {"s": measure("s"), "top": measure("top", "max", "${TABLE}.s", canon_date="sent"), "n": measure("n", "count", "${id}")}
    return mk_project([
        view_dict("a_v", [dim("id", primary_key=True), dim("region", c["region"]), dim("place_2"), dim("cust"), date("made"), date("sent"), *ms.values()],
                  default_date="made", identifiers=[{"name": "k", "type": "foreign", "sql": "${cust}"}]),
        view_dict("c_v", [dim("id", primary_key=True), dim("country", c["country"]), date("born"), measure("worth")],
                  default_date="born", identifiers=[{"name": "k", "type": "primary", "sql": "${id}"}]),
        view_dict("b_v", [dim("id", primary_key=True), dim("zone", c["zone"]), date("seen"), measure("t")], default_date="seen"),
    ], models=[model_dict(mappings={"place": {"fields": list(fields)}, **more})])


def W(field, expression, value):
    return {"field": field, "expression": expression, "value": value}


def same(I, project, query, user=None):
    """the query written with mapping names is answered as the one written with the fields; `query` maps a naming to a request"""
    asked, meant = query(lambda name, field: name), query(lambda name, field: field)
    got = I.outcome(lambda: conn(project, user).get_sql_query(query_type="SNOWFLAKE", **asked))
    want = I.outcome(lambda: conn(project, user).get_sql_query(query_type="SNOWFLAKE", **meant))
    I.check("the field can be asked for", want.ok)
    I.check_eq("sql", got.value, want.value)


# the mapping's fields, and for each measure the one it stands for: the first that can be joined to the measure without leaving its rows' view group
LISTS = [
    (["a_v.region", "c_v.country", "b_v.zone"], {"s": "a_v.region", "t": "b_v.zone", "worth": "a_v.region"}),
    (["b_v.zone", "c_v.country", "a_v.region"], {"s": "c_v.country", "t": "b_v.zone", "worth": "c_v.country"}),
    (["b_v.zone", "a_v.region"], {"s": "a_v.region", "t": "b_v.zone", "worth": "a_v.region"}),
    (["c_v.country"], {"s": "c_v.country", "worth": "c_v.country"}),
]


@contract("C15", functions=FN, weight=3, doc=(
    "a query with a mapping name is the query with the mapping's first field that can be joined with the query's measures in its place, in every use at once: "
    "selected, filtered, in a filter group, and ordered by, in any letter case"))
def stands_for(I):
    fields, meant = I.choice("mapping", LISTS)
    m = I.choice("measure", sorted(meant))
    name = I.choice("written", ["place", "Place"])
    use = I.choice("use", ["selected", "filtered", "in a group", "ordered", "everywhere"])
    v, w = plain_value(I, "value"), plain_value(I, "other value")
    p = shop(I, fields)
    field = meant[m]

    def query(at):
        f = at(name, field)
        q = {"metrics": [m], "dimensions": [], "where": [], "order_by": []}
        if use in ("selected", "ordered", "everywhere"):
            q["dimensions"] = [f]
        if use in ("filtered", "everywhere"):
            q["where"].append(W(f, "equal_to", v))
        if use in ("in a group", "everywhere"):
            q["where"].append({"logical_operator": "OR", "conditions": [W(f, "not_equal_to", w), {"logical_operator": "AND", "conditions": [W(f, "is_null", None), W(f, "equal_to", v)]}]})
        if use in ("ordered", "everywhere"):
            q["order_by"] = [{"field": m, "sort": "asc"}, {"field": f, "sort": "desc"}]
        return q

    same(I, p, query)


@contract("C15", functions=FN, weight=3, doc=(
    "a date name without a field means the date of the query's first measure, in that timeframe, whichever of its view's dates that is"))
def dates(I):
    m, day = I.choice("measure", [("s", "a_v.made"), ("top", "a_v.sent"), ("worth", "c_v.born"), ("t", "b_v.seen")])
    frame = I.choice("timeframe", DATES)
    use = I.choice("use", ["selected", "everywhere"])
    v = plain_value(I, "value")
    p = shop(I, ["a_v.region"])

    def query(at):
        f = at(frame, day + "_" + frame)
        q = {"metrics": [m], "dimensions": [f]}
        if use == "everywhere":
            q["where"] = [W(f, "greater_than", v), {"logical_operator": "OR", "conditions": [W(f, "less_than", v), W(f, "is_null", None)]}]
            q["order_by"] = [{"field": f}]
        return q

    same(I, p, query)


@contract("C15", functions=FN, doc=(
    "without a measure a date name means the date of the dimensions' view, the one with the most measures when there are several; "
    "a name used only in the filter follows the dimensions too"))
def dates_of_dimensions(I):
    dims, day = I.choice("dimensions", [(["a_v.region"], "a_v.made"), (["c_v.country"], "c_v.born"), (["c_v.country", "a_v.region"], "a_v.made"), (["a_v.region", "c_v.country"], "a_v.made"), (["b_v.zone"], "b_v.seen")])
    frame = I.choice("timeframe", ["date", "month"])
    use = I.choice("use", ["selected", "filtered"])
    v = plain_value(I, "value")
    p = shop(I, ["a_v.region"])

    def query(at):
        f = at(frame, day + "_" + frame)
        return {"metrics": [], "dimensions": dims + ([f] if use == "selected" else []), "where": [W(f, "greater_than", v)] if use == "filtered" else []}

    same(I, p, query)


@contract("C15", functions=FN, weight=2, doc=(
    "a mapping of measures stands for the one that goes with the query's dimensions, also in a filter on measures and in the order"))
def measures(I):
    dims, m = I.choice("dimensions", [(["a_v.region"], "a_v.s"), (["b_v.zone"], "b_v.t"), (["c_v.country"], "a_v.s"), (["b_v.seen_month"], "b_v.t")])
    order = I.choice("mapping", [["a_v.s", "b_v.t"], ["b_v.t", "a_v.s"]])
    use = I.choice("use", ["selected", "everywhere"])
    k = I.int("bound")
    p = shop(I, ["a_v.region", "b_v.zone"], much={"fields": order})

    def query(at):
        f = at("much", m)
        q = {"metrics": [f], "dimensions": list(dims)}
        if use == "everywhere":
            q["having"] = [W(f, "greater_than", k), {"logical_operator": "OR", "conditions": [W(f, "less_than", k), W(f, "equal_to", k)]}]
            q["order_by"] = [{"field": f, "sort": "desc"}]
        return q

    same(I, p, query)


@contract("C15", functions=FN, doc="several mapping names of one query stand for fields each of its own, next to one another")
def several(I):
    m, f = I.choice("measure", [("s", ("a_v.region", "a_v.place_2", "a_v.made")), ("t", ("b_v.zone", "b_v.id", "b_v.seen"))])
    names = I.choice("order", [[0, 1, 2], [2, 0, 1], [1, 2, 0]])
    v = plain_value(I, "value")
    p = shop(I, ["a_v.region", "b_v.zone"], spot={"fields": ["b_v.id", "a_v.place_2"]})

    def query(at):
        x = [at("place", f[0]), at("spot", f[1]), at("month", f[2] + "_month")]
        return {"metrics": [m], "dimensions": [x[i] for i in names], "where": [W(x[i], "not_equal_to", v) for i in names[:2]], "force_group_by": True}

    same(I, p, query)


@contract("C15", functions=FN, doc="a query of mapping names alone uses the mapping's first field, or fields that belong together when there are several")
def alone(I):
    names, fields, mapping = I.choice("query", [
        (["place"], ["a_v.region"], ["a_v.region", "b_v.zone"]), (["place"], ["b_v.zone"], ["b_v.zone", "a_v.region"]),
        (["place", "spot"], ["b_v.zone", "b_v.id"], ["c_v.country", "b_v.zone"]), (["spot", "place"], ["b_v.id", "b_v.zone"], ["b_v.zone", "c_v.country"]),
    ])
    p = shop(I, mapping, spot={"fields": ["b_v.id"]})
    v = plain_value(I, "value")

    def query(at):
        x = [at(n, f) for n, f in zip(names, fields)]
        return {"metrics": [], "dimensions": x, "where": [W(x[0], "equal_to", v)]}

    same(I, p, query)


@contract("C15", functions=FN, doc="a mapping none of whose fields can be joined or merged with the query is refused, never dropped or answered from elsewhere")
def refused(I):
    m, fields = I.choice("query", [("t", ["a_v.place_2"]), ("s", ["b_v.id"]), ("t", ["c_v.id", "a_v.place_2"]), ("worth", ["b_v.id"])])
    use = I.choice("use", ["selected", "filtered", "ordered"])
    p = shop(I, fields)
    o = I.outcome(lambda: conn(p).get_sql_query(
        metrics=[m], dimensions=["place"] if use == "selected" else [], where=[W("place", "equal_to", "x")] if use == "filtered" else [],
        order_by=[{"field": "place"}] if use == "ordered" else [], query_type="SNOWFLAKE"))
    I.check("refused", not o.ok and o.exc_type == "QueryError")


CLAUSES = [
    "${%} = 'x'", "${%} = 'place'", "${%} = 'the place of it' or ${%} is null", "${%} = 'x' and ${a_v.place_2} <> 'place'", "${a_v.place_2} = ' place ' and not ${%} in ('place', 'a place')",
    "${a_v.place_2} = 'place_2.place' and (${%} > '-- place' or 1=1)", "${%} like '%place%'",
]
ORDERS = ["%", "% desc", "a_v.place_2 asc, % desc", "%, a_v.place_2", "s desc, % asc"]


@contract("C15", functions=FN + ["metrics_layer.core.sql.query_base:MetricsLayerQueryBase.parse_identifiers_from_clause"], kind="exhaustive", doc=(
    "in a filter or an order given as text the mapping name is replaced where it is a name, and only there: string values and longer names that contain it stay as they are"))
def texts(I):
    clause, order = I.choice("filter", [None] + CLAUSES), I.choice("order", [None] + ORDERS)
    p = shop(Fixed(), ["b_v.zone", "a_v.region"])

    def query(at):
        f = at("place", "a_v.region")
        q = {"metrics": ["s"], "dimensions": [f, "a_v.place_2"]}
        if clause:
            q["where"] = clause.replace("${%}", "${" + f + "}")
        if order:
            q["order_by"] = order.replace("%", f)
        return q

    same(I, p, query)


class Fixed:
    def str(self, name, **kw):
        return name.replace(" ", "_") + " "
