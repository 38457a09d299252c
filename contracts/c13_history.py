import copy
import json
import os
import subprocess
import sys

from contracts.lib import conn, dim, measure, mk_project, model_dict, plain_value, view_dict
from pyvc.api import contract

R = "metrics_layer.core.sql.resolve:SQLQueryResolver."
P = "metrics_layer.core.model.project:Project."
FN = [R + "__init__", R + "_replace_mapped_field", R + "_clean_conditional_filter_syntax", R + "_apply_always_filter", R + "get_query"]


def date(name, frames=("raw", "date", "week", "month"), **kw):
    return {"name": name, "field_type": "dimension_group", "type": "time", "datatype": "timestamp", "timeframes": list(frames), "sql": "${TABLE}." + name, **kw}


def project():
    """a project with one of everything: grants, access and always filters, joins, mappings, merged, cumulative, non-additive, funnels"""
    grants = [{"name": "staff", "user_attribute": "dept", "allowed_values": ["hr"]}]
    flows = {"name": "place", "fields": ["a_v.region", "b_v.zone"], "group_by": []}
    return mk_project([
        view_dict("a_v", [
            dim("id", primary_key=True, tags=["customer"]), dim("region"), dim("cust"), dim("tier", "${TABLE}.amount", "tier", tiers=[1, 5]),
            dim("pay", required_access_grants=["staff"]), date("made"), date("order"),
            {"name": "wait", "field_type": "dimension_group", "type": "duration", "intervals": ["day", "hour"], "sql_start": "${made_raw}", "sql_end": "${order_raw}"},
            measure("s"), measure("avg_s", "average", "${TABLE}.s"), measure("n", "count"), measure("top", "max", canon_date="order"),
            measure("big", filters=[{"field": "region", "value": "-x"}]), measure("ratio", "number", "${s} / ${n}"),
            measure("mix", "number", "${s} / ${b_v.t}", is_merged=True), measure("own", "number", "${s} / ${top}", is_merged=True),
            {"name": "cum", "field_type": "measure", "type": "cumulative", "measure": "s"},
            measure("last", non_additive_dimension={"name": "made_raw", "window_choice": "max", "window_groupings": ["cust"]}),
        ], default_date="made", identifiers=[{"name": "c", "type": "foreign", "sql": "${cust}"}], access_filters=[{"field": "a_v.region", "user_attribute": "region"}],
            sets=[{"name": "few", "fields": ["region", "s"]}]),
        view_dict("c_v", [dim("cid", primary_key=True), dim("country"), date("born"), measure("heads", "count_distinct", "${cid}"), measure("worth")],
                  default_date="born", identifiers=[{"name": "c", "type": "primary", "sql": "${cid}"}],
                  always_filter=[{"field": "country", "value": "-null"}]),
        view_dict("b_v", [dim("id", primary_key=True), dim("zone"), date("done"), measure("t"), measure("n2", "count")], default_date="done"),
        view_dict("d_v", [dim("id", primary_key=True), dim("kind"), date("sent", ("raw", "month")), measure("weight")], default_date="sent", identifiers=[{"name": "e", "type": "foreign", "sql": "${TABLE}.e"}]),
        view_dict("e_v", [dim("eid", primary_key=True), dim("sort"), date("got", ("raw", "month")), measure("size")], default_date="got", identifiers=[{"name": "e", "type": "primary", "sql": "${eid}"}]),
    ], models=[model_dict(access_grants=grants, mappings={"place": flows})])


def W(field, expression, value):
    return {"field": field, "expression": expression, "value": value}


STEPS = {"steps": [[W("region", "equal_to", "a")], [W("region", "equal_to", "b")]], "within": {"value": 3, "unit": "days"}}
QUERIES = {
    "sum": dict(metrics=["s"], dimensions=["region"]),
    "join": dict(metrics=["s", "worth"], dimensions=["country"]),
    "always": dict(metrics=["s"], dimensions=["country"], where=[W("region", "isin", ["a", "b"])]),
    "mapped date": dict(metrics=["s"], dimensions=["month"]),
    "mapped date of b": dict(metrics=["t"], dimensions=["month"], order_by=[{"field": "month"}]),
    "mapped place": dict(metrics=["t"], dimensions=["place"], where=[W("place", "equal_to", "x")]),
    "merged": dict(metrics=["s", "t"], dimensions=["date"], where=[W("place", "equal_to", "x"), W("date", "greater_than", "2020-01-01")]),
    "merged measure": dict(metrics=["mix"], dimensions=["b_v.zone"], having=[W("s", "greater_than", 2)]),
    "own dates": dict(metrics=["own"], dimensions=["order_month"]),
    "cumulative": dict(metrics=["cum", "s"], dimensions=["made_week"], where=[W("made_date", "greater_than", "2020-01-01")]),
    "cumulative raw": dict(metrics=["cum"], dimensions=["made_raw"]),
    "non additive": dict(metrics=["last"], dimensions=["region"]),
    "non additive date": dict(metrics=["last", "s"], dimensions=["made_month"], where=[W("region", "not_equal_to", "q")]),
    "non additive fails": dict(metrics=["last"], dimensions=["b_v.zone"], single_query=True),
    "funnel": dict(metrics=["n"], dimensions=["region"], funnel=STEPS),
    "where funnel": dict(metrics=["n"], where=[{"field": "a_v.id", "expression": "converted", "from": "Step 1", "to": "Step 2", "funnel": STEPS}]),
    "rows": dict(metrics=["s"], dimensions=["a_v.id"]),
    "measure filter": dict(metrics=["big", "ratio", "avg_s"], dimensions=["tier", "days_wait"], limit=4),
    "group": dict(metrics=["s"], where=[{"logical_operator": "OR", "conditions": [W("region", "equal_to", "a"), W("country", "is_null", None)]}],
                  having=[{"logical_operator": "AND", "conditions": [W("s", "greater_than", 1), W("n", "less_than", 9)]}]),
    "conditional": dict(metrics=["s"], where=[{"conditional_filter_logic": {"logical_operator": "OR", "conditions": [W("region", "equal_to", "a")]}}]),
    "group by": dict(metrics=["s"], dimensions=["region"], where=[W("s", "greater_than", 3) | {"group_by": "country"}]),
    "text": dict(metrics=["s"], dimensions=["region"], where="${region} = 'a' or ${a_v.cust} = 'b'", order_by="s asc"),
    "text of a mapping": dict(metrics=["t"], dimensions=["place"], where="${place} = 'a place'", order_by="place desc"),
    "date of two views": dict(dimensions=["d_v.kind", "e_v.sort", "month"]),
    "bigquery": dict(metrics=["worth", "s"], dimensions=["made_week"], query_type="BIGQUERY"),
    "refused": dict(metrics=["s"], dimensions=["a_v.pay"]),
    "unknown": dict(metrics=["s"], dimensions=["nothing"]),
    "bad operator": dict(metrics=["s"], where=[W("region", "resembles", "a")]),
    "both merged": dict(merged_queries=[dict(metrics=["s"], dimensions=["region"]), dict(metrics=["t"], dimensions=["zone"], join_fields=[{"field": "zone", "source_field": "region"}])]),
}
OTHERS = {
    "get dimension": lambda c: c.get_dimension("made_raw").id(),
    "get other dimension": lambda c: c.get_dimension("made_month").id(),
    "get duration": lambda c: c.get_dimension("days_wait").id(),
    "get metric": lambda c: c.get_metric("ratio").sql_query(query_type="SNOWFLAKE"),
    "get field": lambda c: c.get_field("order_week").sql_query(query_type="SNOWFLAKE"),
    "lists": lambda c: [c.list_fields(names_only=True), c.list_metrics(names_only=True), c.list_dimensions(names_only=True), c.list_views(names_only=True)],
    "field ids": lambda c: [f.id() for f in c.project.fields(expand_dimension_groups=True)],
    "plain ids": lambda c: [f.id() for f in c.project.fields(expand_dimension_groups=False)],
    "by name": lambda c: [c.project.get_field_by_name(n).id() for n in ("a_v.made", "order", "done", "born")],
    "joinable": lambda c: [f.id() for f in c.project.joinable_fields([c.project.get_field("s")], expand_dimension_groups=True)],
    "join graphs": lambda c: [[f.id(), f.join_graphs()] for f in c.project.fields(expand_dimension_groups=True)],
    "columns": lambda c: [f.sql_query(query_type="SNOWFLAKE") for f in c.project.fields(expand_dimension_groups=True) if not f.is_cumulative() and not f.is_merged_result],
    "validate": lambda c: [e["message"] for e in c.project.validate()],
    "set": lambda c: [f for s in c.project.sets() for f in s.field_names()],
    "missing view": lambda c: c.get_view("nowhere").name,
    "bad date filter": lambda c: c.get_sql_query(metrics=["big"], where=[W("made_date", "matches", "complete nonsense")], query_type="SNOWFLAKE"),
}
REQUESTS = list(QUERIES) + list(OTHERS)
USERS = {"nobody": None, "manager": {"dept": "hr", "region": "west"}, "clerk": {"dept": "it", "region": "a, b"}, "swapped": {"dept": "west", "region": "hr"}}
SUCCESSIONS = [(a, b) for a in USERS for b in USERS if a != b and "swapped" not in (a, b)] + [("manager", "swapped"), ("swapped", "manager")]


def ask(c, name):
    """the answer to a request, or the refusal"""
    try:
        if name in QUERIES:
            return c.get_sql_query(**{"query_type": "SNOWFLAKE", "metrics": [], **copy.deepcopy(QUERIES[name])})
        return OTHERS[name](c)
    except Exception as e:  # noqa: BLE001
        return [type(e).__name__, str(e)]


FRESH = {}


def fresh(name, who):
    if (name, who) not in FRESH:
        FRESH[name, who] = ask(conn(project(), USERS[who]), name)
    return FRESH[name, who]


@contract("C13", functions=FN + [P + "get_field", P + "fields", P + "set_user", "metrics_layer.core.query.query:MetricsLayerConnection.get_dimension"], kind="exhaustive", weight=3, doc=(
    "a request's answer is the one a freshly loaded project gives, whatever single request, answered or refused, came before it on the same project"))
def after_another(I):
    first, second = I.choice("first", REQUESTS), I.choice("second", REQUESTS)
    who = "manager"
    c = conn(project(), USERS[who])
    ask(c, first)
    I.check_eq("answer", ask(c, second), fresh(second, who))


@contract("C13", functions=FN + [P + "get_field", P + "fields", P + "set_user", P + "__hash__"], kind="exhaustive", weight=2, doc=(
    "likewise when the user changed in between: nothing of what one user may see or is restricted to stays behind for the next"))
def after_another_user(I):
    before, now = I.choice("users", SUCCESSIONS)
    name = I.choice("request", REQUESTS)
    other = I.choice("first", [name, "sum", "refused", "lists"])
    c = conn(project(), USERS[before])
    ask(c, other)
    c.set_user(USERS[now])
    I.check_eq("answer", ask(c, name), fresh(name, now))


def snapshot(x):
    if isinstance(x, dict):
        return {k: snapshot(v) for k, v in x.items()}
    if isinstance(x, list):
        return [snapshot(v) for v in x]
    return x


def world(I):
    """a project whose SQL, grants and user attributes are any texts; two users of it"""
    cols = {n: (I.str(n + " before", exclude="${}\n%"), I.str(n + " after", exclude="${}\n%")) for n in ("region", "made", "s", "zone", "done", "t", "worth")}

    def sql(n):
        return cols[n][0] + "(${TABLE}.c" + cols[n][1] + ")"

    dept = I.str("granted department", nonempty=True)

    def make():
        grants = [{"name": "staff", "user_attribute": "dept", "allowed_values": [dept]}]
        return mk_project([
            view_dict("a_v", [
                dim("id", primary_key=True), dim("region", sql("region")), dim("cust"), dim("pay", required_access_grants=["staff"]), {**date("made"), "sql": sql("made")},
                measure("s", "sum", sql("s")), measure("n", "count"), measure("mix", "number", "${s} / ${b_v.t}", is_merged=True),
                {"name": "cum", "field_type": "measure", "type": "cumulative", "measure": "s"},
                measure("last", non_additive_dimension={"name": "made_raw", "window_choice": "max"}),
            ], default_date="made", identifiers=[{"name": "c", "type": "foreign", "sql": "${cust}"}], access_filters=[{"field": "a_v.region", "user_attribute": "region"}]),
            view_dict("b_v", [dim("id", primary_key=True), dim("zone", sql("zone")), {**date("done"), "sql": sql("done")}, measure("t", "sum", sql("t"))], default_date="done"),
            view_dict("c_v", [dim("cid", primary_key=True), dim("country"), measure("worth", "sum", sql("worth"))],
                      identifiers=[{"name": "c", "type": "primary", "sql": "${cid}"}], always_filter=[{"field": "country", "value": "-null"}]),
        ], models=[model_dict(access_grants=grants, mappings={"place": {"name": "place", "fields": ["a_v.region", "b_v.zone"], "group_by": []}})])
    return make


SHAPES = {
    "plain": lambda v: dict(metrics=["s"], dimensions=["region"], where=[W("region", "equal_to", v)], having=[W("s", "greater_than", 2)]),
    "joined": lambda v: dict(metrics=["s"], dimensions=["country"], where=[W("country", "isin", [v, "x"])], order_by=[{"field": "s"}]),
    "mapped": lambda v: dict(metrics=["t"], dimensions=["place", "month"], where=[W("place", "equal_to", v)], order_by=[{"field": "place"}]),
    "merged": lambda v: dict(metrics=["s", "t"], dimensions=["month"], where=[W("place", "not_equal_to", v), W("date", "greater_than", "2020-01-01")]),
    "mixed": lambda v: dict(metrics=["mix"], dimensions=["b_v.zone"], having=[W("mix", "greater_than", 2)]),
    "cumulative": lambda v: dict(metrics=["cum"], dimensions=["made_week"], where=[W("made_date", "greater_than", "2020-01-01"), W("region", "equal_to", v)]),
    "non additive": lambda v: dict(metrics=["last"], dimensions=["region"], where=[W("region", "equal_to", v)]),
    "group": lambda v: dict(metrics=["n"], where=[{"logical_operator": "OR", "conditions": [W("region", "equal_to", v), W("cust", "is_null", None)]}]),
    "granted": lambda v: dict(metrics=["s"], dimensions=["a_v.pay"], where=[W("pay", "equal_to", v)]),
    "unknown": lambda v: dict(metrics=["s"], dimensions=["nothing"], where=[W("region", "equal_to", v)]),
    "no join": lambda v: dict(metrics=["last"], dimensions=["b_v.zone"], where=[W("zone", "equal_to", v)], single_query=True),
}


@contract("C13", functions=FN, weight=3, seconds=600, bound=3, doc=(
    "a request leaves the caller's lists and dictionaries and the project's own definition as they were, whether answered or refused, and gives the same answer when repeated: "
    "any column SQL, filter value, user attribute and granted value"))
def frame(I):
    make = world(I)
    shape = I.choice("shape", list(SHAPES))
    c = conn(make(), {"region": plain_value(I, "region of the user"), "dept": I.str("department of the user", nonempty=True)})
    request = SHAPES[shape](plain_value(I, "filter value"))
    before, models, views = snapshot(request), snapshot(c.project._models), snapshot(c.project._views)
    first = I.outcome(lambda: c.get_sql_query(query_type="SNOWFLAKE", **request))
    I.check_eq("the request is left alone", request, before)
    I.check_eq("the models are left alone", c.project._models, models)
    I.check_eq("the views are left alone", c.project._views, views)
    again = I.outcome(lambda: c.get_sql_query(query_type="SNOWFLAKE", **request))
    I.check_eq("the same outcome", (again.ok, again.value, again.exc_type), (first.ok, first.value, first.exc_type))
    if shape not in ("unknown", "no join", "granted"):
        I.check_eq("answered", (first.ok, first.exc_type), (True, None))



ZONES = [None, "America/New_York", "Asia/Tokyo"]


@contract("C13", functions=FN + [P + "timezone", P + "set_timezone"], kind="exhaustive", weight=2, doc=(
    "a project's answer does not depend on another project with the same definition in the same process, nor on the time zone it was set to before"))
def other_settings(I):
    name, zone, other, same = I.choice("request", REQUESTS), I.choice("zone", ZONES), I.choice("earlier zone", ZONES), I.choice("same project", [True, False])
    user = USERS["manager"]

    def with_zone(p, z):
        p.set_timezone(z)
        return conn(p, user)

    key = (name, "zone", zone)
    if key not in FRESH:
        # a definition of its own, different only in its descriptions: nothing is shared with the projects below
        FRESH[key] = isolated(name, zone)
    p = project()
    ask(with_zone(p, other), name)
    c = with_zone(p if same else project(), zone)
    I.check_eq("answer", ask(c, name), FRESH[key])


def isolated(name, zone):
    p = project()
    for v in p._views:
        v["description"] = "for " + str(zone)
    p.set_timezone(zone)
    return ask(conn(p, USERS["manager"]), name)


def tell(o):
    return [o.ok, o.value, o.exc_type, o.exc.message if o.exc is not None and hasattr(o.exc, "message") else None]


def attributes(I, who):
    return {"region": plain_value(I, "region of " + who), "dept": I.str("department of " + who, nonempty=True)}


@contract("C13", functions=FN + [P + "set_user", P + "__hash__"], weight=3, seconds=600, bound=3, doc=(
    "after the user changed, every answer is the one a freshly loaded project gives the new user, whatever either user's attributes, the granted value and the filter value are"))
def users_change(I):
    make = world(I)
    shape = I.choice("shape", list(SHAPES))
    first, second, v = attributes(I, "the first user"), attributes(I, "the second user"), plain_value(I, "filter value")
    c = conn(make(), first)
    I.outcome(lambda: c.get_sql_query(query_type="SNOWFLAKE", **SHAPES[shape](v)))
    c.set_user(second)
    got = I.outcome(lambda: c.get_sql_query(query_type="SNOWFLAKE", **SHAPES[shape](v)))
    new = conn(make(), second)
    I.check_eq("answer", tell(got), tell(I.outcome(lambda: new.get_sql_query(query_type="SNOWFLAKE", **SHAPES[shape](v)))))


@contract("C13", functions=FN, weight=3, seconds=800, bound=3, doc=(
    "after a history in which every request shape was answered or refused once, each answer is still the one a freshly loaded project gives: any column SQL, filter values and attributes"))
def after_everything(I):
    make = world(I)
    shape = I.choice("shape", list(SHAPES))
    user, w, v = attributes(I, "the user"), plain_value(I, "earlier filter value"), plain_value(I, "filter value")
    c = conn(make(), user)
    for before in SHAPES:
        I.outcome(lambda: c.get_sql_query(query_type="SNOWFLAKE", **SHAPES[before](w)))
    got = I.outcome(lambda: c.get_sql_query(query_type="SNOWFLAKE", **SHAPES[shape](v)))
    new = conn(make(), user)
    I.check_eq("answer", tell(got), tell(I.outcome(lambda: new.get_sql_query(query_type="SNOWFLAKE", **SHAPES[shape](v)))))


SCRIPT = """
import sys, json
sys.path[:0] = [{repo!r}, {verif!r}]
import contracts.c13_history as h
print(json.dumps({{r: h.fresh(r, w) for r in h.REQUESTS for w in [{who!r}]}}, default=str))
"""
ANSWERS = {}


def answers(seed, who):
    """the answers of a process of its own, with its own order of set iteration"""
    if (seed, who) not in ANSWERS:
        import metrics_layer

        repo = os.path.dirname(os.path.dirname(os.path.abspath(metrics_layer.__file__)))
        verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        out = subprocess.run([sys.executable, "-W", "ignore", "-c", SCRIPT.format(repo=repo, verif=verif, who=who)],
                             env={**os.environ, "PYTHONHASHSEED": str(seed), "PYTHONDONTWRITEBYTECODE": "1"}, capture_output=True, text=True, check=True)
        ANSWERS[seed, who] = json.loads(out.stdout.splitlines()[-1])
    return ANSWERS[seed, who]


@contract("C13", functions=FN, kind="exhaustive", weight=2, doc="answers do not depend on the process: the iteration order of sets (PYTHONHASHSEED) changes no answer")
def processes(I):
    seed, name, who = I.choice("hash seed", [1, 2, 3, 4, 5, 6, 7, 8]), I.choice("request", REQUESTS), I.choice("user", ["manager", "clerk"])
    I.check_eq("answer", answers(seed, who)[name], answers(0, who)[name])
