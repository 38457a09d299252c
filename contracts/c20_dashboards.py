"""C20: a dashboard asks exactly what its file says."""
import json

import pendulum

from contracts.c12_dates import PENDULUM, Calendar, Moment, bounds
from contracts.lib import conn, dim, measure, mk_project, model_dict, plain_value, q, view_dict
from pyvc.api import contract

D = "metrics_layer.core.model.dashboard:"
FN = [D + "Dashboard.__init__", D + "Dashboard.elements", D + "Dashboard.parsed_filters", D + "DashboardElement.parsed_filters", D + "DashboardElement.metrics", D + "DashboardElement.slice_by",
      D + "DashboardElement.get_model", "metrics_layer.core.model.filter:Filter.filter_dict", "metrics_layer.core.model.project:Project.get_dashboard"]


def shop(dashboard, weeks=(None, None)):
    made = {"name": "made", "field_type": "dimension_group", "type": "time", "datatype": "timestamp", "timeframes": ["raw", "week"], "sql": "${TABLE}.made"}
    return mk_project(
        [view_dict("a_v", [dim("id", primary_key=True), dim("d"), dim("e"), measure("s"), measure("t"), made]), view_dict("b_v", [dim("id", primary_key=True), measure("u")], model_name="n")],
        models=[model_dict(**({"week_start_day": w} if w else {}), **({} if k == 0 else {"name": "n"})) for k, w in enumerate(weeks)],
        dashboards=[{"type": "dashboard", "name": "board", **dashboard}])


KINDS = ["is", "is not", "more", "one of", "none of", "null", "not null", "from"]


def restriction(I, kind, field, name):
    """a filter as the file has it, the condition it stands for, and its SQL on the column"""
    v, w = plain_value(I, name), plain_value(I, name + " too")
    I.assume(v.strip() == v and w.strip() == w)
    value, expression, cond, text = {
        "is": (v, "equal_to", v, "=" + q(v)),
        "is not": ("-" + v, "not_equal_to", v, "<>" + q(v)),
        "more": (">5", "greater_than", 5, ">5"),
        "from": ("after 2024-01-02", "greater_or_equal_than", "2024-01-02T00:00:00", ">='2024-01-02T00:00:00'"),
        "one of": (v + ", " + w, "isin", [v, w], " IN (" + q(v) + "," + q(w) + ")"),
        "none of": ("-" + v + ", -" + w, "isnotin", [v, w], " NOT IN (" + q(v) + "," + q(w) + ")"),
        "null": ("NULL", "is_null", None, " IS NULL"),
        "not null": ("-NULL", "is_not_null", None, " IS NOT NULL"),
    }[kind]
    return {"field": field, "value": value}, (field, expression, cond), text


def plain(filters):
    """the parts of a parsed filter that say what it filters"""
    return [(f["field"], getattr(f["expression"], "value", f["expression"]), f["value"]) for f in filters]


@contract("C20", functions=FN, weight=2, doc=(
    "whatever a dashboard's file says, its elements are the ones listed, in order, each with the metrics (one or several), slices and title given there, and the filters of the dashboard and of "
    "each element are exactly the ones written, in order, each as the condition its value stands for"))
def read(I):
    k1, k2 = I.choice("kinds", [("is", "is not"), ("is not", "more"), ("more", "one of"), ("one of", "null"), ("none of", "is"), ("null", "not null"), ("not null", "none of")])
    f1, c1, _ = restriction(I, k1, "a_v.d", "v")
    f2, c2, _ = restriction(I, k2, "a_v.e", "w")
    f3, c3 = {"field": "a_v.d", "value": "<9"}, ("a_v.d", "less_than", 9)
    metric = I.choice("metric", [{"metric": "a_v.s"}, {"metrics": ["a_v.s", "a_v.t"]}, {"metrics": "a_v.t"}, {}, {"metric": "a_v.s", "metrics": ["a_v.t"]}])
    slices = I.choice("slices", [["a_v.d"], [], None])
    title, other = I.str("title"), I.str("other title")
    one = {"title": title, "type": "plot", "model": "m", **metric, **({"slice_by": slices} if slices is not None else {}), "filters": [f2, f1, f3]}
    two = {"title": other, "type": "table", "model": "n", "metrics": ["b_v.u"]}
    p = shop({"elements": [one, two], "filters": [f1, f2, f3]})
    d = p.get_dashboard("board")
    es = d.elements()
    I.check_eq("titles", [e.title for e in es], [title, other])
    I.check_eq("kinds", [e.type for e in es], ["plot", "table"])
    I.check_eq("metrics", [e.metrics for e in es], [["a_v.s"] if "metric" in metric else ([] if not metric else (["a_v.t"] if metric["metrics"] == "a_v.t" else ["a_v.s", "a_v.t"])), ["b_v.u"]])
    I.check_eq("slices", [e.slice_by for e in es], [slices or [], []])
    I.check_eq("models", [e.get_model().name for e in es], ["m", "n"])
    I.check_eq("filters of the element", plain(es[0].parsed_filters()), [c2, c1, c3])
    I.check_eq("no filters", es[1].parsed_filters(), [])
    I.check_eq("filters of the dashboard", plain(d.parsed_filters()), [c1, c2, c3])
    I.check_eq("in words", plain(d.parsed_filters(json_safe=True)), [c1, c2, c3])
    I.check_eq("again", plain(es[0].parsed_filters()), [c2, c1, c3])
    I.check_eq("grid", d.layout, "grid")


@contract("C20", functions=FN + ["metrics_layer.core.sql.query_filter:MetricsLayerFilter.criterion"], weight=2, doc=(
    "the filters of a dashboard, given to a query as they come, with the element's metrics and slices, restrict it by what each value stands for, the element's and the dashboard's together"))
def asked(I):
    k1, k2 = I.choice("kinds", [("is", "is not"), ("more", "one of"), ("none of", "null"), ("not null", "is"), ("from", "is")])
    f1, _, t1 = restriction(I, k1, "a_v.d", "v")
    f2, _, t2 = restriction(I, k2, "a_v.e", "w")
    p = shop({"elements": [{"title": "x", "type": "plot", "model": "m", "metric": "a_v.s", "slice_by": ["a_v.d", "a_v.e"], "filters": [f2]}], "filters": [f1]})
    d = p.get_dashboard("board")
    e = d.elements()[0]
    got = I.outcome(lambda: conn(p).get_sql_query(metrics=e.metrics, dimensions=e.slice_by, where=e.parsed_filters(json_safe=True) + d.parsed_filters(json_safe=True), query_type="SNOWFLAKE"))
    say = lambda col, t: "NOT " + col + " IS NULL" if t == " IS NOT NULL" else col + t
    I.check_eq("sql", got.value, "SELECT a_v.d as a_v_d,a_v.e as a_v_e,SUM(a_v.s) as a_v_s FROM t_a_v a_v WHERE " + say("a_v.e", t2) + " AND " + say("a_v.d", t1)
               + " GROUP BY a_v.d,a_v.e ORDER BY a_v_s DESC NULLS LAST;")


@contract("C20", functions=FN + ["metrics_layer.core.model.filter:Filter.parse_date_condition", "metrics_layer.core.model.filter:Filter._filter_dict"], weight=2, assumes=[PENDULUM], doc=(
    "a date filter in words counts weeks as the element's model does (the dashboard's own, as its elements' models do when they agree) and days in the project's timezone"))
def dates(I):
    cond = I.choice("condition", ["last week", "3 weeks", "week to date", "today", "2 months ago"])
    weeks = I.choice("week starts", [(None, None), ("sunday", "sunday"), ("sunday", "thursday"), ("wednesday", None)]) if "week" in cond else (None, None)
    tz = I.choice("timezone", [None, "America/New_York"])
    p = shop({"elements": [{"title": "x", "model": "m", "metric": "a_v.s", "filters": [{"field": "a_v.made_raw", "value": cond}]},
                           {"title": "y", "model": "n", "metric": "b_v.u", "filters": [{"field": "a_v.made_raw", "value": cond}]}],
              "filters": [{"field": "a_v.made_raw", "value": cond}]}, weeks=weeks)
    p.set_timezone(tz)
    d = p.get_dashboard("board")
    cal = Calendar(I, tz or "UTC")
    I.stub(pendulum, "now", lambda zone=None: Moment(cal) if zone is not None and zone.name == (tz or "UTC") else None)
    for label, get, week in (("first", lambda: d.elements()[0].parsed_filters(), weeks[0]), ("second", lambda: d.elements()[1].parsed_filters(), weeks[1]),
                             ("dashboard", lambda: d.parsed_filters(), weeks[0] if weeks[0] == weeks[1] else None)):
        cal.week = week
        got = I.outcome(get)
        lo, hi = bounds(cal, cond)
        I.check("answered " + label, got.ok)
        I.check_eq(label, plain(got.value), [("a_v.made_raw", "greater_or_equal_than", lo), ("a_v.made_raw", "less_or_equal_than", hi)])
    I.check_eq("weeks as before", (int(pendulum._WEEK_STARTS_AT), int(pendulum._WEEK_ENDS_AT)), (0, 6))


@contract("C20", functions=FN + [D + "Dashboard.to_dict", D + "DashboardElement.to_dict", D + "Dashboard.label", D + "Dashboard.printable_attributes"], weight=2, doc=(
    "a dashboard told as a dictionary has all that its file says, with the filters as conditions and the metrics as lists, and telling it changes nothing: the next one is the same"))
def told(I):
    kind = I.choice("kind", KINDS[:4] + KINDS[-1:])
    f1, c1, _ = restriction(I, kind, "a_v.made_raw" if kind == "from" else "a_v.d", "v")
    f2, c2, _ = restriction(I, "from" if kind == "from" else "one of", "a_v.made_raw" if kind == "from" else "a_v.e", "w")
    name, shown = I.choice("name", [("board", "Board"), ("Sales board", "Sales Board"), ("A_b C-d", "A B C-D")]) if kind == "is" else ("board", "Board")
    note = I.str("note")
    label = I.opt("label", lambda J: J.str("label text", nonempty=True))
    layout = I.choice("layout", [None, "grid", "rows"])
    one = {"title": note, "type": "plot", "model": "m", "metric": "a_v.s", "filters": [f2], "extra": {"note": [note]}}
    p = shop({"elements": [one], "filters": [f1], "description": note, "name": name, **({"label": label} if label is not None else {}), **({"layout": layout} if layout else {})})
    d = p.get_dashboard(name.lower())
    got, again = I.outcome(lambda: d.to_dict()), I.outcome(lambda: d.to_dict())
    g = got.value
    I.check_eq("filters", plain(g["filters"]), [c1])
    I.check_eq("filters of the element", plain(g["elements"][0]["filters"]), [c2])
    I.check_eq("metrics", g["elements"][0]["metrics"], ["a_v.s"])
    I.check_eq("rest of the element", [g["elements"][0][k] for k in ("title", "type", "model", "metric", "extra")], [note, "plot", "m", "a_v.s", {"note": [note]}])
    I.check_eq("rest", [g["name"], g["description"], g["layout"]], [name.lower(), note, layout or "grid"])
    I.check_eq("again", again.value, g)
    I.check_eq("still the same", plain(d.parsed_filters()), [c1])
    I.check_eq("definition", d._definition["filters"], [f1])
    I.check_eq("label", d.label, label if label is not None else shown)
    I.check_eq("printed", d.printable_attributes(), {"name": name.lower(), **({"label": label} if label is not None else {}), "description": note})


@contract("C20", functions=FN + [D + "Dashboard.collect_errors", D + "DashboardElement.collect_errors"], weight=2, doc=(
    "a dashboard that refers to a model or a field that is not there (as a metric, a slice, a filter of its own or of an element) has exactly one error for each such reference, and none otherwise"))
def broken(I):
    name = I.ident("name")
    I.assume(name != "made")
    here = I.choice("where", ["metric", "metrics", "slice", "filter", "own filter", "model", "nowhere"])
    known = ["id", "d", "e", "s", "t", "made_raw", "made_week", "count"]
    one = {"title": "x", "type": "plot", "model": "m", "metrics": ["a_v.s"], "slice_by": ["a_v.d"], "filters": [{"field": "a_v.e", "value": "x"}]}
    board = {"elements": [one, {"title": "y", "model": "n", "metric": "b_v.u"}], "filters": [{"field": "a_v.d", "value": "y"}]}
    ref = "a_v." + name
    if here == "metric":
        one["metric"] = ref
    elif here == "metrics":
        one["metrics"] = ["a_v.s", ref]
    elif here == "slice":
        one["slice_by"] = ["a_v.d", ref]
    elif here == "filter":
        one["filters"] = [{"field": ref, "value": "x"}, {"field": "a_v.e", "value": "x"}]
    elif here == "own filter":
        board["filters"] = [{"field": "a_v.d", "value": "y"}, {"field": ref, "value": "x"}]
    elif here == "model":
        one["model"] = name
    p = shop(board)
    d = p.get_dashboard("board")
    got = I.outcome(lambda: d.collect_errors())
    I.check("answered", got.ok)
    if here == "nowhere":
        wrong = False
    elif here == "model":
        wrong = name not in ("m", "n")
    else:
        wrong = name not in known
    I.check_eq("errors", len(got.value), 1 if wrong else 0)
    if wrong:
        I.check_eq("of this dashboard", got.value[0]["dashboard_name"], "board")
        I.check("about the reference", (name if here == "model" else ref) in got.value[0]["message"])
