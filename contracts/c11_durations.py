"""C11: duration dimension groups render the warehouse's date difference from start to end in the named unit."""
from pyvc.api import contract

from contracts.c05_aggregates import rendered
from contracts.lib import WAREHOUSES, mk_project, view_dict

from metrics_layer.core.exceptions import QueryError

F = "metrics_layer.core.model.field:Field."
UNITS = ["second", "minute", "hour", "day", "week", "month", "quarter", "year"]


def spec_duration(wh, unit, a, b):
    """the documented difference from `a` to `b`, or None when the warehouse/unit is not supported"""
    if unit not in UNITS:
        return None
    u = unit.upper()
    if wh in ("SNOWFLAKE", "REDSHIFT", "DUCK_DB"):
        return f"DATEDIFF('{u}', {a}, {b})"
    if wh == "TRINO":
        return f"DATE_DIFF('{u}', {a}, {b})"
    if wh == "DRUID":
        return f"TIMESTAMPDIFF({u}, {a}, {b})"
    if wh in ("SQL_SERVER", "DATABRICKS", "AZURE_SYNAPSE"):
        return f"DATEDIFF({u}, {a}, {b})"
    if wh == "BIGQUERY":
        if unit in ("second", "minute", "hour"):
            return f"TIMESTAMP_DIFF(CAST({b} as TIMESTAMP), CAST({a} as TIMESTAMP), {u})"
        g = {"week": "ISOWEEK", "year": "ISOYEAR"}.get(unit, u)
        return f"DATE_DIFF(CAST({b} as DATE), CAST({a} as DATE), {g})"
    age = f"AGE({b}, {a})"
    day, year = f"DATE_PART('DAY', {age})", f"DATE_PART('YEAR', {age})"
    hour = f"{day} * 24 + DATE_PART('HOUR', {age})"
    minute = f"{hour} * 60 + DATE_PART('MINUTE', {age})"
    return {
        "day": day, "year": year, "hour": hour, "minute": minute,
        "second": f"{minute} * 60 + DATE_PART('SECOND', {age})",
        "week": f"TRUNC({day}/7)",
        "month": f"{year} * 12 + (DATE_PART('month', {age}))",
        "quarter": f"{year} * 4 + TRUNC(DATE_PART('month', {age})/3)",
    }[unit]


@contract("C11", functions=[F + "dimension_group_duration_sql"], doc=(
    "for every warehouse and interval the duration SQL is that warehouse's difference function applied from start "
    "to end, for all start and end expressions"))
def difference(I):
    from metrics_layer.core.model.field import Field

    wh = I.choice("warehouse", WAREHOUSES)
    unit = I.choice("unit", UNITS + ["decade", "millisecond"])
    a, b = I.str("start"), I.str("end")
    o = I.outcome(lambda: Field.dimension_group_duration_sql(a, b, wh, unit + "s"))
    want = spec_duration(wh, unit, a, b)
    if want is None:
        I.check("unsupported unit is an error", not o.ok and o.exc_type == "QueryError")
    else:
        I.check("accepted", o.ok)
        I.check_eq("difference", o.value, want)


@contract("C11", functions=[F + "sql_query", F + "dimension_group_names"], doc=(
    "a duration dimension group of a project renders the difference of its own sql_start and sql_end in the interval "
    "the name was requested with, one field per declared interval"))
def field_duration(I):
    wh = I.choice("warehouse", WAREHOUSES)
    unit = I.choice("unit", UNITS)
    declared = I.choice("declared", [[unit], UNITS, ["week", unit, "year"] if unit not in ("week", "year") else [unit, "day"]])
    ca, cb = I.str("a", exclude="${}"), I.str("b", exclude="${}")
    name = I.ident("name")
    d = {"name": name, "field_type": "dimension_group", "type": "duration",
         "sql_start": "${TABLE}." + ca, "sql_end": "${TABLE}." + cb, "intervals": list(declared)}
    p = mk_project([view_dict("v", [d])])
    fs = [f for f in p.get_view("v").fields(expand_dimension_groups=True) if f.dimension_group == unit + "s"]
    I.check("one field per interval", len(fs) == 1)
    I.check_eq("alias", fs[0].alias(), f"{unit}s_{name}")
    I.check("number of intervals", len(p.get_view("v").fields(expand_dimension_groups=True)) == len(declared))
    I.check_eq("difference", fs[0].sql_query(wh), spec_duration(wh, unit, rendered(f"v.{ca}"), rendered(f"v.{cb}")))


SPANS = {
    # the span, its parts as Postgres' AGE gives them, and its full length in each unit
    "50 minutes": ((0, 0, 0, 0, 50, 9), {"second": 3009, "minute": 50, "hour": 0, "day": 0, "week": 0, "month": 0, "quarter": 0, "year": 0}),
    "20 days 3 hours": ((0, 0, 20, 3, 0, 0), {"second": 1738800, "minute": 28980, "hour": 483, "day": 20, "week": 2, "month": 0, "quarter": 0, "year": 0}),
    "from 2023-01-01 to 2024-03-05": ((1, 2, 4, 0, 0, 0), {
        "second": 37065600, "minute": 617760, "hour": 10296, "day": 429, "week": 61, "month": 14, "quarter": 4, "year": 1}),
}


@contract("C11", functions=[F + "dimension_group_duration_sql"], kind="exhaustive", doc=(
    "what the Postgres expressions, which are built from the parts of an age, come to for spans of minutes, days and years is the length of the span"))
def postgres_length(I):
    import re

    from metrics_layer.core.model.field import Field

    unit, span = I.choice("unit", UNITS), I.choice("span", sorted(SPANS))
    parts, want = SPANS[span]
    part = dict(zip(("YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"), parts))
    sql = Field.dimension_group_duration_sql("a", "b", "POSTGRES", unit + "s")
    expr = re.sub(r"DATE_PART\('(\w+)', AGE\(b, a\)\)", lambda m: "(" + str(part[m.group(1).upper()]) + ")", sql).replace("TRUNC(", "int(")
    I.assume(re.fullmatch(r"(?:int|[\d+*/() ])*", expr) is not None)  # an expression of another form is left to `difference`
    I.check_eq("length", int(eval(expr)), want[unit])
