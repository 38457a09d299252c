"""C12: relative date filters cover exactly the period they name, in the query's timezone and with the model's weeks."""
import datetime

import pendulum

from contracts.c10_time import DAYS, spec_time, timezone_sql
from contracts.lib import WAREHOUSES, conn, dim, measure, mk_project, model_dict, rendered, view_dict
from pyvc.api import contract

from metrics_layer.core.model.filter import Filter

F = "metrics_layer.core.model.filter:Filter."
FN = [F + x for x in (
    "_filter_dict", "parse_date_condition", "_parse_n_interval", "_parse_n_interval_modifier", "_parse_n_interval_ago_for", "_start_date", "_end_date",
    "_add_to_end_date", "_set_week_start_day", "_reset_week_start_day", "_today", "_date_to_string")]
FORMAT = "%Y-%m-%dT%H:%M:%S"
UNITS = ["day", "week", "month", "quarter", "year"]
DEFAULTS = {"SNOWFLAKE", "REDSHIFT", "DUCK_DB"}


def meaning(cond):
    """what a condition names: (unit, first period, last period, to date?, (unit, n) to extend by) with periods counted from the current one, 0"""
    w = cond.split(" ")
    if cond == "today":
        return ("day", 0, 0, False, None)
    if cond == "yesterday":
        return ("day", -1, -1, False, None)
    if w[0] in UNITS:
        w = ["this"] + w
    n = {"this": 0, "last": 1}.get(w[0])
    unit = w[1][:-1] if w[1][-1] == "s" else w[1]
    rest = " ".join(w[2:])
    if rest == "":
        return (unit, -n, -n, False, None) if n is not None else (unit, 1 - int(w[0]), 0, False, None)
    k = -(n if n is not None else int(w[0]))
    if rest == "ago":
        return (unit, k, k, False, None)
    if rest in ("to date", "ago to date"):
        return (unit, k, None, True, None)
    u = w[5][:-1] if w[5][-1] == "s" else w[5]
    return (unit, k, None, False, (u, int(w[4]) - 1))


CONDITIONS = ["today", "yesterday"]
for _u in UNITS:
    CONDITIONS += ["this " + _u, "last " + _u, "1 " + _u, "3 " + _u + "s", "1 " + _u + " ago", "14 " + _u + "s ago"]
    CONDITIONS += [_u + " to date", "this " + _u + " to date", "last " + _u + " to date", "1 " + _u + " ago to date", "13 " + _u + "s ago to date"]
    CONDITIONS += ["5 " + _u + "s ago for 1 " + _u, "12 " + _u + "s ago for 4 " + _u + "s", "2 " + _u + "s ago for 3 days"]


# ---- the calendar as the verifier sees it: any day may be today; what is assumed of pendulum is how its operations name other moments from it
class Calendar:
    def __init__(self, I, tz):
        self.I, self.tz, self.texts = I, tz, {}
        self.elapsed = {u: I.int("whole days of the " + u + " before today", 0, None if u == "year" else 400) for u in UNITS if u != "day"}
        self.elapsed["day"] = 0

    def text(self, key):
        if key not in self.texts:
            self.texts[key] = self.I.str(key, exclude="'\\${}\n%", nonempty=True)
        return self.texts[key]

    def edge(self, unit, k, which, lag=None, then=None):
        """the text of the first or last moment of the k-th period, possibly moved by whole days, or the end of the period (unit, n) periods on"""
        week = str(pendulum.MONDAY if self.week is None else DAYS.index(self.week))
        named = lambda u: u + (" from " + week if u == "week" else "")
        base = self.text(self.tz + ": " + which + " of " + named(unit) + " " + str(k))
        if lag is not None:
            return base + " then " + str(lag) + " days, end of day"
        if then is not None and then != (unit, 0):
            return base + " then " + str(then[1]) + " " + named(then[0]) + ", end"
        return self.text(self.tz + ": end of " + named(unit) + " " + str(k)) if then is not None else base


class Moment:
    """a point in time known by the period it lies in"""

    def __init__(self, cal, unit="day", k=0, edge=None, week=None, moved=None):
        self.cal, self.unit, self.k, self.edge, self.week, self.moved = cal, unit, k, edge, week, moved

    def outside(self):
        self.cal.I.assume(False)

    def shift(self, kw, sign):
        if len(kw) != 1 or self.moved is not None:
            self.outside()
        units, n = list(kw.items())[0]
        unit = units[:-1]
        if self.edge is None and self.unit == "day" and self.k == 0:
            return Moment(self.cal, unit, sign * n)
        if self.edge == "start" and sign > 0:
            return Moment(self.cal, self.unit, self.k, self.edge, self.week, (unit, n))
        return self.outside()

    def subtract(self, **kw):
        return self.shift(kw, -1)

    def add(self, **kw):
        return self.shift(kw, 1)

    def to(self, unit, edge):
        if unit == "week":
            if (pendulum._WEEK_STARTS_AT - pendulum._WEEK_ENDS_AT) % 7 != 1:
                self.outside()
            week = int(pendulum._WEEK_STARTS_AT)
        else:
            week = None
        if self.moved is not None:
            u, n = self.moved
            if unit == "quarter" and u == "month" and n % 3 == 0:
                u, n = "quarter", n // 3
            if edge == "end" and u == unit:
                return Moment(self.cal, self.unit, self.k, "then end", self.week if self.unit == "week" else week, (u, n))
            return self.outside()
        if self.edge is not None:
            return self.outside()
        u, k = self.unit, self.k
        if u == "day" and k == 0:
            u = unit
        if unit == "quarter" and u == "month" and k % 3 == 0:
            u, k = "quarter", k // 3
        if u != unit:
            return self.outside()
        return Moment(self.cal, unit, k, edge, week)

    def start_of(self, unit):
        return self.to(unit, "start")

    def end_of(self, unit):
        return self.to(unit, "end")

    def first_of(self, unit):
        return self.to(unit, "start")

    def last_of(self, unit):
        return self.to(unit, "end")

    def date(self):
        return self

    def __sub__(self, o):
        if isinstance(o, Moment) and self.edge is None and (self.unit, self.k, self.moved) == ("day", 0, None) and o.edge == "start" and o.k == 0 and o.moved is None:
            return Elapsed(self.cal.elapsed[o.unit])
        return self.outside()

    def strftime(self, fmt):
        c = self.cal
        named = lambda u: u + (" from " + str(self.week) if u == "week" else "")
        if fmt != FORMAT or self.edge is None:
            self.outside()
        if self.edge == "then end":
            u, n = self.moved
            base = c.text(c.tz + ": start of " + named(self.unit) + " " + str(self.k))
            if u == "day":
                return base + " then " + str(n) + " days, end of day"
            if u == self.unit and isinstance(n, int) and n == 0:
                return c.text(c.tz + ": end of " + named(self.unit) + " " + str(self.k))
            return base + " then " + str(n) + " " + named(u) + ", end"
        return c.text(c.tz + ": " + self.edge + " of " + named(self.unit) + " " + str(self.k))


class Elapsed:
    def __init__(self, days):
        self.days = days


def bounds(cal, cond):
    unit, first, last, to_date, then = meaning(cond)
    lo = cal.edge(unit, first, "start")
    if to_date:
        d = cal.elapsed[unit]
        return lo, cal.edge(unit, first, "start", lag=d - 1 if d > 0 else 0)
    if then is not None:
        if then[0] == "day":
            return lo, cal.edge(unit, first, "start", lag=then[1])
        return lo, cal.edge(unit, first, "start", then=then)
    return lo, cal.edge(unit, last, "end")


def shop(week, sql="${TABLE}.made", datatype="timestamp"):
    made = {"name": "made", "field_type": "dimension_group", "type": "time", "datatype": datatype, "timeframes": ["raw", "date", "month"], "sql": sql}
    return mk_project([view_dict("a_v", [dim("id", primary_key=True), made, measure("s")], default_date="made")], models=[model_dict(**({"week_start_day": week} if week else {}))])


PENDULUM = (
    "pendulum: subtracting n units from now lands in the n-th period of the unit before the current one, start_of/end_of/first_of/last_of give the edges of the period a moment lies in "
    "(weeks as set by week_starts_at), adding whole periods to the start of one lands in the period that many on; the exhaustive contracts run the real library")


@contract("C12", functions=FN + ["metrics_layer.core.sql.query_filter:MetricsLayerFilter.criterion"], weight=3, assumes=[PENDULUM], doc=(
    "whatever day it is, a query filtered by a relative date keeps exactly the dates from the first to the last moment of what the words name, counted in the query's "
    "timezone and in the model's weeks"))
def relative(I):
    cond = I.choice("condition", CONDITIONS)
    tz = I.choice("timezone", [None, "America/New_York"]) if cond in ("today", "last week", "month to date") else None
    week = I.choice("week_start_day", [None] + DAYS) if "week" in cond else None
    cal = Calendar(I, tz or "UTC")
    cal.week = week
    I.stub(pendulum, "now", lambda zone=None: Moment(cal) if zone is not None and zone.name == (tz or "UTC") else None)
    p = shop(week)
    p.set_timezone(tz)
    got = I.outcome(lambda: conn(p).get_sql_query(metrics=["s"], dimensions=[], query_type="SNOWFLAKE", where=[{"field": "a_v.made_raw", "expression": "matches", "value": cond}]))
    lo, hi = bounds(cal, cond)
    d = timezone_sql("SNOWFLAKE", "a_v.made", tz, "TIMESTAMP") if tz else "a_v.made"
    I.check_eq("sql", got.value, "SELECT SUM(a_v.s) as a_v_s FROM t_a_v a_v WHERE " + d + ">='" + lo + "' AND " + d + "<='" + hi + "' ORDER BY a_v_s DESC NULLS LAST;")
    I.check_eq("weeks as before", (int(pendulum._WEEK_STARTS_AT), int(pendulum._WEEK_ENDS_AT)), (0, 6))


UNTIL = [
    ("2 days ago", "today"), ("last month", "yesterday"), ("14 quarters ago", "last month"), ("3 weeks ago", "this week"), ("last year", "last week"), ("last week", "this week to date"),
    ("5 years ago for 4 years", "1 quarter ago"), ("2 months ago", "1 day ago for 3 days"),
]


@contract("C12", functions=FN + ["metrics_layer.core.sql.query_filter:MetricsLayerFilter.criterion"], weight=2, assumes=[PENDULUM], doc=(
    "two relative dates joined by 'until' bound the range from the first moment of the first to the last moment of the second, both in the query's timezone and weeks"))
def until(I):
    a, b = I.choice("range", UNTIL)
    tz = I.choice("timezone", [None, "America/New_York"])
    week = I.choice("week_start_day", [None, "monday", "sunday", "thursday"]) if "week" in a + b else None
    cal = Calendar(I, tz or "UTC")
    cal.week = week
    I.stub(pendulum, "now", lambda zone=None: Moment(cal) if zone is not None and zone.name == (tz or "UTC") else None)
    p = shop(week)
    p.set_timezone(tz)
    got = I.outcome(lambda: conn(p).get_sql_query(metrics=["s"], dimensions=[], query_type="SNOWFLAKE", where=[{"field": "a_v.made_raw", "expression": "matches", "value": a + " until " + b}]))
    lo, hi = bounds(cal, a)[0], bounds(cal, b)[1]
    d = timezone_sql("SNOWFLAKE", "a_v.made", tz, "TIMESTAMP") if tz else "a_v.made"
    I.check_eq("sql", got.value, "SELECT SUM(a_v.s) as a_v_s FROM t_a_v a_v WHERE " + d + ">='" + lo + "' AND " + d + "<='" + hi + "' ORDER BY a_v_s DESC NULLS LAST;")
    I.check_eq("weeks as before", (int(pendulum._WEEK_STARTS_AT), int(pendulum._WEEK_ENDS_AT)), (0, 6))


@contract("C12", functions=FN + ["metrics_layer.core.sql.query_filter:MetricsLayerFilter.criterion", "metrics_layer.core.sql.query_filter:datatype_cast"], assumes=[PENDULUM], doc=(
    "in every warehouse the filtered expression is the field asked for and the moments are literals it can be compared with"))
def warehouses(I):
    wh = I.choice("warehouse", WAREHOUSES)
    dt = I.choice("datatype", ["timestamp", "datetime", "date"])
    frame = I.choice("timeframe", ["raw", "date", "month"])
    a, b = I.str("before", exclude="${}\n%"), I.str("after", exclude="${}\n%")
    cal = Calendar(I, "UTC")
    cal.week = None
    I.stub(pendulum, "now", lambda zone=None: Moment(cal))
    p = shop(None, a + "(${TABLE}.made" + b + ")", dt)
    got = I.outcome(lambda: conn(p).get_sql_query(metrics=["s"], dimensions=[], query_type=wh, where=[{"field": "a_v.made_" + frame, "expression": "matches", "value": "last month"}]))
    d = spec_time(wh, frame, rendered(a + "(a_v.made" + b + ")"), "monday", 0, dt.upper())

    def lit(t):
        if wh in ("BIGQUERY", "TRINO"):
            return "CAST(CAST('" + t + "' AS TIMESTAMP) AS DATE)" if dt == "date" else "CAST('" + t + "' AS " + dt.upper() + ")"
        return "'" + t + "'"

    lo, hi = bounds(cal, "last month")
    order = " ORDER BY a_v_s DESC NULLS LAST" if wh in DEFAULTS else ""
    I.check_eq("sql", got.value, "SELECT SUM(a_v.s) as a_v_s FROM t_a_v a_v WHERE " + d + ">=" + lit(lo) + " AND " + d + "<=" + lit(hi) + order + ("" if wh in ("DRUID", "TRINO") else ";"))


# ---- the real library, on every day of two years (one of them a leap year)
def month_start(d, k):
    m = d.year * 12 + d.month - 1 + k
    return datetime.date(m // 12, m % 12 + 1, 1)


def first_day(unit, d, k, week):
    if unit == "day":
        return d + datetime.timedelta(days=k)
    if unit == "week":
        return d - datetime.timedelta(days=(d.weekday() - week) % 7) + datetime.timedelta(days=7 * k)
    if unit == "month":
        return month_start(d, k)
    if unit == "quarter":
        return month_start(d, 3 * k - (d.month - 1) % 3)
    return datetime.date(d.year + k, 1, 1)


def period(cond, d, week):
    """the condition's first and last day, and whether its last moment is midnight rather than the day's end (a quarter's)"""
    unit, first, last, to_date, then = meaning(cond)
    lo = first_day(unit, d, first, week)
    one = datetime.timedelta(days=1)
    if to_date:
        gone = (d - first_day(unit, d, 0, week)).days
        return lo, lo + datetime.timedelta(days=max(gone - 1, 0)), False
    if then is not None:
        return lo, first_day(then[0], lo, then[1] + 1, week) - one, then[0] == "quarter"
    return lo, first_day(unit, d, last + 1, week) - one, unit == "quarter"


CLOCKS = [("UTC", 12, 0), ("America/New_York", 0, 30), ("America/New_York", 23, 30), ("Australia/Sydney", 0, 5)]


@contract("C12", functions=FN, kind="exhaustive", seconds=500, doc=(
    "on every day of 2023 and 2024, in several timezones early and late in the day, every kind of relative date is the period computed independently from the calendar"))
def calendar(I):
    cond = I.choice("condition", CONDITIONS + [a + " until " + b for a, b in UNTIL])
    tz, hour, minute = I.choice("clock", CLOCKS)
    week = I.choice("week_start_day", [None] + DAYS) if "week" in cond and tz == "UTC" else None
    now = [None]
    I.stub(pendulum, "now", lambda zone=None: now[0].in_timezone(zone))
    d, wrong = datetime.date(2023, 1, 1), []
    while d.year < 2025 and not wrong:
        now[0] = pendulum.datetime(d.year, d.month, d.day, hour, minute, 7, tz=tz).in_timezone("UTC")
        got = Filter({"field": "made", "value": cond, "week_start_day": week, "timezone": tz}).filter_dict(json_safe=True)
        lo, hi, midnight = period(cond.split(" until ")[0], d, DAYS.index(week or "monday"))
        if " until " in cond:
            _, hi, midnight = period(cond.split(" until ")[1], d, DAYS.index(week or "monday"))
        want = [("greater_or_equal_than", lo.isoformat() + "T00:00:00"), ("less_or_equal_than", hi.isoformat() + ("T00:00:00" if midnight else "T23:59:59"))]
        if [(f["expression"], f["value"]) for f in got] != want:
            wrong.append((d.isoformat(), [(f["expression"], f["value"]) for f in got], want))
        d += datetime.timedelta(days=1)
    I.check_eq("dates", wrong, [])


@contract("C12", functions=FN + [F + "_parse_date_string"], kind="exhaustive", seconds=200, doc=(
    "a condition with written dates compares with those days; two joined by 'until' bound the range from the first's start to the second's end"))
def written(I):
    form = I.choice("form", ["after", "before", "on", "not on", "until", "until now", "since"])
    d, wrong = datetime.date(2023, 1, 1), []
    now = pendulum.datetime(2024, 8, 14, 15, 0, 0, tz="UTC")
    I.stub(pendulum, "now", lambda zone=None: now.in_timezone(zone))
    ops = {"after": "greater_or_equal_than", "before": "less_or_equal_than", "on": "equal_to", "not on": "not_equal_to"}
    while d.year < 2025 and not wrong:
        t, end = d.isoformat(), (d + datetime.timedelta(days=40)).isoformat()
        if form in ops:
            cond, want = form + " " + t, [(ops[form], t + "T00:00:00")]
        else:
            cond, hi = {"until": (t + " until " + end, end + "T00:00:00"), "until now": (t + " until yesterday", "2024-08-13T23:59:59"), "since": ("2 weeks ago until " + end, end + "T00:00:00")}[form]
            lo = "2024-07-29T00:00:00" if form == "since" else t + "T00:00:00"
            want = [("greater_or_equal_than", lo), ("less_or_equal_than", hi)]
        got = [(f["expression"], f["value"]) for f in Filter({"field": "made", "value": cond, "week_start_day": None, "timezone": "UTC"}).filter_dict(json_safe=True)]
        if got != want:
            wrong.append((cond, got, want))
        d += datetime.timedelta(days=1)
    I.check_eq("dates", wrong, [])


@contract("C12", functions=[F + "_filter_dict", F + "_set_week_start_day", F + "_reset_week_start_day"], kind="exhaustive", doc=(
    "a condition that cannot be understood leaves the meaning of weeks as it was for the queries after it"))
def not_understood(I):
    week = I.choice("week_start_day", DAYS)
    cond = I.choice("condition", ["2024-01-01 until whenever", "someday until 2024-01-01", "2024-13-01 until 2024-01-02", "1 week ago until then"])
    got = I.outcome(lambda: Filter({"field": "made", "value": cond, "week_start_day": week, "timezone": "UTC"}).filter_dict())
    I.check("refused", not got.ok)
    I.check_eq("weeks as before", (int(pendulum._WEEK_STARTS_AT), int(pendulum._WEEK_ENDS_AT)), (0, 6))


QUARTERS = ["this quarter", "last quarter", "1 quarter", "3 quarters", "1 quarter ago", "14 quarters ago", "5 quarters ago for 1 quarter", "2 quarters ago until last quarter"]


@contract("C12", functions=FN, kind="exhaustive", doc="a period ending with a quarter contains all of the quarter's last day")
def last_day_of_quarter(I):
    cond = I.choice("condition", QUARTERS)
    now = pendulum.datetime(2024, 8, 14, 15, 0, 0, tz="UTC")
    I.stub(pendulum, "now", lambda zone=None: now.in_timezone(zone))
    got = Filter({"field": "made", "value": cond, "week_start_day": None, "timezone": "UTC"}).filter_dict(json_safe=True)
    I.check_eq("last moment", got[-1]["value"][10:], "T23:59:59")
