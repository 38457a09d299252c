"""C10: time dimension groups truncate/extract in the warehouse's dialect, honouring week start, fiscal offset and timezone."""
from pyvc.api import contract

from contracts.c05_aggregates import rendered
from contracts.lib import WAREHOUSES, mk_project, model_dict, view_dict

from metrics_layer.core.exceptions import QueryError

F = "metrics_layer.core.model.field:Field."
DAYS = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"]
TRUNC = {"second": "SECOND", "minute": "MINUTE", "hour": "HOUR", "date": "DAY", "month": "MONTH", "quarter": "QUARTER", "year": "YEAR"}
TIMEFRAMES = [
    "raw", "time", "second", "minute", "hour", "date", "week", "month", "quarter", "year",
    "fiscal_month", "fiscal_quarter", "fiscal_year",
    "week_index", "week_of_year", "week_of_month",
    "month_of_year_index", "month_index", "fiscal_month_of_year_index", "fiscal_month_index",
    "month_of_year", "month_name", "quarter_of_year", "fiscal_quarter_of_year",
    "hour_of_day", "day_of_week", "day_of_month", "day_of_year",
]
ANSI = ("POSTGRES", "DUCK_DB", "DATABRICKS", "TRINO", "DRUID")  # DATE_TRUNC('X', CAST(.. AS TIMESTAMP))
TSQL = ("SQL_SERVER", "AZURE_SYNAPSE")
SNOW = ("SNOWFLAKE", "REDSHIFT")


def ts(wh, s):
    """the expression as the warehouse's truncation functions want it"""
    return s if wh in SNOW or wh == "BIGQUERY" else f"CAST({s} AS DATE)" if wh in TSQL else f"CAST({s} AS TIMESTAMP)"


def trunc(wh, unit, s, dt):
    u = TRUNC[unit]
    if wh in TSQL:
        if unit == "date":
            return f"CAST(CAST({s} AS DATE) AS DATETIME)"
        ty = "DATETIME" if unit in ("second", "minute", "hour") else "DATE"
        return f"DATEADD({u}, DATEDIFF({u}, 0, CAST({s} AS {ty})), 0)"
    if wh == "BIGQUERY":
        k = "DATETIME" if unit in ("second", "minute", "hour") else "DATE"
        return f"CAST({k}_TRUNC(CAST({s} AS {k}), {u}) AS {dt})"
    return f"DATE_TRUNC('{u}', {ts(wh, s)})"


def week_offset(start_day):
    """days to move forward so that a Monday-based week truncation starts on start_day"""
    return (7 - DAYS.index(start_day)) % 7


def week(wh, s, start_day, dt):
    o = week_offset(start_day)
    if wh in SNOW:
        d = f"CAST({s} AS DATE)"
        return f"DATE_TRUNC('WEEK', {d})" if o == 0 else f"DATE_TRUNC('WEEK', {d} + {o}) - {o}"
    if wh == "BIGQUERY":
        d = f"CAST({s} AS DATE)"
        if o == 0:
            return f"CAST(DATE_TRUNC({d}, WEEK) AS {dt})"
        return f"CAST(CAST(DATE_TRUNC({d} + {o}, WEEK) - {o} AS {dt}) AS {dt})"
    if wh in TSQL:
        d = f"CAST({s} AS DATE)"
        if o == 0:
            return f"DATEADD(WEEK, DATEDIFF(WEEK, 0, {d}), 0)"
        return f"DATEADD(DAY, -{o}, DATEADD(WEEK, DATEDIFF(WEEK, 0, DATEADD(DAY, {o}, {d})), 0))"
    d = f"CAST({s} AS TIMESTAMP)"
    return f"DATE_TRUNC('WEEK', {d})" if o == 0 else f"DATE_TRUNC('WEEK', {d} + INTERVAL '{o}' DAY) - INTERVAL '{o}' DAY"


def shifted_day(wh, s, start_day):
    """the date moved by the week offset, as a day"""
    o = week_offset(start_day)
    if wh in SNOW:
        d = f"CAST({s} AS DATE)"
        return f"DATE_TRUNC('DAY', {d})" if o == 0 else f"DATE_TRUNC('DAY', {d} + {o})"
    if wh == "BIGQUERY":
        d = f"CAST({s} AS DATE)"
        return f"DATE_TRUNC({d}, DAY)" if o == 0 else f"DATE_TRUNC({d} + {o}, DAY)"
    if wh in TSQL:
        d = f"CAST({s} AS DATE)"
        return f"CAST({d} AS DATETIME)" if o == 0 else f"CAST(DATEADD(DAY, {o}, {d}) AS DATETIME)"
    d = f"CAST({s} AS TIMESTAMP)"
    return f"DATE_TRUNC('DAY', {d})" if o == 0 else f"DATE_TRUNC('DAY', {d} + INTERVAL '{o}' DAY)"


def fiscal(wh, s, offset):
    if offset == 0:
        return s
    if wh in SNOW or wh in TSQL or wh == "DATABRICKS":
        return f"DATEADD(MONTH, {offset}, {s})"
    if wh == "BIGQUERY":
        return f"DATE_ADD({s}, INTERVAL {offset} MONTH)"
    return f"{s} + INTERVAL '{offset}' MONTH"


def quarter_of(wh, s):
    return f"DATEPART(QUARTER, {ts(wh, s)})" if wh in TSQL else f"EXTRACT(QUARTER FROM {ts(wh, s)})"


MONTHS = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
WEEKDAYS = "Mon Tue Wed Thu Fri Sat Sun".split()


def month_name(wh, s):
    t = f"CAST({s} AS TIMESTAMP)"
    if wh in SNOW or wh in ("POSTGRES", "DUCK_DB"):
        return f"TO_CHAR({t}, 'Mon')"
    if wh == "DATABRICKS":
        return f"DATE_FORMAT({t}, 'MMM')"
    if wh == "TRINO":
        return f"FORMAT_DATETIME({t}, 'MMM')"
    if wh == "DRUID":
        return f"CASE EXTRACT(MONTH FROM {t}) " + " ".join(f"WHEN {i + 1} THEN '{m}'" for i, m in enumerate(MONTHS)) + " ELSE 'Invalid Month' END"
    if wh in TSQL:
        return f"LEFT(DATENAME(MONTH, CAST({s} AS DATE)), 3)"
    return f"FORMAT_DATETIME('%B', CAST({s} as DATETIME))"


def weekday_name(wh, s):
    t = f"CAST({s} AS TIMESTAMP)"
    if wh in SNOW or wh in ("POSTGRES", "DUCK_DB"):
        return f"TO_CHAR({t}, 'Dy')"
    if wh == "DATABRICKS":
        return f"DATE_FORMAT({t}, 'E')"
    if wh == "TRINO":
        return f"FORMAT_DATETIME({t}, 'EEE')"
    if wh == "DRUID":
        return f"CASE EXTRACT(DOW FROM {t}) " + " ".join(f"WHEN {i + 1} THEN '{m}'" for i, m in enumerate(WEEKDAYS)) + " ELSE 'Invalid Day' END"
    if wh in TSQL:
        return f"LEFT(DATENAME(WEEKDAY, CAST({s} AS DATE)), 3)"
    return f"CAST({s} AS STRING FORMAT 'DAY')"


def part(wh, unit, s):
    """hour_of_day, day_of_month, day_of_year"""
    if wh in TSQL:
        u, ty = {"hour": ("HOUR", "DATETIME"), "day": ("DAY", "DATE"), "doy": ("Y", "DATE")}[unit]
        return f"DATEPART({u}, CAST({s} AS {ty}))"
    if wh == "BIGQUERY":
        if unit == "hour":
            return f"CAST(CAST({s} AS STRING FORMAT 'HH24') AS INT64)"
        return f"EXTRACT({'DAY' if unit == 'day' else 'DAYOFYEAR'} FROM {s})"
    u = {"hour": "HOUR", "day": "DAY", "doy": "DOY"}[unit]
    if wh in SNOW:
        return f"EXTRACT({u} FROM {'CAST(' + s + ' AS TIMESTAMP)' if unit == 'hour' else s})"
    if wh in ("POSTGRES", "DUCK_DB"):
        u = f"'{u}'"
    return f"EXTRACT({u} FROM CAST({s} AS TIMESTAMP))"


def timezone_sql(wh, s, tz, dt):
    if wh in ("SNOWFLAKE", "DATABRICKS"):
        return f"CAST(CAST(CONVERT_TIMEZONE('{tz}', {s}) AS TIMESTAMP_NTZ) AS {dt})"
    if wh == "REDSHIFT":
        return f"CAST(CAST(CONVERT_TIMEZONE('{tz}', {s}) AS TIMESTAMP) AS {dt})"
    if wh == "BIGQUERY":
        return f"CAST(DATETIME(CAST({s} AS TIMESTAMP), '{tz}') AS {dt})"
    if wh in ("POSTGRES", "DUCK_DB", "TRINO"):
        return f"CAST(CAST({s} AS TIMESTAMP) at time zone 'UTC' at time zone '{tz}' AS {dt})"
    return s


def spec_time(wh, tf, s, start_day, offset, dt):
    if tf == "raw":
        return s
    if tf == "time":
        return f"CAST({s} AS DATETIME)" if wh in TSQL else f"CAST({s} AS TIMESTAMP)"
    if tf in TRUNC:
        return trunc(wh, tf, s, dt)
    if tf == "week":
        return week(wh, s, start_day, dt)
    fs = fiscal(wh, s, offset)
    if tf in ("fiscal_month", "fiscal_quarter", "fiscal_year"):
        return trunc(wh, tf[7:], fs, dt)
    if tf in ("week_index", "week_of_year"):
        d = shifted_day(wh, s, start_day)
        return f"EXTRACT(WEEK FROM {d if wh in SNOW or wh == 'BIGQUERY' else ts(wh, d)})"
    if tf == "week_of_month":
        m = f"DATE_TRUNC(CAST({s} AS DATE), MONTH)" if wh == "BIGQUERY" else trunc(wh, "month", s, dt)
        return f"EXTRACT(WEEK FROM {ts(wh, s)}) - EXTRACT(WEEK FROM {m}) + 1"
    if tf in ("month_of_year_index", "month_index"):
        return f"EXTRACT(MONTH FROM {ts(wh, s)})"
    if tf in ("fiscal_month_of_year_index", "fiscal_month_index"):
        return f"EXTRACT(MONTH FROM {ts(wh, fs)})"
    if tf in ("month_of_year", "month_name"):
        return month_name(wh, s)
    if tf == "quarter_of_year":
        return quarter_of(wh, s)
    if tf == "fiscal_quarter_of_year":
        return quarter_of(wh, fs)
    if tf == "day_of_week":
        return weekday_name(wh, s)
    return part(wh, {"hour_of_day": "hour", "day_of_month": "day", "day_of_year": "doy"}[tf], s)


def time_field(I, tf, model_kw=None, field_kw=None, view_kw=None, timezone=None):
    col = I.str("col", exclude="${}")
    d = {"name": "at", "field_type": "dimension_group", "type": "time", "timeframes": [tf], "sql": "${TABLE}." + col, **(field_kw or {})}
    p = mk_project([view_dict("v", [d], **(view_kw or {}))], models=[model_dict(**(model_kw or {}))])
    if timezone is not None:
        p.set_timezone(timezone)
    fs = p.get_view("v").fields(expand_dimension_groups=True)
    I.check("one field per timeframe", len(fs) == 1 and fs[0].dimension_group == tf)
    return fs[0], rendered(f"v.{col}")


@contract("C10", functions=[F + "sql_query", F + "apply_dimension_group_time_sql"], doc=(
    "each timeframe of each warehouse renders the documented truncation/extraction of the field's own expression, "
    "cast to the field's datatype where the dialect needs it"))
def timeframes(I):
    wh = I.choice("warehouse", WAREHOUSES)
    tf = I.choice("timeframe", TIMEFRAMES)
    dt = I.choice("datatype", [None, "date", "datetime"])
    f, s = time_field(I, tf, field_kw={"datatype": dt} if dt else {})
    I.check_eq("alias", f.alias(), f"at_{tf}")
    I.check_eq("sql", f.sql_query(wh), spec_time(wh, tf, s, "monday", 0, (dt or "timestamp").upper()))


@contract("C10", functions=[F + "sql_query"], doc=(
    "the week timeframes shift by exactly the number of days that makes the week begin on the model's week start "
    "day, and shift back after truncating"))
def week_start(I):
    wh = I.choice("warehouse", WAREHOUSES)
    tf = I.choice("timeframe", ["week", "week_index", "week_of_year", "month", "date"])
    day = I.choice("week_start_day", [None] + DAYS)
    f, s = time_field(I, tf, model_kw={"week_start_day": day} if day else {})
    I.check_eq("sql", f.sql_query(wh), spec_time(wh, tf, s, day or "monday", 0, "TIMESTAMP"))


@contract("C10", functions=[F + "sql_query"], doc=(
    "fiscal timeframes, and only they, are computed on the expression moved by the model's fiscal month offset, "
    "for every offset"))
def fiscal_offset(I):
    wh = I.choice("warehouse", WAREHOUSES)
    tf = I.choice("timeframe", TIMEFRAMES)
    off = I.int("offset")
    f, s = time_field(I, tf, model_kw={"fiscal_month_offset": off})
    I.check_eq("sql", f.sql_query(wh), spec_time(wh, tf, s, "monday", off, "TIMESTAMP"))


@contract("C10", functions=[F + "sql_query"], doc=(
    "with a query timezone the expression is converted (before truncation) on every warehouse that can, unless the "
    "field or the model opts out; the field's setting wins"))
def timezone(I):
    wh = I.choice("warehouse", WAREHOUSES)
    tf = I.choice("timeframe", ["raw", "date", "week", "month_of_year", "fiscal_quarter"])
    mkey = I.choice("model_key", ["default_convert_tz", "default_convert_timezone"])
    mset = I.choice("model_setting", [None, True, False])
    fkey = I.choice("field_key", ["convert_tz", "convert_timezone"])
    fset = I.choice("field_setting", [None, True, False])
    tz = I.str("tz", nonempty=True) if I.choice("has_tz", [True, False]) else None
    dt = I.choice("datatype", [None, "date"])
    fk = {} if fset is None else {fkey: fset}
    if dt:
        fk["datatype"] = dt
    f, s = time_field(I, tf, model_kw={} if mset is None else {mkey: mset}, field_kw=fk, timezone=tz)
    convert = fset if fset is not None else mset is not False
    dtu = (dt or "timestamp").upper()
    if tz is not None and convert:
        s = timezone_sql(wh, s, tz, dtu)
    I.check_eq("sql", f.sql_query(wh), spec_time(wh, tf, s, "monday", 0, dtu))
