"""Writes properties.jsonl and MANIFEST.json from one table (python3 tools/meta.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "metrics_layer/core/"
PY = "/opt/venv/bin/python"

TECH = "contract-based deductive verification of the instrumented real code (pyvc VC generation, z3 back end)"

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, claimed=None, na=None, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      claimed=claimed, na=na, observe=list(observe)))


prop(
    "C01", "Access grants hide every object whose grants the user fails",
    "A view, field or dashboard is accessible exactly when every access grant it requires admits the user's value of "
    "that grant's attribute (a user without the attribute, or no user at all, is admitted), a field also needs its view's "
    "grants, and requiring an undefined grant is an error. Listing views, fields or dashboards returns exactly the "
    "accessible ones, and fetching an inaccessible one by name raises the same error as one that does not exist.",
    ["inputs", "configurations"], "all users, grant definitions, required-grant lists of any length, and projects",
    "The tests sample a handful of grant/user combinations; leaks appear for combinations (several grants, missing "
    "attributes, grants on views and fields at once) nobody sampled.",
    [C + "model/project.py", C + "model/view.py", C + "query/query.py"],
    [("Project._can_access_object / can_access_*", C + "model/project.py"), ("Project._all_views, _all_dashboards, get_view, get_field", C + "model/project.py"),
     ("View._all_fields", C + "model/view.py")],
    claimed="Every obligation of the contracts is discharged for all users, grants and requirement lists (any length)",
)
prop(
    "C02", "Access filters restrict every query that touches their view",
    "Every query that uses a field of a view carries, AND-ed with whatever else it filters, each of the view's access filters for which "
    "the user has a value of the named attribute, rendered as that value means (single value, list, exclusion); fields "
    "needed only by the access filter are joined in. Nothing the query asks for, in particular no SQL-text filter, can "
    "widen the restriction; users without the attribute and queries that use no field of the view are not restricted.",
    ["inputs", "configurations"], "all users and attribute values, access-filter declarations, query shapes and filter values",
    "A leak shows only for a particular query shape (field only in having, OR in a text filter, restricting column in "
    "another view) combined with a particular user; tests pin a few SQL strings.",
    [C + "sql/query_design.py", C + "sql/query_generator.py"],
    [("MetricsLayerDesign.get_access_filter", C + "sql/query_design.py"), ("MetricsLayerQuery.parse_definition / _parse_filter_object", C + "sql/query_generator.py")],
    claimed="Every obligation is discharged for all attribute and filter values over the listed query shapes, text filters for a "
    "fixed set of texts with every kind of top-level connective",
)
prop(
    "C03", "Every where and having filter reaches the SQL exactly once",
    "A query's where filters, having filters, filter groups (nested to any shape), always_filters of the views it uses and "
    "group_by filters all appear in the generated SQL exactly once, each AND-ed as a whole with the others, groups joined "
    "by their own logical operator with the brackets that keep them one operand; a filter that cannot be applied (unknown "
    "operator, expression or field, missing field or value, a group mixing measures and dimensions) is refused, never dropped.",
    ["inputs"], "filter lists of any length, group nestings, filter kinds, values and combinations of them",
    "A dropped, duplicated or wrongly bracketed filter shows only for particular combinations and nestings.",
    [C + "sql/query_generator.py", C + "sql/query_filter.py", C + "sql/resolve.py", C + "sql/single_query_resolve.py", C + "utils.py"],
    [("MetricsLayerQuery.parse_definition / get_query", C + "sql/query_generator.py"), ("MetricsLayerFilter.sql_query / group_sql_query / cte / isin_sql_query", C + "sql/query_filter.py"),
     ("SQLQueryResolver._apply_always_filter / _clean_conditional_filter_syntax", C + "sql/resolve.py"), ("SingleSQLQueryResolver.parse_where / parse_having", C + "sql/single_query_resolve.py")],
    claimed="Every obligation is discharged for all values; plain lists and the conditions of a group for any length, nested "
    "groups for nine nesting shapes with arbitrary values",
)
prop(
    "C04", "Filter expressions mean the documented SQL operators",
    "Each filter expression renders the documented SQL predicate over the filtered column: the literal values are passed "
    "through unchanged as escaped SQL literals, membership covers exactly the given values, "
    "and an unknown expression raises instead of being dropped. String filter values in dashboard and "
    "measure filters (lists, negations, wildcards, comparisons, ranges, null/boolean words) parse to the corresponding "
    "expression and value.",
    ["inputs"], "all expressions, all column SQL texts, all literal values and value lists of any length",
    "Expressions x value shapes x lengths is unbounded; tests pin single examples of each operator.",
    [C + "model/filter.py", C + "sql/query_filter.py", C + "model/field.py"],
    [("Filter.sql_query", C + "model/filter.py"), ("Filter._filter_dict / filter_dict", C + "model/filter.py"), ("Field filters on measures", C + "model/field.py")],
    claimed="Every obligation is discharged for all column texts and values, membership and measure filters for lists of any length",
)
prop(
    "C05", "Aggregates stay correct when joins fan rows out",
    "A measure of type sum, count or average is rendered as a plain aggregate only when the query's rows are unique on the "
    "measure's own view primary key or the warehouse has no symmetric aggregates; otherwise it is rendered as the "
    "deduplicating aggregate keyed on its own view's primary key, or the query is refused when that key is missing. "
    "Distinct aggregates count distinct keys, order statistics are refused or rendered per warehouse rather than silently "
    "fanned out, and number measures apply these rules to every measure they reference.",
    ["inputs", "configurations"], "all column/primary-key SQL texts, all ten warehouses, all measure types and functional keys",
    "Tests pin specific SQL strings for a few warehouses; wrong totals come from a type x warehouse x key combination not pinned.",
    [C + "model/field.py", C + "sql/query_design.py"],
    [("Field.aggregate_sql_query and per-type renderers", C + "model/field.py"), ("MetricsLayerDesign.functional_pk", C + "sql/query_design.py")],
    claimed="Every obligation of the renderers is discharged for all SQL texts, all warehouses, types and functional keys; that the "
    "functional key is right for the join tree (functional_pk) is decided for every join tree of up to four views (bounded, exhaustive)",
)
prop(
    "C06", "Joins use the declared keys, never an undeclared fan-out",
    "A query joins every view whose fields it needs exactly once, each after a view it is joined to, on the declared key "
    "columns (or the declared join SQL and join type) of a relationship between the two, never along a relationship that "
    "multiplies rows unless the views allow that fan-out, and never between views not connected by declared identifiers; when no such join exists the "
    "query is refused, and when some view reaches all the others it is answered.",
    ["inputs", "configurations"], "all join trees and relationships, key column SQL texts, join kinds, allowed fan-outs and used view sets",
    "The number of tree shapes x relationships x used views is combinatorial and tests pin a single model.",
    [C + "sql/query_design.py", C + "model/join_graph.py", C + "model/join.py"],
    [("MetricsLayerDesign.joins / determine_join_order", C + "sql/query_design.py"), ("JoinGraph.build / _identifier_to_join", C + "model/join_graph.py"), ("Join.replaced_sql_on", C + "model/join.py")],
    claimed="The ON clauses, join types and choice among identifiers of every two-view join are proved for all key texts; the choice of joins is decided for every join tree of "
    "up to four views, every relationship on each edge and every set of used views (bounded, exhaustive)",
)
prop(
    "C10", "Time dimensions truncate to the documented period",
    "Every timeframe of a time dimension renders, per warehouse, the expression for exactly that period, honouring the "
    "configured week start day, fiscal month offset, time zone conversion (applied once, only to time-of-day data types "
    "and only when conversion is on) and the column's data type. An unsupported timeframe is an error, never a wrong period.",
    ["inputs", "configurations"], "all column SQL texts, all timeframes, warehouses, week start days, offsets, time zones and data types",
    "The space timeframe x warehouse x week start x offset x zone x datatype is sampled thinly by the tests.",
    [C + "model/field.py"], [("Field.dimension_group_sql / apply_dimension_group_time_sql", C + "model/field.py")],
    claimed="Every obligation is discharged for all SQL texts and every combination of the finite configuration space",
)
prop(
    "C11", "Duration groups measure end minus start in the named unit",
    "A duration dimension group renders, for each interval and warehouse, the number of that interval from the start "
    "expression to the end expression (in that order), and an interval or warehouse it does not support raises.",
    ["inputs", "configurations"], "all start/end SQL texts, all intervals and warehouses",
    "Interval x warehouse combinations have different argument orders and units; tests pin some of them with one example.",
    [C + "model/field.py"], [("Field.dimension_group_duration_sql", C + "model/field.py")],
    claimed="Every obligation is discharged for all SQL texts, intervals and warehouses",
)
prop(
    "C26", "Tier, case and yes/no dimensions classify every value as declared",
    "A tier dimension puts each value in the half-open bucket its cut points define (below the first, between two, at or above the last, "
    "Unknown when there is no value); a case dimension gives each condition its own label in the declared order and the else label, "
    "when declared, to everything else, labels being SQL string literals whatever text they hold; a yes/no dimension is its condition "
    "kept as one operand. The same expression is selected and grouped by, with field references resolved.",
    ["inputs"], "all column SQL, condition and label texts, cut points, and lists of any length",
    "Cut-point lists, labels and conditions are unbounded; a wrong boundary or a dropped label shows for particular values only.",
    [C + "model/field.py"], [("Field.sql / _translate_looker_tier_to_sql / _translate_looker_case_to_sql", C + "model/field.py")],
    claimed="Every obligation is discharged for all texts and numbers, tiers and whens of any length",
)

prop(
    "C08", "A field reference means the referenced field",
    "Wherever the SQL of a field (dimension, measure, number measure, time or duration group, measure filter) references other fields with "
    "${field}, ${view.field} or ${TABLE}, each reference stands for the referenced field's own SQL (for a measure its aggregate as one "
    "operand), in any letter case and through any chain of references, the surrounding text is kept, every view reached is joined into "
    "the query, and a reference to something that does not exist is refused.",
    ["inputs"], "all SQL texts around and inside the references, all reference kinds, chains through up to three views",
    "Which text surrounds a reference and how references chain is unbounded; a wrong substitution or a missing join shows for particular chains.",
    [C + "model/field.py", C + "model/base.py", C + "sql/query_design.py"],
    [("Field.replace_fields / get_replaced_sql_query / _number_aggregate_sql", C + "model/field.py"), ("Field.required_views", C + "model/field.py"), ("SQLReplacement.fields_to_replace", C + "model/base.py")],
    claimed="Every obligation is discharged for all SQL texts over the listed reference kinds, consumers and chains",
)
prop(
    "C09", "A field name denotes one field, or the query is refused",
    "Asking for a field by name finds exactly the field with that name, letter case aside, within the named view when the name is qualified or "
    "a view is given; time and duration groups answer to each of their timeframes and intervals and to nothing else, and `count` of a view "
    "without such a field is its row count. A name that several fields answer to, or none, is refused rather than guessed, as are a query "
    "naming a field twice and one mixing fields of two models.",
    ["inputs"], "all field names and asked names (any letter case), qualified and unqualified, over projects of two and three views",
    "Collisions between names, suffixes (`order_raw`), views and models depend on the text of the names, which tests fix once.",
    [C + "model/project.py", C + "model/field.py", C + "sql/resolve.py"],
    [("Project.get_field / _matching_field_handler / _parse_field_and_view_name", C + "model/project.py"), ("Field.equal / alias", C + "model/field.py"), ("SQLQueryResolver._derive_model", C + "sql/resolve.py")],
    claimed="Every obligation of the lookup is discharged for all names; name resolution inside whole queries exhaustively over a small set of names (bounded)",
)
prop(
    "C13", "Same question, same answer: nothing of one request stays behind for the next",
    "The answer to a request depends only on the project's definition, the user, the settings in force and the request: it is the same whether "
    "the project was just loaded or answered or refused other requests before (also for other users, other time zones, or another project with "
    "the same definition in the process), the same when repeated, and the same in every process. A request changes neither the caller's lists "
    "and dictionaries nor the project's definition.",
    ["histories", "configurations"], "histories of every request shape once, pairs of 43 requests, changes of user and zone; all column texts, filter values and user attributes in the proofs",
    "Fields, views and join graphs are shared and memoised between queries; a test asks each query on a project of its own, once.",
    [C + "model/project.py", C + "model/field.py", C + "model/join_graph.py", C + "sql/resolve.py", C + "sql/query_cumulative_metric.py", C + "query/query.py"],
    [("SQLQueryResolver.__init__ / get_query", C + "sql/resolve.py"), ("Project.get_field / fields / __hash__ / set_user", C + "model/project.py")],
    claimed="Every obligation of frame, users_change and after_everything is discharged for all texts; pairs of requests, settings and hash seeds are exhaustive over the stated lists (bounded)",
)
prop(
    "C14", "Merged results: each measure from its own rows, lined up on shared dimensions",
    "Measures of views that cannot be joined (or of one view with different dates, when a merged measure asks for it) are each computed by a "
    "query of their own view alone, grouped by that view's own date or its own side of a mapped dimension, under the same filters translated to "
    "that side's columns; the results are full-outer-joined on all of these dimensions, every dimension is output with the value of whichever "
    "side has one, merged measures are computed from the joined columns, and filters on measures and the limit apply to the joined rows. A "
    "dimension or filter that one side has no mapping for, or a measure without a date, is refused.",
    ["inputs", "configurations"], "all column texts, values and limits; two or three sides; every warehouse; asked through either side or the mapping",
    "A wrong side, key or filter in one of the sub-queries silently mixes unrelated rows; tests pin a few projects of few views.",
    [C + "sql/merged_query_resolve.py", C + "sql/query_merged_results.py"],
    [("MergedSQLQueryResolver.derive_sub_queries / _canon_date_mapping / get_query", C + "sql/merged_query_resolve.py"), ("MetricsLayerMergedResultsQuery.get_query", C + "sql/query_merged_results.py")],
    claimed="Every obligation is discharged for all texts, values and limits over the listed shapes of projects and queries",
)
prop(
    "C23", "Selecting the measure's own primary key returns rows, everything else groups",
    "A query that asks for a measure together with the primary key of the first measure's view returns that view's rows without grouping: "
    "each measure appears as its row-level expression, number measures as the expressions of all measures they are built from, each column "
    "once, with filters and limit still applied; ordering such a query or filtering it on aggregates is refused. Every other query with "
    "dimensions is grouped by exactly its dimensions.",
    ["inputs", "configurations"], "all column texts, filter values, limits and warehouses, over the kinds of measures and dimension lists",
    "Whether a query is silently aggregated or not depends on keys, views and options in combination; tests pin a few.",
    [C + "sql/single_query_resolve.py", C + "sql/query_generator.py"],
    [("SingleSQLQueryResolver.parse_input", C + "sql/single_query_resolve.py"), ("MetricsLayerQuery._get_no_group_by_select_columns / _sql_from_field_no_group_by / get_query", C + "sql/query_generator.py")],
    claimed="Every obligation is discharged for all texts, values and limits over the listed measures, dimension lists and warehouses",
)
prop(
    "C24", "Order, limit and terminator are the ones asked for, in every dialect",
    "A query is ordered by exactly the fields asked for, in that order, each in its own direction (ascending when none is given) with "
    "nulls last where the dialect can say so, whether the order is given as a list or as text and whatever the fields are called; "
    "without a requested order the warehouses that have a default get the first measure descending or else the first dimension "
    "ascending. A limit reaches the outermost statement in the dialect's form, one semicolon ends the statement where the warehouse "
    "takes one, and ordering by an unknown field is refused.",
    ["inputs", "configurations"], "all warehouses, limits, order lists of up to five fields and directions, field names",
    "The combinations of dialect, order, limit and field names are sampled by a few tests, mostly on one warehouse.",
    [C + "sql/query_generator.py", C + "sql/query_dialect.py", C + "sql/single_query_resolve.py"],
    [("MetricsLayerQuery.get_query / _parse_order_by_object", C + "sql/query_generator.py"), ("QueryBuilderWithOrderByNullsOption, query_lookup", C + "sql/query_dialect.py"), ("SingleSQLQueryResolver.get_query / parse_input", C + "sql/single_query_resolve.py")],
    claimed="Every obligation is discharged for all limits and unknown names on every warehouse, order lists of up to five fields; orders given as text "
    "for a fixed set of texts (exhaustive)",
)

prop(
    "C12", "Relative date filters cover exactly the period they name",
    "A date filter written in words (today, this week, last quarter, 3 months, 14 days ago, year to date, 5 weeks ago for 2 days, ...) restricts "
    "the date to exactly the days of the period named, from the first moment of its first day to the last moment of its last, counted from the "
    "current day in the query's time zone (also when clocks change), with weeks starting on the model's week start day; 'to date' ends with the last full day. A date written out is "
    "that date, a range given by two words or dates is that range, and words that are not understood are never taken for another period or "
    "left to influence later filters.",
    ["inputs", "configurations"], "all days, time zones, week start days, warehouses and periods named (unit x count x modifier)",
    "What a relative date means depends on the day it is asked; the tests ask on the day they run (and one unit of each kind).",
    [C + "model/filter.py", C + "sql/query_filter.py"],
    [("Filter.parse_date_condition / _parse_n_interval* / _start_date / _end_date / _add_to_end_date", C + "model/filter.py"), ("MetricsLayerFilter.criterion", C + "sql/query_filter.py")],
    claimed="relative and warehouses are discharged for every day and offset under the assumed contract of pendulum's calendar operations; that contract "
    "and written-out dates are cross-checked with the real library exhaustively over listed days, zones and texts (bounded)",
)
prop(
    "C15", "A mapping name stands for the one of its fields that belongs to the query",
    "A name that the model maps to several fields may be used in a query wherever a field may: selected, filtered (listed, in a group of filters, or in "
    "a filter given as text), and ordered by, in any letter case. The query is then the one with the mapping's first field that can be joined to the query's "
    "own fields in its place, each of several names resolved by the same rule; the date names (date, week, month, ...) stand for the first measure's own date "
    "or, without measures, the date of the view the query is most about, at the granularity named. Only the identifier is replaced, never the same letters in a "
    "value or a longer name; a real field of that name wins; and a name none of whose fields can be joined to the query is refused, as is a name the user may not see.",
    ["inputs", "configurations"], "all column texts and values; the mappings, mixes of measures, uses and letter cases listed",
    "Which field a mapped name means depends on the join graph, the list order and everything else in the query; tests pin a few.",
    [C + "sql/resolve.py", C + "model/project.py", C + "model/model.py", C + "sql/query_base.py"],
    [("SQLQueryResolver._resolve_mapped_fields / _replace_mapped_field / determine_field_to_replace_with", C + "sql/resolve.py"), ("Project.get_mapped_field", C + "model/project.py"), ("Model.mappings", C + "model/model.py")],
    claimed="Every obligation is discharged for all texts and values over the listed mappings and queries; filters and orders given as text for a fixed set of texts (exhaustive)",
)
prop(
    "C16", "Cumulative metrics accumulate every row up to each date",
    "For every period (day to year) of the calendar up to today and every group of the other dimensions, a cumulative metric is its measure over all "
    "rows of its view dated no later, the rows being dated in the query's time zone and the calendar not converted. A filter on the date "
    "restricts the periods shown, never the rows accumulated; every other filter, the measure's own filters, its cumulative condition and the user's access filter "
    "restrict the rows. Several cumulative, plain and derived measures of one query are computed apart and line up on every dimension of the query; a warehouse without a "
    "calendar is refused.",
    ["inputs", "configurations"], "all column texts, values and limits; the timeframes, time zones, warehouses, filters and mixes of measures listed",
    "Which rows a cumulative number contains depends on filter x window x zone x granularity; tests pin a few SQL texts.",
    [C + "sql/query_cumulative_metric.py", C + "model/field.py"],
    [("CumulativeMetricsQuery.get_query and its CTE builders", C + "sql/query_cumulative_metric.py"), ("CumulativeMetricsQuery._replace_cumulative_where", C + "sql/query_cumulative_metric.py")],
    claimed="Every obligation is discharged for all texts and values over the listed shapes of queries",
)
prop(
    "C17", "Funnels follow each subject through its steps in order, within the window",
    "The first step of a funnel is the events that meet its condition; each later step, the events that meet its own and come after an event of the same "
    "subject (the link identifier) in the step before, within the allowed time, in the named unit, of that chain's first event. Each step is one row of the result per "
    "group, numbered in order, each measure counting every event of the step once; filters on dimensions, and the user's access filter, restrict the events, "
    "filters on measures and the limit the result. A funnel without window, steps, link or determined event time is refused.",
    ["inputs", "configurations"], "all column texts, condition values and windows; up to five steps; measures, groups, filters and warehouses listed",
    "An off-by-one in the step order, the window or the filters changes numbers only for particular event histories; tests pin some SQL.",
    [C + "sql/query_funnel.py"],
    [("FunnelQuery.get_query / _step_x_query / _base_query / _union_cte_query", C + "sql/query_funnel.py")],
    claimed="Every obligation is discharged for all texts, values and windows over the listed numbers of steps and shapes of queries",
)
prop(
    "C21", "Merged queries join whole results on the fields asked for",
    "A request of several merged queries answers each of them as the query it would be by itself (its own filters, order, limit and the user's access filters inside), "
    "and joins the results one by one to the first, on every pair of fields given, with the join asked for (left by default). Every measure and dimension of the queries is "
    "a column of the result once, but for the fields that are joined on. Filters, order and limit of the whole apply to the joined rows, to the query each field came "
    "from, in the warehouse's dialect, and the statement comes with the connection it is written for. Fields may be named in any letter case and by mapping "
    "names; join fields that a query does not select, and filters or orders on fields that none selects, are refused.",
    ["inputs", "configurations"], "all column texts, values and limits; two to four queries, joins, join fields, uses and warehouses listed",
    "The pieces (joins, filters, names, dialects, sub-queries) are each tested with one example; what breaks is their combination.",
    [C + "sql/arbitrary_merge_resolve.py", C + "sql/query_arbitrary_merged_queries.py", C + "sql/query_base.py", C + "query/query.py"],
    [("ArbitraryMergedQueryResolver.get_query and its helpers", C + "sql/arbitrary_merge_resolve.py"), ("MetricsLayerMergedQueries.get_query", C + "sql/query_arbitrary_merged_queries.py"),
     ("MetricsLayerFilter.group_sql_query / _handle_cte_alias_replacement", C + "sql/query_filter.py")],
    claimed="Every obligation is discharged for all texts, values and limits over the listed shapes of requests; each merged query is compared with the real resolver's answer for it alone",
)
prop(
    "C18", "A set or drill list is exactly the fields it adds minus those it takes away",
    "A set of fields, or the drill list of a field, lists once each and in the order given the fields it names and those of the sets it takes in (ALL_FIELDS being "
    "every field of the view), except every field and every set's fields it takes away with a '-', wherever in the list that is written. An unqualified name, of a field or of a set, "
    "is one of the list's own view; letter case in a field name makes no difference; a set asked for by name lists the same every time; a field that gives no drill list has none, "
    "and a name that is in no view the list belongs to is refused.",
    ["inputs", "configurations"], "all names of fields and sets; the shapes of lists (added, taken away, nested sets, own and other views) listed",
    "What a list leaves out depends on order, nesting, names and letter case; tests pin a few lists.",
    [C + "model/set.py", C + "model/field.py", C + "model/project.py"],
    [("Set.field_names / _internal_get_field_names_from_set", C + "model/set.py"), ("Field.drill_fields", C + "model/field.py"), ("Project.get_set", C + "model/project.py")],
    claimed="Every obligation is discharged for all names over the listed shapes of lists",
)
prop(
    "C19", "A query runs unchanged on its model's connection; secrets are never shown",
    "A query is written in the dialect of its model's connection and run on that connection, whatever other connections there are: once, as the very text get_sql_query "
    "shows, with the timeout asked for, in one session opened with exactly the connection's credentials (after its warehouse, database and schema are set, unless declined); its rows, or the "
    "cursor when that is asked for, come back. A model whose connection is missing, or whose warehouse cannot be queried from here, is refused before anything is opened. Connections are the ones "
    "given, in order, found by name. What is printed of a connection tells its name, account, host, user and database and does not depend on its password, token, secret or key; what a "
    "connection can do without may be left out.",
    ["inputs", "configurations"], "all query texts, credentials and names; the warehouses, options and orders of connections listed",
    "Credentials and the running of queries are outside what offline tests can reach; a leaked or misplaced credential shows for particular values only.",
    [C + "sql/query_runner.py", C + "parse/connections.py", C + "query/query.py", C + "parse/project_loader.py"],
    [("QueryRunner.run_query and the driver calls", C + "sql/query_runner.py"), ("*.to_dict / printable_attributes", C + "parse/connections.py"), ("MetricsLayerConnection.query / get_connection", C + "query/query.py")],
    claimed="Every obligation is discharged for all texts over recorded drivers (the warehouses' libraries are stand-ins that record their calls); BigQuery key files are checked for one key (exhaustive over the ways to give it)",
)
prop(
    "C20", "A dashboard asks exactly what its file says",
    "The elements of a dashboard are the ones its file lists, in order, each with the metrics (one or several), slices, title and model given there; the filters of the dashboard and of each element are "
    "exactly the ones written, in order, each as the condition its value stands for, weeks counted as the element's model does and days in the project's timezone. Given to a query they restrict it by exactly "
    "those conditions, the element's and the dashboard's together. A dashboard told as a dictionary has all that its file says and telling it changes nothing. Validating it reports one error for "
    "each reference (metric, slice, filter, model) to something that is not there, and none otherwise.",
    ["inputs", "configurations"], "all titles, names and filter values, all days for filters in words; the elements, filters and conditions listed",
    "Each value of a filter is a small language of its own, combined with fields, models and zones; tests pin one dashboard.",
    [C + "model/dashboard.py", C + "model/filter.py"],
    [("Dashboard / DashboardElement parsed_filters, to_dict, collect_errors", C + "model/dashboard.py"), ("Filter.filter_dict", C + "model/filter.py")],
    claimed="Every obligation is discharged for all texts over the listed dashboards; pendulum's calendar operations by assumed contract, as in C12",
)
prop(
    "C22", "Validation reports every reference that leads nowhere and changes nothing",
    "Validating a project reports an error, naming the reference, for a field that is not there when it is named in the SQL of a dimension, measure, time or duration group or distinct key, in a measure's filter, "
    "a drill list, a canonical date, a non-additive window's groupings, an always_filter, an access filter, a set, a mapping, or by a dashboard; for a measure a number or cumulative measure is calculated from; for a grant a view or field requires; and "
    "for the default date or event dimension of a view. A reference to something that is there is never reported. Validation answers for definitions that are incomplete too, reports "
    "the same when asked again, and queries afterwards are what they were before.",
    ["inputs", "configurations"], "all reference names, qualified or not; every place for a reference listed; the incomplete definitions listed",
    "A place where a dangling name goes unreported, or a valid one is reported, shows for particular names and views; tests sample a few messages.",
    [C + "model/project.py", C + "model/view.py", C + "model/field.py", C + "model/model.py", C + "model/dashboard.py", C + "model/set.py"],
    [("Project.validate", C + "model/project.py"), ("View.collect_errors", C + "model/view.py"), ("Field.collect_errors / referenced_fields", C + "model/field.py"), ("Model.collect_errors", C + "model/model.py")],
    claimed="Every obligation is discharged for all names over the listed places of a reference; incomplete definitions are a fixed list (exhaustive)",
)
prop(
    "C25", "A non-additive measure counts only the rows of its chosen date",
    "A measure with a non-additive dimension aggregates, in each group of the result, only the rows whose date is the last (or first) of the date's values in the row's window: the rows of the query's own dimensions and the measure's "
    "window groupings, or of the groupings alone (and each period of its own date) when the measure is not aware of the query's dimensions; empty dates are a window of their own "
    "when the measure says so. The window is looked for among the query's own rows, so that every filter of the query and every access filter holds for both. This holds for every kind of aggregation, on every warehouse, for a measure that is one of several, part "
    "of a calculation, filtered itself or only a condition on the result, and for dates and groupings of other views; the query leaves the project as it was.",
    ["inputs", "configurations"], "all column texts and filter values; the kinds of measures, windows, filters, joins and warehouses listed",
    "Which rows count depends on window x dimensions x filters x joins; tests pin some SQL texts.",
    [C + "sql/query_generator.py", C + "model/field.py", C + "sql/query_filter.py"],
    [("MetricsLayerQuery._non_additive_cte / get_query", C + "sql/query_generator.py"), ("Field.sql / non_additive_alias / non_additive_cte_alias", C + "model/field.py")],
    claimed="Every obligation is discharged for all texts and values over the listed shapes of measures and queries",
)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["claimed"]:
            cmd = f"{PY} -m pyvc.runner {p['id']}"
            checks.append({
                "property": p["id"], "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                "technique": TECH, "level": "proof", "level_note": p["claimed"] +
                ". Trusted: the pyvc VC generator, CPython for concrete steps, z3; assumptions are listed per run in the evidence file.",
            })
        else:
            na.append({"property": p["id"], "reason": p["na"] or "no check built yet"})
    m = {"version": 1, "setup_cmd": f"{PY} -m pyvc.setup", "checks": checks, "not_applicable": na,
         "notes": "see DESIGN.md; every check re-instruments and re-verifies /repo's current source on each run"}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
