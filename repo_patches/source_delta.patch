From f6e267aaaa697a89a05dff9212ae834511bfb337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:25 +0000
Subject: [PATCH 01/38] fix: keep a literal where filter from escaping access
 filters

---
 metrics_layer/core/sql/query_generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index 5fea256..a3dd2a5 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -106,7 +106,9 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
 
         # Handle literal filter
         if isinstance(filter_object, str):
-            filter_literal = MetricsLayerFilter(definition={"literal": filter_object}, **extra_kwargs)
+            # An OR in the literal must not be able to get around the access filter it is combined with
+            literal = f"({filter_object})" if access_filter else filter_object
+            filter_literal = MetricsLayerFilter(definition={"literal": literal}, **extra_kwargs)
             results.append(filter_literal)
 
         # Handle JSON filter
-- 
2.43.0


From bae54d956717b5ffc18d10c9e3e104b86ab293a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:24 +0000
Subject: [PATCH 02/38] fix: allow several group by filters in one query

---
 metrics_layer/core/sql/query_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index a3dd2a5..386f596 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -187,7 +187,7 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
 
         if self.having_group_by_filters:
             group_by_where = []
-            for i, f in enumerate(sorted(self.having_group_by_filters)):
+            for i, f in enumerate(self.having_group_by_filters):
                 cte_alias = f"filter_subquery_{i}"
                 cte_query = f.cte(query_class=MetricsLayerQuery, design_class=MetricsLayerDesign)
                 base_query = base_query.with_(Table(cte_query), cte_alias)
-- 
2.43.0


From 702690eca04addfdffea248fb7f52d02d745f6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:24 +0000
Subject: [PATCH 03/38] fix: AND group by filters with the whole of a literal
 where filter

---
 metrics_layer/core/sql/query_generator.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index 386f596..e719148 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -173,6 +173,12 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
         # Apply the where filters
         if self.where_filters:
             where = [f.sql_query() for f in self.where_filters]
+            if self.having_group_by_filters:
+                # The group by filters are AND-ed below with the whole literal, not with a part of it
+                where = [
+                    LiteralValueCriterion(f"({w})") if f.is_literal_filter else w
+                    for f, w in zip(self.where_filters, where)
+                ]
             base_query = base_query.where(Criterion.all(where))
 
         # Group by
-- 
2.43.0


From d45cbea94d7065be5803c4e7839d3e6d6afc7f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:21 +0000
Subject: [PATCH 04/38] fix: do not treat a view joined from fanned out rows as
 the query's grain

---
 metrics_layer/core/sql/query_design.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/metrics_layer/core/sql/query_design.py b/metrics_layer/core/sql/query_design.py
index a1113e5..2011675 100644
--- a/metrics_layer/core/sql/query_design.py
+++ b/metrics_layer/core/sql/query_design.py
@@ -235,6 +235,8 @@ class MetricsLayerDesign:
 
         previous_join_type = None
         base_sequence = deepcopy([base_view.name])
+        # The views whose rows each appear at most once in the rows joined so far
+        unique_views = {base_view.name}
         for i, j in enumerate(sorted_joins):
             previous_join_type = None if i == 0 else sorted_joins[i - 1].relationship
             if j.relationship == ZenlyticJoinRelationship.many_to_many:
@@ -246,7 +248,13 @@ class MetricsLayerDesign:
             ):
                 return Definitions.does_not_exist
             elif j.relationship == ZenlyticJoinRelationship.one_to_many:
+                # If the view we join from is already fanned out, so is the view we join to
+                if j.base_view_name not in unique_views:
+                    return Definitions.does_not_exist
+                unique_views = {j.join_view_name}
                 base_sequence.append(j.join_view_name)
+            elif j.relationship == ZenlyticJoinRelationship.one_to_one and j.base_view_name in unique_views:
+                unique_views.add(j.join_view_name)
         primary_key = base_sequence[-1]
         return primary_key
 
-- 
2.43.0


From 13b5fc32e6b1ea2fb5fae01d4d38457f06c6602c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:35 +0000
Subject: [PATCH 05/38] fix: escape quotes in the labels of a case dimension

---
 metrics_layer/core/model/field.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 8408d23..ebf0257 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -2635,11 +2635,13 @@ class Field(MetricsLayerBase, SQLReplacement):
         for when in case["whens"]:
             # Do this so the warehouse doesn't think it's an identifier
             when_condition_sql = when["sql"].replace('"', "'")
-            when_sql = f"when {when_condition_sql} then '{when['label']}' "
+            label = str(when["label"]).replace("'", "''")
+            when_sql = f"when {when_condition_sql} then '{label}' "
             case_sql += when_sql
 
         if case.get("else"):
-            case_sql += f"else '{case['else']}' "
+            else_label = str(case["else"]).replace("'", "''")
+            case_sql += f"else '{else_label}' "
 
         return case_sql + "end"
 
-- 
2.43.0


From eee3cc30f82767a06d72f2ed17adadf9443c1b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:35 +0000
Subject: [PATCH 06/38] fix: keep an else label of a case dimension that is
 empty or zero

---
 metrics_layer/core/model/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index ebf0257..41e1b53 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -2639,7 +2639,7 @@ class Field(MetricsLayerBase, SQLReplacement):
             when_sql = f"when {when_condition_sql} then '{label}' "
             case_sql += when_sql
 
-        if case.get("else"):
+        if case.get("else") is not None:
             else_label = str(case["else"]).replace("'", "''")
             case_sql += f"else '{else_label}' "
 
-- 
2.43.0


From 11652ee786e3c5c8c24e84b9493111e45690897e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:39 +0000
Subject: [PATCH 07/38] fix: keep asc and desc inside field names of a literal
 order by

---
 metrics_layer/core/sql/query_generator.py | 25 +++++++----------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index e719148..483383a 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -1,3 +1,4 @@
+import re
 from copy import copy
 from typing import Dict, List
 
@@ -124,24 +125,12 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
         # Handle literal order by
         if isinstance(order_by, str):
             for order_clause in order_by.split(","):
-                if "desc" in order_clause.lower():
-                    field_reference = (
-                        order_clause.lower()
-                        .replace("desc", "")
-                        .replace("nulls last", "")
-                        .replace("nulls first", "")
-                        .strip()
-                    )
-                    results.append({"field": field_reference, "sort": "desc"})
-                else:
-                    field_reference = (
-                        order_clause.lower()
-                        .replace("asc", "")
-                        .replace("nulls last", "")
-                        .replace("nulls first", "")
-                        .strip()
-                    )
-                    results.append({"field": field_reference, "sort": "asc"})
+                # Only the trailing direction (and null placement) is not part of the field's name
+                field_reference = re.sub(r"\s+nulls\s+(first|last)$", "", order_clause.lower().strip())
+                field_reference, direction = re.match(
+                    r"(.*?)(?:\s+(asc|desc))?$", field_reference, flags=re.DOTALL
+                ).groups()
+                results.append({"field": field_reference.strip(), "sort": direction or "asc"})
 
         # Handle JSON order_by
         if isinstance(order_by, list):
-- 
2.43.0


From 36fe48ddb1826bb642737ef45f136c55ea52aeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:41 +0000
Subject: [PATCH 08/38] fix: match join graphs of merged results by whole name,
 not by prefix

A mapping or a date filter looked a side up with a substring test, so with more
than ten join graphs subquery_1 was taken for subquery_11: the dimension or the
filter of an unrelated view was put into that side's query, which then failed
with a join error.
---
 metrics_layer/core/sql/merged_query_resolve.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/sql/merged_query_resolve.py b/metrics_layer/core/sql/merged_query_resolve.py
index 8c8b5f6..dd4bcf1 100644
--- a/metrics_layer/core/sql/merged_query_resolve.py
+++ b/metrics_layer/core/sql/merged_query_resolve.py
@@ -234,7 +234,9 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
                             # using the mapping that exists going "to" the join hash we're in the loop for
                             else:
                                 canon_date = ref_field.canon_date.replace(".", "_")
-                                if mapping_info["to_join_hash"] in join_hash:
+                                if self._join_hash_contains_join_graph(
+                                    join_hash, [mapping_info["to_join_hash"]]
+                                ):
                                     self.query_dimensions[join_hash].append(ref_field)
                                     break
 
@@ -299,7 +301,7 @@ class MergedSQLQueryResolver(SingleSQLQueryResolver):
             f"subquery{g}".strip("_") for g in joinable_graphs.split("subquery") if g != ""
         ]
         joinable_not_canon_date = not is_canon_date and join_group_hash in joinable_subqueries
-        is_canon_date_same = is_canon_date and join_hash_with_canon_date in join_hash
+        is_canon_date_same = is_canon_date and join_hash_with_canon_date == join_hash
         if joinable_not_canon_date or is_canon_date_same:
             return where_filter_object
         else:
-- 
2.43.0


From f1e5d141259b30a19b620099e03107ce096850f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:16 +0000
Subject: [PATCH 09/38] fix: do not change the caller's request while resolving
 a query

The resolver replaced mapped fields inside the lists the caller passed, extended
the caller's where list with the views' always filters and wrote into its filter
dicts, so a list used for a second query made that query group by, or filter on,
what belonged to the first one.
---
 metrics_layer/core/sql/resolve.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/metrics_layer/core/sql/resolve.py b/metrics_layer/core/sql/resolve.py
index f248065..4fd3aa4 100644
--- a/metrics_layer/core/sql/resolve.py
+++ b/metrics_layer/core/sql/resolve.py
@@ -35,15 +35,16 @@ class SQLQueryResolver(SingleSQLQueryResolver):
         self.project = project
         self.model = self._get_model_for_query(kwargs.get("model_name"), metrics, dimensions)
         self.connections = connections
-        self.metrics = metrics
-        self.dimensions = dimensions
+        # These are changed in place while resolving the query, and they belong to the caller
+        self.metrics = list(metrics)
+        self.dimensions = list(dimensions)
         self.funnel = funnel
-        self.where = where if where else []
+        self.where = deepcopy(where) if where else []
         always_where = self._apply_always_filter(metrics + dimensions)
         if always_where:
             self.where.extend(always_where)
         self.where = self._clean_conditional_filter_syntax(self.where)
-        self.having = self._clean_conditional_filter_syntax(having)
+        self.having = self._clean_conditional_filter_syntax(deepcopy(having))
         self.order_by = order_by
         self.kwargs = kwargs
         self.connection = self._get_connection(self.model.connection)
-- 
2.43.0


From 0ef8181c4033071f3ce996ea5f3b9273db24ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:46 +0000
Subject: [PATCH 10/38] fix: looking a dimension up by name does not change
 later lookups

get_dimension matched the name against the shared, unexpanded fields, and
matching sets the dimension group on the field: after get_dimension('order_raw')
the field was stuck on raw and get_dimension('order_month') failed.
---
 metrics_layer/core/query/query.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/query/query.py b/metrics_layer/core/query/query.py
index 0ab3469..5c64b85 100644
--- a/metrics_layer/core/query/query.py
+++ b/metrics_layer/core/query/query.py
@@ -2,6 +2,7 @@ import sqlparse
 
 from metrics_layer.core.convert import MQLConverter
 from metrics_layer.core.exceptions import QueryError
+from metrics_layer.core.model.field import Field
 from metrics_layer.core.parse import ProjectLoader
 from metrics_layer.core.parse.connections import BaseConnection
 from metrics_layer.core.sql import QueryRunner, SQLQueryResolver
@@ -213,7 +214,8 @@ class MetricsLayerConnection:
         return dimensions
 
     def get_dimension(self, dimension_name: str, view_name: str = None):
-        dimensions = self.list_dimensions(view_name=view_name)
+        # Matching a name sets the dimension group on the field, and the listed fields are shared
+        dimensions = [Field(d.to_dict(), view=d.view) for d in self.list_dimensions(view_name=view_name)]
         try:
             dimension = next((d for d in dimensions if d.equal(dimension_name)))
             return dimension
-- 
2.43.0


From 66b1e6be3bf81a3b00f965e49a423a446ae4a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:08 +0000
Subject: [PATCH 11/38] fix: cumulative queries look dates up at the filter's
 granularity instead of changing the shared field

---
 metrics_layer/core/sql/query_cumulative_metric.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/metrics_layer/core/sql/query_cumulative_metric.py b/metrics_layer/core/sql/query_cumulative_metric.py
index 029dfe0..85d46b1 100644
--- a/metrics_layer/core/sql/query_cumulative_metric.py
+++ b/metrics_layer/core/sql/query_cumulative_metric.py
@@ -252,15 +252,12 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
             where_field = self.design.get_field(w["field"])
             if self._is_default_date(where_field):
                 date_having = deepcopy(w)
-                dimension_group = deepcopy(date_field.dimension_group)
-                date_field.dimension_group = where_field.dimension_group
-                date_having["field"] = date_field.id()
+                date_having["field"] = where_field.id()
                 date_having["query_type"] = self.query_type
                 f = MetricsLayerFilter(definition=date_having, design=self.design, filter_type="having")
-                date_spine_sql = date_field.apply_dimension_group_time_sql(
+                date_spine_sql = where_field.apply_dimension_group_time_sql(
                     date_spine_reference, self.query_type
                 )
-                date_field.dimension_group = dimension_group
                 having.append(f.criterion(date_spine_sql))
 
         if default_date_is_present:
@@ -306,7 +303,7 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
                 and field.dimension_group != dimension_group
                 and cumulative_metric.update_where_timeframe
             ):
-                field.dimension_group = dimension_group
+                field = self.design.get_field(f"{field.view.name}.{field.name}_{dimension_group}")
 
             sql = field.sql_query(query_type=self.query_type, alias_only=True)
             replaced_where = replaced_where.replace("${" + ref + "}", f"{cte_prefix}.{sql}")
-- 
2.43.0


From 3b2d4e63fee400592c811da2446e728b97ded284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:56 +0000
Subject: [PATCH 12/38] fix: building the join graph does not change the date
 fields it reads

---
 metrics_layer/core/model/join_graph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/model/join_graph.py b/metrics_layer/core/model/join_graph.py
index 10e8fda..f17185d 100644
--- a/metrics_layer/core/model/join_graph.py
+++ b/metrics_layer/core/model/join_graph.py
@@ -256,10 +256,10 @@ class JoinGraph(SQLReplacement):
                 try:
                     canon_date = self._get_field_with_memo(measure.canon_date, by_name=True)
                     for timeframe in canon_date.timeframes:
-                        canon_date.dimension_group = timeframe
+                        canon_date_id = f"{canon_date.view.name}.{canon_date.name}_{timeframe}"
                         root_node_name = join_root + "_" + timeframe
                         graph.add_edges_from(
-                            [(root_node_name, canon_date.id()), (root_node_name, measure_id)]
+                            [(root_node_name, canon_date_id), (root_node_name, measure_id)]
                         )
                         existing_root_nodes.add(root_node_name)
                 except AccessDeniedOrDoesNotExistException:
-- 
2.43.0


From 70e9afaaafde0f75a86e110049da43fae7b8df5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:08 +0000
Subject: [PATCH 13/38] fix: qualifying an always filter does not rewrite the
 view's definition

---
 metrics_layer/core/sql/resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/resolve.py b/metrics_layer/core/sql/resolve.py
index 4fd3aa4..668ecba 100644
--- a/metrics_layer/core/sql/resolve.py
+++ b/metrics_layer/core/sql/resolve.py
@@ -480,7 +480,7 @@ class SQLQueryResolver(SingleSQLQueryResolver):
                     parsed_filters = []
                     for f in field.view.always_filter:
                         if "." not in f["field"]:
-                            f["field"] = f"{field.view.name}.{f['field']}"
+                            f = {**f, "field": f"{field.view.name}.{f['field']}"}
                         parsed_filters.extend(Filter({**f, **to_add}).filter_dict(json_safe=True))
                     always_where.extend(parsed_filters)
             # Handle mappings exception
-- 
2.43.0


From 468d6563f328f20d0aef363f50ea1220ff6e01f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:05 +0000
Subject: [PATCH 14/38] fix: a non-additive measure's definition no longer
 collects the dimensions of the queries that use it

---
 metrics_layer/core/model/field.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 41e1b53..2e1c1b6 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -452,10 +452,12 @@ class Field(MetricsLayerBase, SQLReplacement):
     def non_additive_dimension(self):
         non_additive_dimension = self._definition.get("non_additive_dimension")
         if non_additive_dimension and isinstance(non_additive_dimension, dict):
+            # The definition itself is shared between queries, so we qualify (and hand out) a copy of it
+            non_additive_dimension = {**non_additive_dimension}
             if "." not in non_additive_dimension["name"]:
                 qualified_name = f"{self.view.name}.{non_additive_dimension['name']}"
                 non_additive_dimension["name"] = qualified_name
-            if window_groupings := non_additive_dimension.get("window_groupings", []):
+            if (window_groupings := non_additive_dimension.get("window_groupings")) is not None:
                 if isinstance(window_groupings, list):
                     qualified_groupings = []
                     for grouping in window_groupings:
@@ -2344,7 +2346,7 @@ class Field(MetricsLayerBase, SQLReplacement):
                                     (
                                         f"Field {self.name} in view {self.view.name} has an invalid"
                                         " non_additive_dimension. The field"
-                                        f" {self._definition['non_additive_dimension']['name']} referenced in"
+                                        f" {self.non_additive_dimension['name']} referenced in"
                                         " non_additive_dimension is not a valid dimension group with type"
                                         " time."
                                     ),
@@ -2357,7 +2359,7 @@ class Field(MetricsLayerBase, SQLReplacement):
                                 (
                                     f"Field {self.name} in view {self.view.name} has an invalid"
                                     " non_additive_dimension. The field"
-                                    f" {self._definition['non_additive_dimension']['name']} referenced in"
+                                    f" {self.non_additive_dimension['name']} referenced in"
                                     " non_additive_dimension does not exist."
                                 ),
                             )
-- 
2.43.0


From a00d383fc37724a3bcd8276c080c021ef540e1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:26 +0000
Subject: [PATCH 15/38] fix: the dates in a cumulative query's spine are not
 shifted by the query's time zone

---
 metrics_layer/core/sql/query_cumulative_metric.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/metrics_layer/core/sql/query_cumulative_metric.py b/metrics_layer/core/sql/query_cumulative_metric.py
index 85d46b1..30004ca 100644
--- a/metrics_layer/core/sql/query_cumulative_metric.py
+++ b/metrics_layer/core/sql/query_cumulative_metric.py
@@ -5,6 +5,7 @@ from pypika import Criterion, JoinType, Table
 
 from metrics_layer.core.exceptions import AccessDeniedOrDoesNotExistException
 from metrics_layer.core.model.definitions import Definitions
+from metrics_layer.core.model.field import Field
 from metrics_layer.core.model.filter import LiteralValueCriterion
 from metrics_layer.core.sql.query_base import MetricsLayerQueryBase
 from metrics_layer.core.sql.query_design import MetricsLayerDesign
@@ -135,12 +136,15 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
             referenced_metric = self.cumulative_metrics[0].measure
             date_field = self._get_default_date(referenced_metric, self.cumulative_metrics[0])
             query = self._base_query()
-            select = self.sql(
-                date_field.apply_dimension_group_time_sql("date", query_type=self.query_type), alias="date"
-            )
+            select = self.sql(self._date_spine_sql(date_field, "date"), alias="date")
             query = query.from_(Table(self.date_spine_cte_name)).select(select).distinct()
             return query
 
+    def _date_spine_sql(self, date_field, sql: str):
+        # The dates in the spine are calendar dates in the query's timezone already
+        spine_field = Field({**date_field._definition, "convert_timezone": False}, view=date_field.view)
+        return spine_field.apply_dimension_group_time_sql(sql, query_type=self.query_type)
+
     def cumulative_subquery(self, cumulative_metric):
         cumulative_metric_cte_alias = cumulative_metric.cte_prefix(aggregated=False)
         reference_metric = cumulative_metric.measure
@@ -255,9 +259,7 @@ class CumulativeMetricsQuery(MetricsLayerQueryBase):
                 date_having["field"] = where_field.id()
                 date_having["query_type"] = self.query_type
                 f = MetricsLayerFilter(definition=date_having, design=self.design, filter_type="having")
-                date_spine_sql = where_field.apply_dimension_group_time_sql(
-                    date_spine_reference, self.query_type
-                )
+                date_spine_sql = self._date_spine_sql(where_field, date_spine_reference)
                 having.append(f.criterion(date_spine_sql))
 
         if default_date_is_present:
-- 
2.43.0


From 2ec41cb317e4940f72e600302f76f7bc326b895c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:26 +0000
Subject: [PATCH 16/38] fix: a metric a funnel is filtered on is in the result
 once, in a fixed place

---
 metrics_layer/core/sql/query_funnel.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/sql/query_funnel.py b/metrics_layer/core/sql/query_funnel.py
index 46fbf7b..2ef0d05 100644
--- a/metrics_layer/core/sql/query_funnel.py
+++ b/metrics_layer/core/sql/query_funnel.py
@@ -129,8 +129,7 @@ class FunnelQuery(MetricsLayerQueryBase):
 
         event_condition_fields = self._get_event_condition_fields()
 
-        having_metrics = list(set(f["field"] for f in self.having)) if self.having else []
-        self.metrics = self.metrics + having_metrics
+        self.metrics = self.metrics + self._get_having_metrics()
 
         base_dimensions = self.dimensions + [event_date.id()] + event_condition_fields
         join_graphs = self.join_graphs_for_query(self.metrics, base_dimensions, self.where)
@@ -148,6 +147,17 @@ class FunnelQuery(MetricsLayerQueryBase):
         query = self._subquery(self.metrics, dimensions, self.where, no_group_by=True)
         return query
 
+    def _get_having_metrics(self):
+        # Only the metrics that aren't in the query already: each column of the result must be there once
+        selected = set(self.design.get_field(metric).id() for metric in self.metrics)
+        having_metrics = []
+        for having_filter in self.having or []:
+            metric_id = self.design.get_field(having_filter["field"]).id()
+            if metric_id not in selected:
+                selected.add(metric_id)
+                having_metrics.append(having_filter["field"])
+        return having_metrics
+
     def _get_event_condition_fields(self):
         fields = []
         for step in self.funnel["steps"]:
-- 
2.43.0


From 1410221d94d760db89da97c3a4fd9c3481c3b2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:51 +0000
Subject: [PATCH 17/38] fix: a date range 'to date' ends on the right day when
 the clocks changed in between

---
 metrics_layer/core/model/filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/model/filter.py b/metrics_layer/core/model/filter.py
index 9be8867..42fe236 100644
--- a/metrics_layer/core/model/filter.py
+++ b/metrics_layer/core/model/filter.py
@@ -311,7 +311,8 @@ class Filter(MetricsLayerBase):
 
             # We need to figure out how many days are between now and the start of the period
             start_of_period = Filter._start_date(lag=0, date_part=date_part, tz=tz, return_date=True)
-            time_change = Filter._today(tz=tz) - start_of_period
+            # (calendar days: the time elapsed is an hour off when the clocks changed in between)
+            time_change = Filter._today(tz=tz).date() - start_of_period.date()
             lag = time_change.days - 1 if time_change.days > 0 else 0
             end_date = Filter._add_to_end_date(start_date, lag=lag, date_part="day")
             result.append((end_expression, Filter._date_to_string(end_date)))
-- 
2.43.0


From 6ca09ea2144b69ecfc2d060b2f2274d4c49c4bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:51 +0000
Subject: [PATCH 18/38] fix: the week start day of one filter does not leak
 into others when its condition cannot be parsed

---
 metrics_layer/core/model/filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/model/filter.py b/metrics_layer/core/model/filter.py
index 42fe236..323067f 100644
--- a/metrics_layer/core/model/filter.py
+++ b/metrics_layer/core/model/filter.py
@@ -366,8 +366,10 @@ class Filter(MetricsLayerBase):
             "<": MetricsLayerFilterExpressionType.LessThan,
         }
         Filter._set_week_start_day(week_start_day)
-        date_condition = Filter.parse_date_condition(value, tz=tz)
-        Filter._reset_week_start_day()
+        try:
+            date_condition = Filter.parse_date_condition(value, tz=tz)
+        finally:
+            Filter._reset_week_start_day()
 
         first_word = str(value).split(" ")[0]
         first_two_words = " ".join(str(value).split(" ")[:2])
-- 
2.43.0


From db828e2f5cb08421e787aae4e5e729a6d8887457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:27 +0000
Subject: [PATCH 19/38] fix: a mapping name in a literal filter or order is
 replaced where it is the identifier, not inside other text

---
 metrics_layer/core/sql/query_base.py | 14 ++++++++++++++
 metrics_layer/core/sql/resolve.py    |  4 ++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/sql/query_base.py b/metrics_layer/core/sql/query_base.py
index 5c9a9fd..3669b92 100644
--- a/metrics_layer/core/sql/query_base.py
+++ b/metrics_layer/core/sql/query_base.py
@@ -51,6 +51,20 @@ class MetricsLayerQueryBase(MetricsLayerBase):
                     field_names[-1] += f".{str(generator[i+1])}"
         return field_names
 
+    @staticmethod
+    def replace_identifier_in_clause(clause: str, to_replace: str, replacement: str):
+        # Only the identifier itself is replaced. Longer names, fields qualified with a view
+        # and string values in the clause can contain the same text, and they stay as they are
+        tokens = [token for statement in sqlparse.parse(clause) for token in statement.flatten()]
+        replaced = []
+        for i, token in enumerate(tokens):
+            is_qualified = (i > 0 and str(tokens[i - 1]) == ".") or (
+                i + 1 < len(tokens) and str(tokens[i + 1]) == "."
+            )
+            is_identifier = token.ttype == Name and str(token) == to_replace and not is_qualified
+            replaced.append(replacement if is_identifier else str(token))
+        return "".join(replaced)
+
     @staticmethod
     def get_pypika_join_type(join: Join):
         return MetricsLayerQueryBase.pypika_join_type_lookup(join.join_type)
diff --git a/metrics_layer/core/sql/resolve.py b/metrics_layer/core/sql/resolve.py
index 668ecba..15f7ca1 100644
--- a/metrics_layer/core/sql/resolve.py
+++ b/metrics_layer/core/sql/resolve.py
@@ -6,7 +6,7 @@ from metrics_layer.core.exceptions import JoinError, QueryError
 from metrics_layer.core.model.filter import Filter
 from metrics_layer.core.model.project import Project
 from metrics_layer.core.sql.merged_query_resolve import MergedSQLQueryResolver
-from metrics_layer.core.sql.query_base import QueryKindTypes
+from metrics_layer.core.sql.query_base import MetricsLayerQueryBase, QueryKindTypes
 from metrics_layer.core.sql.single_query_resolve import SingleSQLQueryResolver
 
 
@@ -392,7 +392,7 @@ class SQLQueryResolver(SingleSQLQueryResolver):
 
     def _replace_dict_or_literal(self, where, to_replace, field):
         if self._is_literal(where):
-            return where.replace(to_replace, field.id())
+            return MetricsLayerQueryBase.replace_identifier_in_clause(where, to_replace, field.id())
         else:
             result = []
             for w in where:
-- 
2.43.0


From db61c526b1be0028855af92e03e77aebd9e0cee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:27 +0000
Subject: [PATCH 20/38] fix: the date of a dimension only query does not depend
 on the order of a set

---
 metrics_layer/core/sql/resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/resolve.py b/metrics_layer/core/sql/resolve.py
index 15f7ca1..adada06 100644
--- a/metrics_layer/core/sql/resolve.py
+++ b/metrics_layer/core/sql/resolve.py
@@ -197,7 +197,7 @@ class SQLQueryResolver(SingleSQLQueryResolver):
                                 ]
                                 views_by_n_measures[canon_date] = len(measures)
                             sorted_canon_dates = list(
-                                sorted(canon_dates, key=lambda x: views_by_n_measures[x], reverse=True)
+                                sorted(canon_dates, key=lambda x: (-views_by_n_measures[x], x))
                             )
                         else:
                             # Sort is not needed if there is only one canon_date
-- 
2.43.0


From c4fb66e34b65fa198da757141d561b4c1e31e99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:32 +0000
Subject: [PATCH 21/38] fix: a merged query is returned with the connection it
 runs on

---
 metrics_layer/core/query/query.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/query/query.py b/metrics_layer/core/query/query.py
index 5c64b85..8cb67c5 100644
--- a/metrics_layer/core/query/query.py
+++ b/metrics_layer/core/query/query.py
@@ -156,8 +156,9 @@ class MetricsLayerConnection:
                 connections=self.connections,
                 **{**self.kwargs, **kwargs},
             )
-            connection = resolver.connection
             query = resolver.get_query()
+            # The connection is only known once the queries that are merged have been resolved
+            connection = resolver.connection
         else:
             raise QueryError(
                 'No metrics or dimensions specified. Please provide either "metrics" or "dimensions"'
-- 
2.43.0


From 777ba9aa9515c5552b667e0f014f7b205a533c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:32 +0000
Subject: [PATCH 22/38] fix: merged queries take nested and literal filters,
 and mappings used for measures or only as a join field

---
 .../core/sql/arbitrary_merge_resolve.py       | 42 +++++++++++--------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/metrics_layer/core/sql/arbitrary_merge_resolve.py b/metrics_layer/core/sql/arbitrary_merge_resolve.py
index 20b06e9..4df4b1e 100644
--- a/metrics_layer/core/sql/arbitrary_merge_resolve.py
+++ b/metrics_layer/core/sql/arbitrary_merge_resolve.py
@@ -76,15 +76,10 @@ class ArbitraryMergedQueryResolver(SingleSQLQueryResolver):
                 }
             )
 
-        mapping_lookup = self._mapping_lookup
         self.model = resolver.model
-        clean_where = [{**w, "field": mapping_lookup.get(w["field"].lower(), w["field"])} for w in self.where]
-        clean_having = [
-            {**h, "field": mapping_lookup.get(h["field"].lower(), h["field"])} for h in self.having
-        ]
-        clean_order_by = [
-            {**o, "field": mapping_lookup.get(o["field"].lower(), o["field"])} for o in self.order_by
-        ]
+        clean_where = self._replace_mapped_names(self.where)
+        clean_having = self._replace_mapped_names(self.having)
+        clean_order_by = self._replace_mapped_names(self.order_by)
         merged_queries_resolver = MetricsLayerMergedQueries(
             {
                 "merged_queries": sub_queries,
@@ -161,17 +156,28 @@ class ArbitraryMergedQueryResolver(SingleSQLQueryResolver):
         )
 
     def _add_mapping_lookup(self, resolver: SQLQueryResolver):
-        where_fields = [f["field"] for f in resolver.where]
-        order_by_fields = [f["field"] for f in resolver.order_by]
+        where_fields, having_fields, order_by_fields = resolver.parse_field_names(
+            resolver.where, resolver.having, resolver.order_by
+        )
+        used_fields = [resolver.dimensions, where_fields, order_by_fields, resolver.metrics, having_fields]
         for mapping_name, mapping_field in resolver.mapping_lookup.items():
-            if mapping_name not in self._mapping_lookup:
-                if any(d in mapping_field["fields"] for d in resolver.dimensions):
-                    field_name = next((f for f in mapping_field["fields"] if f in resolver.dimensions))
-                elif any(f in mapping_field["fields"] for f in where_fields):
-                    field_name = next((f for f in mapping_field["fields"] if f in where_fields))
-                elif any(f in mapping_field["fields"] for f in order_by_fields):
-                    field_name = next((f for f in mapping_field["fields"] if f in order_by_fields))
-                self._mapping_lookup[mapping_name] = field_name
+            if mapping_name.lower() not in self._mapping_lookup:
+                candidates = [f for fields in used_fields for f in mapping_field["fields"] if f in fields]
+                # A mapping that is only named as a join field may not be a part of the query at all
+                if candidates:
+                    self._mapping_lookup[mapping_name.lower()] = candidates[0]
+
+    def _replace_mapped_names(self, conditions: List[dict]):
+        replaced = []
+        for condition in conditions:
+            if "conditions" in condition:
+                nested_conditions = self._replace_mapped_names(condition["conditions"])
+                replaced.append({**condition, "conditions": nested_conditions})
+            else:
+                field_name = condition["field"]
+                field_name = self._mapping_lookup.get(field_name.lower(), field_name)
+                replaced.append({**condition, "field": field_name})
+        return replaced
 
     @staticmethod
     def validate_arbitrary_merged_queries(merged_queries: list):
-- 
2.43.0


From 53c39afdd1b15d66c52330e4096bc2d5b3389872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:51 +0000
Subject: [PATCH 23/38] fix: a mapping named as a join field is found in
 queries that select its field without the view name

---
 .../core/sql/arbitrary_merge_resolve.py         | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/metrics_layer/core/sql/arbitrary_merge_resolve.py b/metrics_layer/core/sql/arbitrary_merge_resolve.py
index 4df4b1e..3e5d09f 100644
--- a/metrics_layer/core/sql/arbitrary_merge_resolve.py
+++ b/metrics_layer/core/sql/arbitrary_merge_resolve.py
@@ -114,23 +114,27 @@ class ArbitraryMergedQueryResolver(SingleSQLQueryResolver):
 
     # Note: this mutates join_field
     def _resolve_join_logic(self, resolver, key, join_field, query_number: int):
+        dimension_ids = self._dimension_ids(resolver)
         if mapping_object := resolver.mapping_lookup.get(join_field[key]):
             try:
-                join_field[key] = next((f for f in mapping_object["fields"] if f in resolver.dimensions))
+                join_field[key] = next((f for f in mapping_object["fields"] if f in dimension_ids))
             except StopIteration:
                 self._raise_join_error(join_field[key], query_number)
         else:
             try:
                 field = self.project.get_field(join_field[key])
-                dimension_ids = [
-                    resolver.field_object_lookup[d].id() if d in resolver.field_object_lookup else d
-                    for d in resolver.dimensions
-                ]
                 if field.id() not in dimension_ids:
                     self._raise_join_error(join_field[key], query_number)
             except AccessDeniedOrDoesNotExistException:
                 self._raise_join_error(join_field[key], query_number)
 
+    @staticmethod
+    def _dimension_ids(resolver: SQLQueryResolver):
+        return [
+            resolver.field_object_lookup[d].id() if d in resolver.field_object_lookup else d
+            for d in resolver.dimensions
+        ]
+
     def _raise_join_error(self, field_name: str, query_number):
         raise JoinError(
             f"Join field {field_name} not found in the query number {query_number}. To be used as a join the"
@@ -159,7 +163,8 @@ class ArbitraryMergedQueryResolver(SingleSQLQueryResolver):
         where_fields, having_fields, order_by_fields = resolver.parse_field_names(
             resolver.where, resolver.having, resolver.order_by
         )
-        used_fields = [resolver.dimensions, where_fields, order_by_fields, resolver.metrics, having_fields]
+        dimensions = self._dimension_ids(resolver)
+        used_fields = [dimensions, where_fields, order_by_fields, resolver.metrics, having_fields]
         for mapping_name, mapping_field in resolver.mapping_lookup.items():
             if mapping_name.lower() not in self._mapping_lookup:
                 candidates = [f for fields in used_fields for f in mapping_field["fields"] if f in fields]
-- 
2.43.0


From 0aeb49b34103f632e46d1672ff9dde8458a46f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:51 +0000
Subject: [PATCH 24/38] fix: a limit of 0 is a limit on SQL Server and Azure
 Synapse too

---
 metrics_layer/core/sql/query_dialect.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metrics_layer/core/sql/query_dialect.py b/metrics_layer/core/sql/query_dialect.py
index bcb0697..a273849 100644
--- a/metrics_layer/core/sql/query_dialect.py
+++ b/metrics_layer/core/sql/query_dialect.py
@@ -176,6 +176,10 @@ class MSSQLQueryBuilderCorrectLimit(MSSQLQueryBuilder):
     def limit(self, limit: int):
         self._top = limit
 
+    def _top_sql(self) -> str:
+        # Pypika takes a limit of 0 for no limit
+        return f"TOP ({self._top}) " if self._top is not None else ""
+
 
 class MSSSQLQuery(Query):
     """
-- 
2.43.0


From 9b1348141217f937e8ed05b08b36cb7243bddc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:02 +0000
Subject: [PATCH 25/38] fix: the view of a group condition's group_by field is
 joined into the query

---
 metrics_layer/core/sql/single_query_resolve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/sql/single_query_resolve.py b/metrics_layer/core/sql/single_query_resolve.py
index 8438af3..aab862a 100644
--- a/metrics_layer/core/sql/single_query_resolve.py
+++ b/metrics_layer/core/sql/single_query_resolve.py
@@ -224,7 +224,8 @@ class SingleSQLQueryResolver:
     def parse_identifiers_from_dicts(conditions: list):
         flattened_conditions = SingleSQLQueryResolver.flatten_filters(conditions)
         try:
-            return [cond["field"] for cond in flattened_conditions if "group_by" not in cond]
+            # A group condition picks its rows by the group by field, its own field lives in its sub query
+            return [cond["group_by"] if "group_by" in cond else cond["field"] for cond in flattened_conditions]
         except KeyError:
             for cond in conditions:
                 if "field" not in cond:
-- 
2.43.0


From ac736c9ae7bb2766c9c4d0f5a7b6a3843bbfe769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:02 +0000
Subject: [PATCH 26/38] fix: a where given as a dictionary keeps the
 always_filter of its views

---
 metrics_layer/core/sql/resolve.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/metrics_layer/core/sql/resolve.py b/metrics_layer/core/sql/resolve.py
index adada06..f5587c4 100644
--- a/metrics_layer/core/sql/resolve.py
+++ b/metrics_layer/core/sql/resolve.py
@@ -39,11 +39,10 @@ class SQLQueryResolver(SingleSQLQueryResolver):
         self.metrics = list(metrics)
         self.dimensions = list(dimensions)
         self.funnel = funnel
-        self.where = deepcopy(where) if where else []
+        self.where = self._clean_conditional_filter_syntax(deepcopy(where) if where else [])
         always_where = self._apply_always_filter(metrics + dimensions)
         if always_where:
             self.where.extend(always_where)
-        self.where = self._clean_conditional_filter_syntax(self.where)
         self.having = self._clean_conditional_filter_syntax(deepcopy(having))
         self.order_by = order_by
         self.kwargs = kwargs
-- 
2.43.0


From d8890be684345c2cbc13e3483c575b38913a3ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:02 +0000
Subject: [PATCH 27/38] fix: a non-additive average, median, min or max does
 not count other rows as 0

---
 metrics_layer/core/model/field.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 2e1c1b6..258284f 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -273,9 +273,18 @@ class Field(MetricsLayerBase, SQLReplacement):
 
             else_0 = False
             if non_additive_dimension := self.non_additive_dimension:
-                # We need to do else 0 if it's a numeric operation like sum, average, etc
-                # But we need to do else null if it is a non numeric op like count, count_distinct
-                else_0 = self.type not in {ZenlyticType.count, ZenlyticType.count_distinct}
+                # We need to do else 0 if it's a sum, so there is a result when no row is left
+                # But we need to do else null for all operations a 0 has an effect on, like count,
+                # average, min, max, etc
+                else_0 = self.type not in {
+                    ZenlyticType.count,
+                    ZenlyticType.count_distinct,
+                    ZenlyticType.average,
+                    ZenlyticType.average_distinct,
+                    ZenlyticType.median,
+                    ZenlyticType.min,
+                    ZenlyticType.max,
+                }
                 if isinstance(self.non_additive_dimension, dict):
                     filters_to_apply += [
                         {
-- 
2.43.0


From 6c81d9ae9d7ae2ec65d4c8e473bb883293a04f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:02 +0000
Subject: [PATCH 28/38] fix: a non-additive measure's window is grouped by each
 field once, and only by dates of its own view

---
 metrics_layer/core/sql/query_generator.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index 483383a..1dba7a8 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -193,16 +193,20 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
 
         if self.non_additive_ctes:
             for definition in sorted(self.non_additive_ctes, key=lambda x: x["alias"]):
-                group_by_dimensions = definition.get("window_groupings", [])
+                # The window groupings and the dimensions can name the same field in different ways
+                group_by_dimensions = [
+                    self.design.get_field(g).id() for g in definition.get("window_groupings", [])
+                ]
                 if definition.get("window_aware_of_query_dimensions", True):
-                    group_by_dimensions.extend([d.lower() for d in self.dimensions])
+                    group_by_dimensions.extend([self.design.get_field(d).id() for d in self.dimensions])
                 else:
                     non_additive_dim = self.design.get_field(definition["name"])
                     # Only add a dimension if it's a variation of the non additive dimension
-                    dimensions_to_add = [
-                        d for d in self.dimensions if non_additive_dim.name == self.design.get_field(d).name
-                    ]
-                    group_by_dimensions.extend(dimensions_to_add)
+                    for d in self.dimensions:
+                        field = self.design.get_field(d)
+                        same_view = non_additive_dim.view.name == field.view.name
+                        if same_view and non_additive_dim.name == field.name:
+                            group_by_dimensions.append(field.id())
                 group_by_dimensions = list(
                     sorted(set(group_by_dimensions), key=lambda x: group_by_dimensions.index(x))
                 )
-- 
2.43.0


From f7bcc3cd39cb1cd1b4ce54d0ca7020a81aafabd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:02 +0000
Subject: [PATCH 29/38] fix: non-additive measures over dates of other views,
 and of the same name in two views, use their own windows

---
 metrics_layer/core/model/field.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index 258284f..ea43c88 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -2687,14 +2687,21 @@ class Field(MetricsLayerBase, SQLReplacement):
 
     def non_additive_alias(self):
         if self.non_additive_dimension:
-            window_choice = self.non_additive_dimension["window_choice"]
-            window_name = self.non_additive_dimension["name"].split(".")[-1].lower()
-            return f"{self.view.name}_{window_choice}_{window_name}"
+            window_choice = self.non_additive_dimension.get("window_choice")
+            # The date can be in another view than the measure, the cte names its column by the date's view
+            view_name, window_name = self.non_additive_dimension["name"].lower().split(".")[-2:]
+            return f"{view_name}_{window_choice}_{window_name}"
         return None
 
     def non_additive_cte_alias(self):
         if self.non_additive_dimension:
             window_name = self.non_additive_dimension["name"].split(".")[-1].lower()
+            # Measures with the same name in different views need a cte each, when they're queried together
+            for view in self.view.project._views:
+                if view["name"] != self.view.name:
+                    for field in view.get("fields", []):
+                        if field.get("non_additive_dimension") and str(field.get("name")).lower() == self.name:
+                            return f"cte_{self.view.name}_{self.name}_{window_name}"
             return f"cte_{self.name}_{window_name}"
         return None
 
-- 
2.43.0


From 33fd54247ac5d084588849c623dd017b76aa25b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:02 +0000
Subject: [PATCH 30/38] fix: non-additive measures work with text filters and
 group conditions, and beside fields named like their window

---
 metrics_layer/core/sql/query_generator.py | 60 ++++++++++++++---------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/metrics_layer/core/sql/query_generator.py b/metrics_layer/core/sql/query_generator.py
index 1dba7a8..b7e2eda 100644
--- a/metrics_layer/core/sql/query_generator.py
+++ b/metrics_layer/core/sql/query_generator.py
@@ -82,7 +82,10 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
         # them as CTE's for the appropriate filters
         self.non_additive_ctes = []
         metrics_in_select = definition.get("metrics", [])
-        metrics_in_having = [h["field"] for h in flatten_filters(having)]
+        if isinstance(having, str):
+            metrics_in_having = self.parse_identifiers_from_clause(having)
+        else:
+            metrics_in_having = [h["field"] for h in flatten_filters(having)]
         for metric in metrics_in_select + metrics_in_having:
             metric_field = self.design.get_field(metric)
             for ref_field in [metric_field] + metric_field.referenced_fields(metric_field.sql):
@@ -387,41 +390,52 @@ class MetricsLayerQuery(MetricsLayerQueryBase):
         field_lookup[non_additive_dimension.id()] = non_additive_dimension
 
         # We also need to make all fields in the where clause available to the query
-        for f in flatten_filters(self.where):
-            field = self.design.get_field(f["field"])
+        if isinstance(self.where, str):
+            where_fields = self.parse_identifiers_from_clause(self.where)
+        else:
+            where_fields = [f.get("group_by", f["field"]) for f in flatten_filters(self.where)]
+        for where_field in where_fields:
+            field = self.design.get_field(where_field)
             field_lookup[field.id()] = field
 
         temp_field_name = definition["window_choice"] + "_" + definition["name"].split(".")[-1]
+        view_name = non_additive_dimension.view.name
         project = copy(self.design.project)
+        # The view may have a field of its own with this name, the temporary field takes its place
+        # only while the cte is built
+        view = next(v for v in project._views if v["name"] == view_name)
+        view_fields = view["fields"]
+        view["fields"] = [f for f in view_fields if f["name"].lower() != temp_field_name.lower()]
         project.add_field(
             {
                 "name": temp_field_name,
                 "field_type": "measure",
                 "type": definition["window_choice"],
-                "sql": "${" + f'{non_additive_dimension.view.name}.{definition["name"].split(".")[-1]}' + "}",
+                "sql": "${" + f'{view_name}.{definition["name"].split(".")[-1]}' + "}",
             },
-            view_name=non_additive_dimension.view.name,
+            view_name=view_name,
             refresh_cache=False,
         )
-        design = MetricsLayerDesign(
-            no_group_by=False,
-            query_type=self.design.query_type,
-            field_lookup=field_lookup,
-            model=self.design.model,
-            project=project,
-        )
+        try:
+            design = MetricsLayerDesign(
+                no_group_by=False,
+                query_type=self.design.query_type,
+                field_lookup=field_lookup,
+                model=self.design.model,
+                project=project,
+            )
 
-        config = {
-            "metrics": [non_additive_dimension.view.name + "." + temp_field_name],
-            "dimensions": group_by_dimensions,
-            "where": self.where,
-            "having": [],
-            "return_pypika_query": True,
-        }
-        generator = MetricsLayerQuery(config, design=design)
-        cte_query = generator.get_query()
-        project.remove_field(temp_field_name, view_name=non_additive_dimension.view.name, refresh_cache=False)
-        return cte_query
+            config = {
+                "metrics": [view_name + "." + temp_field_name],
+                "dimensions": group_by_dimensions,
+                "where": self.where,
+                "having": [],
+                "return_pypika_query": True,
+            }
+            generator = MetricsLayerQuery(config, design=design)
+            return generator.get_query()
+        finally:
+            view["fields"] = view_fields
 
     # Code for the GROUP BY part of the query
     def get_group_by_columns(self):
-- 
2.43.0


From 326ba8d8796edd40bd9fe3563fc0d916c297ed91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:02 +0000
Subject: [PATCH 31/38] fix: Trino, Druid and SQL Server connections without a
 password or user can be shown

---
 metrics_layer/core/parse/connections.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/parse/connections.py b/metrics_layer/core/parse/connections.py
index 086f55c..74de6ac 100644
--- a/metrics_layer/core/parse/connections.py
+++ b/metrics_layer/core/parse/connections.py
@@ -273,7 +273,7 @@ class TrinoConnection(BaseConnection):
 
     def printable_attributes(self):
         attributes = deepcopy(self.to_dict())
-        attributes.pop("password")
+        attributes.pop("password", None)
         attributes["name"] = self.name
         sort_order = ["name", "type", "host", "port", "user", "database", "scheme"]
         return {key: attributes.get(key) for key in sort_order if attributes.get(key) is not None}
@@ -305,6 +305,8 @@ class DruidConnection(BaseConnection):
             self.user = username
         elif user:
             self.user = user
+        else:
+            self.user = None
         self.password = password
         self.path = path
         self.scheme = scheme
@@ -328,7 +330,7 @@ class DruidConnection(BaseConnection):
 
     def printable_attributes(self):
         attributes = deepcopy(self.to_dict())
-        attributes.pop("password")
+        attributes.pop("password", None)
         attributes["name"] = self.name
         sort_order = ["name", "type", "host", "port", "user", "path", "scheme"]
         return {key: attributes.get(key) for key in sort_order if attributes.get(key) is not None}
@@ -360,6 +362,8 @@ class SQLServerConnection(BaseConnection):
             self.user = username
         elif user:
             self.user = user
+        else:
+            self.user = None
         self.password = password
         self.database = database
         self.schema = schema
@@ -379,7 +383,7 @@ class SQLServerConnection(BaseConnection):
 
     def printable_attributes(self):
         attributes = deepcopy(self.to_dict())
-        attributes.pop("password")
+        attributes.pop("password", None)
         attributes["name"] = self.name
         sort_order = ["name", "type", "host", "port", "user"]
         return {key: attributes.get(key) for key in sort_order if attributes.get(key) is not None}
-- 
2.43.0


From 293d1b0ec81801a9ad269d78d0a6643e67b0722b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:02 +0000
Subject: [PATCH 32/38] fix: Postgres raw cursors run the query, and
 credentials may hold characters with a meaning in a url

---
 metrics_layer/core/sql/query_runner.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/sql/query_runner.py b/metrics_layer/core/sql/query_runner.py
index 6874044..cacc3ae 100644
--- a/metrics_layer/core/sql/query_runner.py
+++ b/metrics_layer/core/sql/query_runner.py
@@ -20,6 +20,8 @@ except ModuleNotFoundError:
     pass
 
 
+from urllib.parse import quote_plus
+
 import pandas as pd
 from metrics_layer.core.parse.connections import (
     BaseConnection,
@@ -91,7 +93,8 @@ class QueryRunner:
         postgres_connection = self._get_postgres_connection(self.connection, timeout=timeout)
 
         if raw_cursor:
-            cursor = postgres_connection.cursor()
+            cursor = postgres_connection.connection.cursor()
+            cursor.execute(self.query)
             return cursor
 
         df = pd.read_sql(self.query, postgres_connection)
@@ -158,7 +161,9 @@ class QueryRunner:
     @staticmethod
     def _get_postgres_connection(connection: BaseConnection, timeout: int = None):
         try:
-            username, password, host = connection.username, connection.password, connection.host
+            # The user name and the password can hold characters that mean something in an url
+            username, password = quote_plus(connection.username), quote_plus(connection.password)
+            host = connection.host
             database, port = connection.database, int(connection.port)
             connection_url = f"postgresql://{username}:{password}@{host}:{port}/{database}"
 
-- 
2.43.0


From 371f55c3e8d53c9554debb528805bd25e6d23b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:02 +0000
Subject: [PATCH 33/38] fix: the letter case of a field in a set makes no
 difference

---
 metrics_layer/core/model/set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/model/set.py b/metrics_layer/core/model/set.py
index 55cc1f5..f5b8ee4 100644
--- a/metrics_layer/core/model/set.py
+++ b/metrics_layer/core/model/set.py
@@ -89,13 +89,13 @@ class Set(MetricsLayerBase):
             elif "-" in field_name:
                 _, view_name, field_name = self.field_name_parts(field_name.replace("-", ""))
                 view_name = self._get_view_name(view_name, field_name)
-                names_to_exclude.append(f"{view_name}.{field_name}")
+                names_to_exclude.append(f"{view_name}.{field_name.lower()}")
 
             # This is just a field that we're adding to the result
             else:
                 _, view_name, field_name = self.field_name_parts(field_name)
                 view_name = self._get_view_name(view_name, field_name)
-                all_field_names.append(f"{view_name}.{field_name}")
+                all_field_names.append(f"{view_name}.{field_name.lower()}")
 
         # Perform exclusion
         result_field_names = set(f for f in all_field_names if f not in names_to_exclude)
-- 
2.43.0


From e8036a7952168d0558df8d45ec70366061f06ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:02 +0000
Subject: [PATCH 34/38] fix: a set named without its view is the view's own set
 when it has one

---
 metrics_layer/core/model/set.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/metrics_layer/core/model/set.py b/metrics_layer/core/model/set.py
index f5b8ee4..bb44e71 100644
--- a/metrics_layer/core/model/set.py
+++ b/metrics_layer/core/model/set.py
@@ -110,7 +110,12 @@ class Set(MetricsLayerBase):
             return [f"{f.view.name}.{f.alias()}" for f in all_fields]
 
         _, view_name, set_name = self.field_name_parts(set_name)
-        _set = self.project.get_set(set_name, view_name=view_name)
+        _set = None
+        if view_name is None and self.view_name:
+            # Like the name of a field, the name of a set is one of this view's own if there is one
+            _set = self.project.get_set(set_name, view_name=self.view_name)
+        if _set is None:
+            _set = self.project.get_set(set_name, view_name=view_name)
         if _set is None:
             print(f"WARNING: Could not find set with name {set_name}, disregarding those fields")
             return []
-- 
2.43.0


From 59d43e582880e9137c97c71e266ff7c1f2064a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:02 +0000
Subject: [PATCH 35/38] fix: validation reports incomplete fields, dates and
 filters instead of crashing

---
 metrics_layer/core/model/dashboard.py | 10 ++++++++--
 metrics_layer/core/model/field.py     |  6 +++---
 metrics_layer/core/model/project.py   |  1 +
 metrics_layer/core/model/view.py      |  6 +++---
 4 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/metrics_layer/core/model/dashboard.py b/metrics_layer/core/model/dashboard.py
index a3d45d7..41606d7 100644
--- a/metrics_layer/core/model/dashboard.py
+++ b/metrics_layer/core/model/dashboard.py
@@ -146,10 +146,16 @@ class Dashboard(MetricsLayerBase):
             try:
                 self.project.get_field(f["field"])
             except Exception:
-                err_msg = f"Could not find field {f['field']} referenced in a filter in dashboard {self.name}"
+                field = f.get("field")
+                err_msg = f"Could not find field {field} referenced in a filter in dashboard {self.name}"
                 errors.append(self._error(self._definition["filters"], err_msg))
 
-        for element in self.elements():
+        try:
+            elements = self.elements()
+        except QueryError as e:
+            errors.append(self._error(self._definition["elements"], f"{e} in dashboard {self.name}"))
+            elements = []
+        for element in elements:
             errors.extend(element.collect_errors())
         return errors
 
diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index ea43c88..e4b2abe 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -1983,7 +1983,7 @@ class Field(MetricsLayerBase, SQLReplacement):
                     if not timeframes:
                         errors.append(
                             self._error(
-                                self._definition["timeframes"],
+                                self._definition.get("timeframes"),
                                 (
                                     f"Field {self.name} in view {self.view.name} is of type time and but does"
                                     " not have values for the timeframe property. Add valid timeframes"
@@ -2079,7 +2079,7 @@ class Field(MetricsLayerBase, SQLReplacement):
                         if not intervals:
                             errors.append(
                                 self._error(
-                                    self._definition["intervals"],
+                                    self._definition.get("intervals"),
                                     (
                                         f"Field {self.name} in view {self.view.name} is of type duration and"
                                         " but does not have values for the intervals property. Add valid"
@@ -2376,7 +2376,7 @@ class Field(MetricsLayerBase, SQLReplacement):
                     if str(self.non_additive_dimension.get("window_choice")) not in ["max", "min"]:
                         errors.append(
                             self._error(
-                                self._definition["non_additive_dimension"]["window_choice"],
+                                self._definition["non_additive_dimension"].get("window_choice"),
                                 (
                                     f"Field {self.name} in view {self.view.name} has an invalid"
                                     " non_additive_dimension. window_choice must be"
diff --git a/metrics_layer/core/model/project.py b/metrics_layer/core/model/project.py
index 9ea90cb..3f8a4e1 100644
--- a/metrics_layer/core/model/project.py
+++ b/metrics_layer/core/model/project.py
@@ -290,6 +290,7 @@ class Project:
                 referenced_fields = view.referenced_fields()
             except (AccessDeniedOrDoesNotExistException, QueryError) as e:
                 all_errors.append(self._error(str(e) + f" in the view {view.name}", {"view_name": view.name}))
+                referenced_fields = []
 
             view_errors = view.collect_errors()
 
diff --git a/metrics_layer/core/model/view.py b/metrics_layer/core/model/view.py
index 0c778a6..4174959 100644
--- a/metrics_layer/core/model/view.py
+++ b/metrics_layer/core/model/view.py
@@ -137,7 +137,7 @@ class View(MetricsLayerBase, SQLReplacement):
         if "event_dimension" in self._definition:
             if "." not in str(self._definition["event_dimension"]):
                 return f'{self.name}.{self._definition["event_dimension"]}'
-            return str(self._definition["default_date"])
+            return str(self._definition["event_dimension"])
         return None
 
     @property
@@ -478,7 +478,7 @@ class View(MetricsLayerBase, SQLReplacement):
                 elif "field" in f:
                     try:
                         field = self.project.get_field(f["field"])
-                    except AccessDeniedOrDoesNotExistException:
+                    except (AccessDeniedOrDoesNotExistException, QueryError):
                         errors.append(
                             self._error(
                                 f["field"],
@@ -531,7 +531,7 @@ class View(MetricsLayerBase, SQLReplacement):
         elif "event_dimension" in self._definition and self.event_dimension:
             try:
                 self.project.get_field(self.event_dimension)
-            except AccessDeniedOrDoesNotExistException:
+            except (AccessDeniedOrDoesNotExistException, QueryError):
                 errors.append(
                     self._error(
                         self._definition["event_dimension"],
-- 
2.43.0


From a880dc8df1744038fbf48e46b9ff5a6ba2c75a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:02 +0000
Subject: [PATCH 36/38] fix: validation leaves the filters it looks at as they
 were

---
 metrics_layer/core/model/field.py | 2 +-
 metrics_layer/core/model/view.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics_layer/core/model/field.py b/metrics_layer/core/model/field.py
index e4b2abe..10dc08b 100644
--- a/metrics_layer/core/model/field.py
+++ b/metrics_layer/core/model/field.py
@@ -1673,7 +1673,7 @@ class Field(MetricsLayerBase, SQLReplacement):
 
                 else:
                     if "field" in f and isinstance(f["field"], str) and "." not in f["field"]:
-                        f["field"] = f"{self.view.name}.{f['field']}"
+                        f = {**f, "field": f"{self.view.name}.{f['field']}"}
 
                     if "field" in f and f["field"] == f"{self.view.name}.{self.name}":
                         errors.append(
diff --git a/metrics_layer/core/model/view.py b/metrics_layer/core/model/view.py
index 4174959..00ead15 100644
--- a/metrics_layer/core/model/view.py
+++ b/metrics_layer/core/model/view.py
@@ -433,7 +433,7 @@ class View(MetricsLayerBase, SQLReplacement):
                     continue
 
                 if "field" in f and isinstance(f["field"], str) and "." not in f["field"]:
-                    f["field"] = f"{self.name}.{f['field']}"
+                    f = {**f, "field": f"{self.name}.{f['field']}"}
                 errors.extend(
                     Field.collect_field_filter_errors(
                         f, self.project, "Always filter", "view", self.name, error_func=self._error
-- 
2.43.0


From 218440cca0753b253ff965163aafbec2e3bdcbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:45 +0000
Subject: [PATCH 37/38] fix: a model may have an empty list of access grants

---
 metrics_layer/core/model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics_layer/core/model/model.py b/metrics_layer/core/model/model.py
index 5b5e6af..7680ef3 100644
--- a/metrics_layer/core/model/model.py
+++ b/metrics_layer/core/model/model.py
@@ -136,7 +136,7 @@ class Model(MetricsLayerBase):
                 raise QueryError(
                     f"The access_grants property, {self._definition['access_grants']} must be a list"
                 )
-            elif all([not isinstance(grant, dict) for grant in self._definition["access_grants"]]):
+            elif any(not isinstance(grant, dict) for grant in self._definition["access_grants"]):
                 raise QueryError(f"All access_grants in the access_grants property must be dictionaries")
             return self._definition["access_grants"]
         return []
-- 
2.43.0


From a2df753ae4ad7e7321c61681371ad14c3b127fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:23 +0000
Subject: [PATCH 38/38] fix: a filter that needs no value works on BigQuery and
 Trino and on yes/no fields

---
 metrics_layer/core/sql/query_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metrics_layer/core/sql/query_filter.py b/metrics_layer/core/sql/query_filter.py
index 5993e31..0793e27 100644
--- a/metrics_layer/core/sql/query_filter.py
+++ b/metrics_layer/core/sql/query_filter.py
@@ -141,14 +141,14 @@ class MetricsLayerFilter(MetricsLayerBase):
                     pass
 
             if self.design.query_type in Definitions.needs_datetime_cast and isinstance(
-                definition["value"], datetime.datetime
+                definition.get("value"), datetime.datetime
             ):
                 definition["value"] = datatype_cast(self.field, definition["value"])
 
-            if self.field.type == "yesno" and "False" in str(definition["value"]):
+            if self.field.type == "yesno" and "False" in str(definition.get("value")):
                 definition["expression"] = "boolean_false"
 
-            if self.field.type == "yesno" and "True" in str(definition["value"]):
+            if self.field.type == "yesno" and "True" in str(definition.get("value")):
                 definition["expression"] = "boolean_true"
 
     def group_sql_query(
-- 
2.43.0

