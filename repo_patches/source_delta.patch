From f2c63e83bb79de18b8a2b9136412da2983f66310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 01/30] fix: do not merge joined selects when simplifying a
 union

---
 subsetter/plan_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index eaa86ff..ebd0890 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -367,6 +367,8 @@ class SQLStatementUnion(BaseModel):
                 break
             if statement.limit is not None:
                 break
+            if statement.joins:
+                break
         else:
             return SQLStatementSelect(
                 type_="select",
-- 
2.43.0


From e776d6f8b66dc90d6516d8befb0c0ff22e109673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 02/30] fix: multiply foreign key columns by the column they
 reference

---
 subsetter/sampler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 6333ea8..f06358e 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1137,7 +1137,11 @@ class Sampler:
                 start_len = len(cols)
                 for fk in table.foreign_keys:
                     dst_mapped = result.get(f"{fk.dst_schema}.{fk.dst_table}", set())
-                    cols.update(set(fk.columns) & dst_mapped)
+                    cols.update(
+                        col
+                        for col, dst_col in zip(fk.columns, fk.dst_columns)
+                        if dst_col in dst_mapped
+                    )
 
                 if cols and table_name in ignore_tables:
                     raise ValueError(
-- 
2.43.0


From df83a078672d79d4548ae2d6bed13828d6705431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 03/30] fix: ignore foreign keys into unselected tables when
 reversing keys

---
 subsetter/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subsetter/metadata.py b/subsetter/metadata.py
index 6bcb932..3adb666 100644
--- a/subsetter/metadata.py
+++ b/subsetter/metadata.py
@@ -182,6 +182,8 @@ class DatabaseMetadata:
     def compute_reverse_keys(self) -> None:
         for table in self.tables.values():
             for fk in table.foreign_keys:
+                if (fk.dst_schema, fk.dst_table) not in self.tables:
+                    continue
                 self.tables[(fk.dst_schema, fk.dst_table)].rev_foreign_keys.append(
                     ForeignKey(
                         columns=fk.dst_columns,
-- 
2.43.0


From 2e2f6999c18c80c7eda585e88d5032217e0fe9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 04/30] fix: allow inserting rows without their primary key
 column

---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index f06358e..b5d5582 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -176,7 +176,7 @@ class ConflictInsert(Executable, ClauseElement):
             self.conflict_strategy = "error"
         else:
             for column in self.table.primary_key:
-                self.non_pk_columns.remove(column.name)
+                self.non_pk_columns.discard(column.name)
             if self.conflict_strategy == "replace" and not self.non_pk_columns:
                 # If there are no other columns outside of the primary key the replace
                 # strategy is meaningless and we should just skip.
-- 
2.43.0


From bb3c85fa1d1f1e2dbb6e917daf18a066da3f7637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 05/30] fix: only replace written columns on sqlite conflicts

---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index b5d5582..fcb228b 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -219,7 +219,7 @@ class ConflictInsert(Executable, ClauseElement):
         if self.conflict_strategy == "replace":
             stmt = stmt.on_conflict_do_update(
                 index_elements=self.table.primary_key,
-                set_=stmt.excluded,  # type: ignore
+                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
             )
         if self.conflict_strategy == "skip":
             stmt = stmt.on_conflict_do_nothing()
-- 
2.43.0


From 4b9b6eae72c9a7bd5732cf414f355c00bc2468b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 06/30] fix: apply table constraints to target tables

---
 subsetter/planner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index 66b17e3..cb76761 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -434,7 +434,10 @@ class Planner:
                         table_schema=table.schema,
                         table_name=table.name,
                     ),
-                    where=SQLWhereClauseAnd(type_="and", conditions=target_constraints),
+                    where=SQLWhereClauseAnd(
+                        type_="and",
+                        conditions=target_constraints + conf_constraints_sql,
+                    ),
                     limit=target.amount,
                 )
             )
-- 
2.43.0


From dd70cdd7a393e2ba9ae056465ad2783a748f0d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 07/30] fix: ignore target amount when all rows are requested

---
 subsetter/planner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index cb76761..de25cda 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -438,7 +438,7 @@ class Planner:
                         type_="and",
                         conditions=target_constraints + conf_constraints_sql,
                     ),
-                    limit=target.amount,
+                    limit=None if target.all_ else target.amount,
                 )
             )
 
-- 
2.43.0


From 0e04c6dc5373ed7f20ec29b14e64ca9ee33dd3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 08/30] fix: skip foreign keys into unplanned tables when
 creating tables

---
 subsetter/sampler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index fcb228b..c579604 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -539,6 +539,9 @@ class DatabaseOutput(SamplerOutput):
                         sa.CheckConstraint(constraint.sqltext)
                     )
                 if isinstance(constraint, sa.ForeignKeyConstraint):
+                    ref_table = constraint.referred_table
+                    if f"{ref_table.schema}.{ref_table.name}" not in table_obj_map:
+                        continue
                     fk_cols = _remap_cols(elem.column for elem in constraint.elements)
                     remapped_table_obj.append_constraint(
                         sa.ForeignKeyConstraint(
-- 
2.43.0


From 900b06ca91e754aba8f19110d03ca4d04add2029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 09/30] fix: skip foreign keys into unplanned tables when
 merging

---
 subsetter/sampler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index c579604..12d16bb 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -471,6 +471,8 @@ class DatabaseOutput(SamplerOutput):
             for fk in src_table.foreign_keys:
                 if len(fk.columns) != 1:
                     continue
+                if (fk.dst_schema, fk.dst_table) not in self.source_meta.tables:
+                    continue
                 if (
                     fk.dst_columns
                     != self.source_meta.tables[
-- 
2.43.0


From 0e6d69c9f68324c2898aaef8f6b3abfead0fb969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 10/30] fix: use ssl verification options PyMySQL honours

---
 subsetter/common.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index 43e29b8..792caee 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -144,12 +144,13 @@ class DatabaseConfig(BaseModel):
                     "cert": client_cert,
                 }
                 result = {key: value for key, value in result.items() if value}
-                if server_verify == "identity":
-                    result["verify_identity"] = True
-                elif server_verify == "cert":
-                    result["verify_cert"] = True
-                else:
-                    result["verify_cert"] = False
+                if server_verify == "identity" and not server_rootcert:
+                    raise ValueError(
+                        "Verifying server identity requires a root certificate"
+                    )
+                # These are the option names understood by PyMySQL's ssl dict
+                result["verify_mode"] = server_verify in ("cert", "identity")
+                result["check_hostname"] = server_verify == "identity"
                 return {"ssl": result}
 
             raise ValueError("Dialect does not support ssl")
-- 
2.43.0


From ae337d2b177862ebeb46e93d9e44ecd2f131f8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 11/30] fix: respect dialect environment variable for all
 engine settings

---
 subsetter/common.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index 792caee..79f67a1 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -185,9 +185,13 @@ class DatabaseConfig(BaseModel):
         self,
         env_prefix: Optional[str] = None,
     ) -> sa.engine.Engine:
+        dialect = self.dialect
+        if dialect is None and env_prefix is not None:
+            dialect = os.getenv(f"{env_prefix}DIALECT", None)  # type: ignore
+
         if self.isolation_level:
             isolation_level = self.isolation_level
-        elif self.dialect == "sqlite":
+        elif dialect == "sqlite":
             isolation_level = "SERIALIZABLE"
         else:
             isolation_level = "READ COMMITTED"
@@ -197,7 +201,7 @@ class DatabaseConfig(BaseModel):
             isolation_level=isolation_level,
             pool_pre_ping=True,
             connect_args=self.ssl.get_connect_args(
-                self.dialect or DEFAULT_DIALECT,
+                dialect or DEFAULT_DIALECT,
                 env_prefix=env_prefix,
             ),
             echo=self.echo,
@@ -207,7 +211,7 @@ class DatabaseConfig(BaseModel):
         def _set_session_sqls(dbapi_connection, _):
             cursor = dbapi_connection.cursor()
             try:
-                if self.dialect == "sqlite":
+                if dialect == "sqlite":
                     for db_alias, db_file in self.sqlite_databases.items():
                         escaped_db_file = db_file.replace("'", "''")
                         cursor.execute(
-- 
2.43.0


From 391fd30e5ae061dddaeb5a89e484a29d69641d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 12/30] fix: wrap limited selects in unions as a subquery

---
 subsetter/plan_model.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index ebd0890..9ef9e3e 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -342,7 +342,17 @@ class SQLStatementUnion(BaseModel):
     # TODO: Assert statements is not empty
 
     def build(self, context: SQLBuildContext):
-        return sa.union(*(statement.build(context) for statement in self.statements))
+        # Not all dialects accept a limited select directly within a union
+        return sa.union(
+            *(
+                (
+                    statement.build(context)
+                    if statement.limit is None
+                    else sa.select(statement.build(context).subquery())
+                )
+                for statement in self.statements
+            )
+        )
 
     def simplify(self) -> "SQLStatement":
         simp_statements = [
-- 
2.43.0


From 666f698f584dafac9e46e3c0b4e26ed3596fab68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 13/30] fix: parenthesise raw sql conditions

---
 subsetter/plan_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index 9ef9e3e..b7999e5 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -208,7 +208,7 @@ class SQLWhereClauseSQL(BaseModel):
     model_config = ConfigDict(populate_by_name=True)
 
     def build(self, context: SQLBuildContext, table_obj: sa.Table):
-        clause = sa.text(self.sql)
+        clause = sa.text(f"({self.sql})")
         if self.sql_params is not None:
             clause = clause.bindparams(**self.sql_params)
         return clause
-- 
2.43.0


From eea8ef3a1160fbc154a8a6d3b8857d18485be4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 14/30] fix: always refuse to compact foreign key columns

---
 subsetter/sampler.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 12d16bb..4fe4b94 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -780,13 +780,12 @@ class Sampler:
             else:
                 compact_columns[table_key] = set(cols)
 
-        if (
-            not self.config.compact.primary_keys
-            and not self.config.compact.auto_increment_keys
-        ):
-            return compact_columns
-
         for table_key, table_meta in meta.tables.items():
+            if (
+                not self.config.compact.primary_keys
+                and not self.config.compact.auto_increment_keys
+            ):
+                break
             if len(table_meta.primary_key) != 1:
                 continue
             if f"{table_key[0]}.{table_key[1]}" in self.passthrough_tables:
-- 
2.43.0


From 4d35a35b5f25425036c3e283ed5f11228709c501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 15/30] fix: avoid temporary table names differing only by case

---
 subsetter/sampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 4fe4b94..96fbca5 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -57,8 +57,9 @@ class TempTableCreator:
         name = "".join(ch for ch in name if ch.isalnum())[:40]
         if not name:
             name = "anon"
-        cnt = self.name_counts.get(name, 0)
-        self.name_counts[name] = cnt + 1
+        # Table names are not case-sensitive on all dialects
+        cnt = self.name_counts.get(name.lower(), 0)
+        self.name_counts[name.lower()] = cnt + 1
         if cnt:
             return f"{self.NAME_PREFIX}{name}_{cnt}"
         return f"{self.NAME_PREFIX}{name}"
-- 
2.43.0


From 7ecf7753037f6e7876c20e976218b89f497a28bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 16/30] fix: count every compaction join when copying temporary
 tables

---
 subsetter/sampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 96fbca5..1bc29dd 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -842,8 +842,9 @@ class Sampler:
             for fk in meta.tables[parse_table_name(table)].foreign_keys:
                 key = (fk.dst_schema, fk.dst_table)
                 compact_cols = self.compact_columns.get(key, set())
-                if any(col in compact_cols for col in fk.dst_columns):
-                    counter[key] = counter.get(key, 0) + 1
+                joins = sum(col in compact_cols for col in fk.dst_columns)
+                if joins:
+                    counter[key] = counter.get(key, 0) + joins
 
             for key, count in counter.items():
                 max_ref_counts[key] = max(max_ref_counts.get(key, 0), count)
-- 
2.43.0


From 150426f2638addc6021382845cd2927044d07ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 17/30] fix: sample the requested percentage of rows on sqlite

---
 subsetter/plan_model.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index b7999e5..7782243 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -3,6 +3,8 @@ from typing import Any, Callable, Dict, List, Literal, Optional, Union
 
 import sqlalchemy as sa
 from pydantic import BaseModel, ConfigDict, Field
+from sqlalchemy.ext.compiler import compiles
+from sqlalchemy.sql.functions import FunctionElement
 from typing_extensions import Annotated
 
 from subsetter.common import SQLKnownOperator, SQLLiteralType
@@ -13,6 +15,26 @@ from subsetter.common import SQLKnownOperator, SQLLiteralType
 SQLBuildContext = Callable[["SQLTableIdentifier"], sa.Table]
 
 
+# pylint: disable=too-many-ancestors,abstract-method
+class _RandomFraction(FunctionElement):
+    """A random value drawn uniformly between 0 and 1"""
+
+    type = sa.Float()
+    inherit_cache = True
+
+
+@compiles(_RandomFraction)
+def _compile_random_fraction(_element, compiler, **kwargs):
+    # pylint: disable=not-callable
+    return compiler.process(sa.func.random(), **kwargs)
+
+
+@compiles(_RandomFraction, "sqlite")
+def _compile_random_fraction_sqlite(_element, _compiler, **_kwargs):
+    # sqlite's random() is a signed 64-bit integer
+    return "(random() / 18446744073709551616.0 + 0.5)"
+
+
 class SQLTableIdentifier(BaseModel):
     table_schema: str = Field(..., alias="schema")
     table_name: str = Field(..., alias="table")
@@ -189,8 +211,7 @@ class SQLWhereClauseRandom(BaseModel):
     model_config = ConfigDict(populate_by_name=True)
 
     def build(self, context: SQLBuildContext, table_obj: sa.Table):
-        # pylint: disable=not-callable
-        return sa.func.random() < self.threshold
+        return _RandomFraction() < self.threshold
 
     def simplify(self) -> "SQLWhereClause":
         if self.threshold <= 0:
-- 
2.43.0


From 098999c27364061e4575235481f75c4c847e1001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:45 +0000
Subject: [PATCH 18/30] fix: reject omit filters naming missing or repeated
 columns

---
 subsetter/filters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index cbd0824..4e1b03a 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -173,6 +173,7 @@ class FilterOmit(FilterView):
     def __init__(self, columns_in: Iterable[str], columns_act: Iterable[str]) -> None:
         columns_in = tuple(columns_in)
         self.columns_act = tuple(columns_act)
+        _validate_and_index(str(type(self)), columns_in, self.columns_act)
         column_act_set = set(self.columns_act)
         columns_out = tuple(
             column for column in columns_in if column not in column_act_set
-- 
2.43.0


From 06a03946132f4815b5de9229e7a657dad27e5488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:17 +0000
Subject: [PATCH 19/30] fix: refuse constraints on an 'all' target that earlier
 sampled tables reference

---
 subsetter/planner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index de25cda..8915805 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -288,7 +288,9 @@ class Planner:
         # If we're selecting all rows we can just ignore them.
         if target:
             assert not foreign_keys
-            if target.all_:
+            if target.all_ and not self.config.table_constraints.get(
+                f"{table.schema}.{table.name}"
+            ):
                 rev_foreign_keys.clear()
             if rev_foreign_keys:
                 LOGGER.debug(
-- 
2.43.0


From 429f879df8210be229a3318c7d344b90f8a687fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:02 +0000
Subject: [PATCH 20/30] fix: refuse unknown SSL verification levels given in
 the environment

---
 subsetter/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subsetter/common.py b/subsetter/common.py
index 79f67a1..7566762 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -114,6 +114,8 @@ class DatabaseConfig(BaseModel):
             server_verify = as_dict.get("server", {}).get(
                 "verify", os.getenv(f"{env_prefix}SSL_SERVER_VERIFY", "none")
             )
+            if server_verify not in ("none", "cert", "identity"):
+                raise ValueError(f"Unknown SSL server verification {server_verify!r}")
             client_cert = self.client.cert or os.getenv(f"{env_prefix}SSL_CLIENT_CERT")
             client_key = self.client.key or os.getenv(f"{env_prefix}SSL_CLIENT_KEY")
             server_rootcert = self.server.rootcert or os.getenv(
-- 
2.43.0


From 163c8759871ff07086bec97269bdc7e368576298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 21/30] fix: keep same-named parameters of separate raw SQL
 conditions apart

---
 subsetter/plan_model.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index 7782243..86232ce 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -231,7 +231,13 @@ class SQLWhereClauseSQL(BaseModel):
     def build(self, context: SQLBuildContext, table_obj: sa.Table):
         clause = sa.text(f"({self.sql})")
         if self.sql_params is not None:
-            clause = clause.bindparams(**self.sql_params)
+            # Parameters of separate clauses may share a name
+            clause = clause.bindparams(
+                *(
+                    sa.bindparam(name, value, unique=True)
+                    for name, value in self.sql_params.items()
+                )
+            )
         return clause
 
     def simplify(self) -> "SQLWhereClause":
-- 
2.43.0


From c0238c43e28f2b0c28ec0c6376c15e819a72139e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:45 +0000
Subject: [PATCH 22/30] fix: do not open a sample twice when compacting
 references of a table to itself

---
 subsetter/sampler.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 1bc29dd..6d42b3e 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -846,6 +846,11 @@ class Sampler:
                 if joins:
                     counter[key] = counter.get(key, 0) + joins
 
+            # The table's own sample is read along with any joins to itself.
+            table_key = parse_table_name(table)
+            if table_key in counter:
+                counter[table_key] += 1
+
             for key, count in counter.items():
                 max_ref_counts[key] = max(max_ref_counts.get(key, 0), count)
 
@@ -960,7 +965,11 @@ class Sampler:
 
             build_ctx = meta.sql_build_context()
             if (schema, table_name, 0) in meta.temp_tables:
-                query_stmt = meta.temp_tables[(schema, table_name, 0)].select()
+                query_stmt = build_ctx(
+                    SQLTableIdentifier(
+                        table_schema=schema, table_name=table_name, sampled=True
+                    )
+                ).select()
             else:
                 query_stmt = query.build(build_ctx)
 
-- 
2.43.0


From ba65e1e519f9d043b7cf4b0cb863d51b9d5ab314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:42 +0000
Subject: [PATCH 23/30] fix: keep temporary table names within the identifier
 limit for non-ASCII names

---
 subsetter/sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 6d42b3e..26f3c11 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -54,7 +54,9 @@ class TempTableCreator:
         self.name_counts: Dict[str, int] = {}
 
     def _generate_name(self, name: str) -> str:
-        name = "".join(ch for ch in name if ch.isalnum())[:40]
+        # Only ASCII characters are kept as some dialects limit the length of
+        # identifiers in bytes and truncate anything longer.
+        name = "".join(ch for ch in name if ch.isascii() and ch.isalnum())[:40]
         if not name:
             name = "anon"
         # Table names are not case-sensitive on all dialects
-- 
2.43.0


From 93402bca0938eb520cede72fe23062d00776e53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:32 +0000
Subject: [PATCH 24/30] fix: keep expressions and order of indexes when
 creating tables

---
 subsetter/sampler.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 26f3c11..bba8872 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -12,6 +12,7 @@ from sqlalchemy.dialects import mysql, postgresql, sqlite
 from sqlalchemy.ext.compiler import compiles
 from sqlalchemy.sql.compiler import SQLCompiler
 from sqlalchemy.sql.expression import ClauseElement, Executable
+from sqlalchemy.sql.visitors import replacement_traverse
 
 from subsetter.common import DatabaseConfig, parse_table_name, pydantic_search
 from subsetter.config_model import (
@@ -557,20 +558,21 @@ class DatabaseOutput(SamplerOutput):
                         )
                     )
 
+            def _remap_expr(expr, columns=remapped_table_obj.columns):
+                return columns[expr.name] if isinstance(expr, sa.Column) else None
+
             for index_idx, index in enumerate(table_obj.indexes):
-                sa.Index(
-                    f"idx_subsetter_{remapped_table_obj.name}_{index_idx}",
-                    *(
-                        (
-                            remapped_table_obj.columns[col.name]
-                            if isinstance(col, sa.Column)
-                            else col
-                        )
-                        for col in index.columns
-                    ),
-                    unique=index.unique,
-                    dialect_options=index.dialect_options,
-                    **index.dialect_kwargs,
+                remapped_table_obj.append_constraint(
+                    sa.Index(
+                        f"idx_subsetter_{remapped_table_obj.name}_{index_idx}",
+                        *(
+                            replacement_traverse(expr, {}, _remap_expr)
+                            for expr in index.expressions
+                        ),
+                        unique=index.unique,
+                        dialect_options=index.dialect_options,
+                        **index.dialect_kwargs,
+                    )
                 )
 
         if tables_created:
-- 
2.43.0


From f5f3521ccec30d14d3b526be454cdd461228f9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:04 +0000
Subject: [PATCH 25/30] fix: shorten names of created indexes to the database's
 limit

---
 subsetter/sampler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index bba8872..f59dbd0 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -10,6 +10,7 @@ from typing import Any, Dict, Iterable, List, Optional, Set, Tuple
 import sqlalchemy as sa
 from sqlalchemy.dialects import mysql, postgresql, sqlite
 from sqlalchemy.ext.compiler import compiles
+from sqlalchemy.schema import conv
 from sqlalchemy.sql.compiler import SQLCompiler
 from sqlalchemy.sql.expression import ClauseElement, Executable
 from sqlalchemy.sql.visitors import replacement_traverse
@@ -564,7 +565,8 @@ class DatabaseOutput(SamplerOutput):
             for index_idx, index in enumerate(table_obj.indexes):
                 remapped_table_obj.append_constraint(
                     sa.Index(
-                        f"idx_subsetter_{remapped_table_obj.name}_{index_idx}",
+                        # Marking the name with `conv` has it shortened as needed
+                        conv(f"idx_subsetter_{remapped_table_obj.name}_{index_idx}"),
                         *(
                             replacement_traverse(expr, {}, _remap_expr)
                             for expr in index.expressions
-- 
2.43.0


From 068a92e0ceb5eb566be471c455aaa3dfc36eee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:57 +0000
Subject: [PATCH 26/30] fix: quote table names when looking up their sequences

pg_get_serial_sequence parses its first argument as an identifier, so a table whose name needs
quoting (mixed case, for instance) was not found.
---
 subsetter/sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index f59dbd0..c769882 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -259,7 +259,7 @@ def _autoincrement_get(engine, table: sa.Table) -> Optional[int]:
             result = conn.execute(
                 sa.text("SELECT currval(pg_get_serial_sequence(:tab, :col))"),
                 {
-                    "tab": f"{table.schema}.{table.name}",
+                    "tab": engine.dialect.identifier_preparer.format_table(table),
                     "col": table.autoincrement_column.name,
                 },
             )
@@ -292,7 +292,7 @@ def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None
         conn.execute(
             sa.text("SELECT setval(pg_get_serial_sequence(:tab, :col), :val)"),
             {
-                "tab": f"{table.schema}.{table.name}",
+                "tab": engine.dialect.identifier_preparer.format_table(table),
                 "col": table.autoincrement_column.name,
                 "val": value,
             },
-- 
2.43.0


From da86164c53a4afe16a374e405ba4ff2148623a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:06 +0000
Subject: [PATCH 27/30] fix: never move a sequence behind existing rows

Writing rows with small keys (for instance passthrough rows that exist already) reset the sequence to
the largest key written, below keys the destination had generated before.
---
 subsetter/sampler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index c769882..2209bcd 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -289,6 +289,10 @@ def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None
         return
 
     with engine.connect() as conn:
+        # Never move the sequence behind rows that already existed
+        existing = conn.scalar(sa.select(sa.func.max(table.autoincrement_column)))
+        if existing is not None:
+            value = max(value, existing)
         conn.execute(
             sa.text("SELECT setval(pg_get_serial_sequence(:tab, :col), :val)"),
             {
-- 
2.43.0


From 59f225d1fe6addab31a137de6df1189740a1a0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:24 +0000
Subject: [PATCH 28/30] fix: leave sequences alone for values they never
 generate

---
 subsetter/sampler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 2209bcd..1a4115a 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -280,6 +280,7 @@ def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None
         not _autoincrement_needs_updating(engine)
         or table.autoincrement_column is None
         or value is None
+        or value < 1  # below everything a sequence generates, setval refuses it
     ):
         return
     assert engine.dialect.name == "postgresql"
-- 
2.43.0


From 09345429db6c11b19f93abd2dc3eb8e98e9f9cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:03:07 +0000
Subject: [PATCH 29/30] fix: names of temporary tables clash with names
 sqlalchemy gives to their aliases

---
 subsetter/sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 1a4115a..408f4dd 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -65,7 +65,8 @@ class TempTableCreator:
         cnt = self.name_counts.get(name.lower(), 0)
         self.name_counts[name.lower()] = cnt + 1
         if cnt:
-            return f"{self.NAME_PREFIX}{name}_{cnt}"
+            # Must not end in a number; sqlalchemy names an alias of a table this way
+            return f"{self.NAME_PREFIX}{name}_{cnt}_"
         return f"{self.NAME_PREFIX}{name}"
 
     def create(
-- 
2.43.0


From 64672d29c0d1f3aea6e0c4b5bac4239e0d5e2d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:28:11 +0000
Subject: [PATCH 30/30] fix: names generated for aliases of joined tables clash
 with names of other tables

---
 subsetter/plan_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index 86232ce..8cf57a3 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -290,8 +290,9 @@ class SQLStatementSelect(BaseModel):
             joined_cols: List[sa.ColumnExpression] = []
             joined: sa.FromClause = table_obj
             exists_constraints: List[sa.ColumnExpressionArgument] = []
-            for join in self.joins:  # pylint: disable=not-an-iterable
-                right = join.right.build(context).alias()
+            for index, join in enumerate(self.joins):
+                # A generated alias (name_1) could be the name of another table
+                right = join.right.build(context).alias(f"_sbsttrjoin_{index}")
 
                 if join.half_unique and table_obj.primary_key:
                     joined = joined.join(
-- 
2.43.0

