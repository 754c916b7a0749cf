From 6a6d561f61cb55d86c8f2d336e647df3f3a4139f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:47 +0000
Subject: [PATCH 01/78] fix: escape backslash in MySQL string literals

---
 pysqlsync/dialect/mysql/data_types.py   | 13 +++++++++++++
 pysqlsync/dialect/mysql/discovery.py    |  2 +-
 pysqlsync/dialect/mysql/mutation.py     |  3 ++-
 pysqlsync/dialect/mysql/object_types.py | 13 +++++++++----
 pysqlsync/formation/object_types.py     |  9 +++++++--
 5 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/pysqlsync/dialect/mysql/data_types.py b/pysqlsync/dialect/mysql/data_types.py
index 6361793..3f44a97 100644
--- a/pysqlsync/dialect/mysql/data_types.py
+++ b/pysqlsync/dialect/mysql/data_types.py
@@ -1,3 +1,4 @@
+from pysqlsync.model import data_types
 from pysqlsync.model.data_types import (
     SqlTimestampType,
     SqlVariableBinaryType,
@@ -5,6 +6,18 @@ from pysqlsync.model.data_types import (
 )
 
 
+def escape_backslash(expr: str) -> str:
+    "Escapes a backslash, which is an escape character in a MySQL string literal."
+
+    return expr.replace("\\", "\\\\")
+
+
+def quote(s: str) -> str:
+    "Quotes a string to be embedded in a MySQL statement."
+
+    return escape_backslash(data_types.quote(s))
+
+
 class MySQLDateTimeType(SqlTimestampType):
     def __str__(self) -> str:
         if self.precision is not None:
diff --git a/pysqlsync/dialect/mysql/discovery.py b/pysqlsync/dialect/mysql/discovery.py
index 44dca53..73cbf4d 100644
--- a/pysqlsync/dialect/mysql/discovery.py
+++ b/pysqlsync/dialect/mysql/discovery.py
@@ -10,7 +10,6 @@ from pysqlsync.formation.discovery import (
     AnsiExplorer,
 )
 from pysqlsync.formation.object_types import Column, ForeignConstraint, Namespace
-from pysqlsync.model.data_types import quote
 from pysqlsync.model.id_types import LocalId, PrefixedId, SupportsQualifiedId
 from pysqlsync.util.typing import override
 
@@ -18,6 +17,7 @@ from .data_types import (
     MySQLDateTimeType,
     MySQLVariableBinaryType,
     MySQLVariableCharacterType,
+    quote,
 )
 from .object_types import MySQLObjectFactory
 
diff --git a/pysqlsync/dialect/mysql/mutation.py b/pysqlsync/dialect/mysql/mutation.py
index e199c5d..4b28660 100644
--- a/pysqlsync/dialect/mysql/mutation.py
+++ b/pysqlsync/dialect/mysql/mutation.py
@@ -9,9 +9,10 @@ from pysqlsync.formation.object_types import (
     deleted,
     join_or_none,
 )
-from pysqlsync.model.data_types import SqlEnumType, SqlVariableCharacterType, quote
+from pysqlsync.model.data_types import SqlEnumType, SqlVariableCharacterType
 from pysqlsync.model.id_types import LocalId
 
+from .data_types import quote
 from .object_types import MySQLColumn, MySQLTable
 
 
diff --git a/pysqlsync/dialect/mysql/object_types.py b/pysqlsync/dialect/mysql/object_types.py
index c73b678..4480e73 100644
--- a/pysqlsync/dialect/mysql/object_types.py
+++ b/pysqlsync/dialect/mysql/object_types.py
@@ -1,5 +1,5 @@
 from dataclasses import dataclass
-from typing import Optional
+from typing import Any, Optional
 
 from pysqlsync.formation.object_types import (
     Column,
@@ -8,9 +8,11 @@ from pysqlsync.formation.object_types import (
     ObjectFactory,
     Table,
 )
-from pysqlsync.model.data_types import SqlEnumType, quote
+from pysqlsync.model.data_types import SqlEnumType
 from pysqlsync.model.id_types import LocalId
 
+from .data_types import escape_backslash, quote
+
 
 class MySQLTable(Table):
     @property
@@ -41,7 +43,8 @@ class MySQLTable(Table):
 
 
 class MySQLEnumTable(EnumTable, MySQLTable):
-    pass
+    def value_expr(self, value: Any) -> str:
+        return escape_backslash(super().value_expr(value))
 
 
 @dataclass(eq=True)
@@ -55,9 +58,11 @@ class MySQLColumn(Column):
         )
         nullable = " NOT NULL" if not self.nullable else ""
         default = f" DEFAULT {self.default}" if self.default is not None else ""
+        default = escape_backslash(default)
         identity = " AUTO_INCREMENT" if self.identity else ""
         description = f" COMMENT {self.comment}" if self.description is not None else ""
-        return f"{self.data_type}{charset}{nullable}{default}{identity}{description}"
+        data_type = escape_backslash(str(self.data_type))
+        return f"{data_type}{charset}{nullable}{default}{identity}{description}"
 
     @property
     def comment(self) -> Optional[str]:
diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index 429a648..624b700 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -604,6 +604,11 @@ class EnumTable(Table):
         )
         self.values = values
 
+    def value_expr(self, value: Any) -> str:
+        "The SQL expression for a value stored in the enumeration table."
+
+        return constant(value)
+
     def create_stmt(self) -> str:
         statements: list[str] = []
         statements.append(super().create_stmt())
@@ -611,9 +616,9 @@ class EnumTable(Table):
         values: list[str] = []
         for value in self.values:
             if isinstance(value, tuple) or is_dataclass_instance(value):
-                values.append(constant(value))
+                values.append(self.value_expr(value))
             else:
-                values.append(f"({constant(value)})")
+                values.append(f"({self.value_expr(value)})")
         value_list = ", ".join(values)
 
         statements.append(
-- 
2.43.0


From dd8c3c01135bda166e6b5923a478240778431f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 02/78] fix: use 1 and 0 for Boolean default values in SQL
 Server

---
 pysqlsync/dialect/mssql/mutation.py     |  4 ++--
 pysqlsync/dialect/mssql/object_types.py | 13 +++++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/dialect/mssql/mutation.py b/pysqlsync/dialect/mssql/mutation.py
index 5f49fe8..c780650 100644
--- a/pysqlsync/dialect/mssql/mutation.py
+++ b/pysqlsync/dialect/mssql/mutation.py
@@ -33,8 +33,8 @@ class MSSQLMutator(Mutator):
         constraints: list[str] = []
         common_columns = source.columns.intersection(target.columns)
         for source_column, target_column in common_columns:
-            source_def = source_column.default
-            target_def = target_column.default
+            source_def = typing.cast(MSSQLColumn, source_column).default_expr
+            target_def = typing.cast(MSSQLColumn, target_column).default_expr
 
             if source_def == target_def:
                 continue
diff --git a/pysqlsync/dialect/mssql/object_types.py b/pysqlsync/dialect/mssql/object_types.py
index 45f3aff..1206942 100644
--- a/pysqlsync/dialect/mssql/object_types.py
+++ b/pysqlsync/dialect/mssql/object_types.py
@@ -8,7 +8,7 @@ from pysqlsync.formation.object_types import (
     Table,
     join_or_none,
 )
-from pysqlsync.model.data_types import quote
+from pysqlsync.model.data_types import SqlBooleanType, quote
 from pysqlsync.model.id_types import LocalId
 from pysqlsync.util.typing import override
 
@@ -19,12 +19,21 @@ class MSSQLColumn(Column):
 
         return LocalId(f"df_{self.name.local_id}")
 
+    @property
+    def default_expr(self) -> Optional[str]:
+        "The expression for DEFAULT. Transact-SQL has no Boolean literals."
+
+        if isinstance(self.data_type, SqlBooleanType) and self.default is not None:
+            return {"TRUE": "1", "FALSE": "0"}.get(self.default, self.default)
+
+        return self.default
+
     @property
     def data_spec(self) -> str:
         nullable = " NOT NULL" if not self.nullable else ""
         name = self.default_constraint_name()
         default = (
-            f" CONSTRAINT {name} DEFAULT {self.default}"
+            f" CONSTRAINT {name} DEFAULT {self.default_expr}"
             if self.default is not None
             else ""
         )
-- 
2.43.0


From a2334868bc8e5b7603aefe3f24be2a8db8b606b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:37 +0000
Subject: [PATCH 03/78] fix: read back default values and double precision
 columns in SQL Server

---
 pysqlsync/dialect/mssql/discovery.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mssql/discovery.py b/pysqlsync/dialect/mssql/discovery.py
index f52484d..1e028b3 100644
--- a/pysqlsync/dialect/mssql/discovery.py
+++ b/pysqlsync/dialect/mssql/discovery.py
@@ -1,10 +1,11 @@
+import re
 from typing import Optional
 
 from pysqlsync.base import BaseContext
 from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
 from pysqlsync.formation.discovery import AnsiExplorer
 from pysqlsync.formation.object_types import Column, Namespace, Table
-from pysqlsync.model.data_types import quote
+from pysqlsync.model.data_types import SqlDoubleType, quote
 from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 
 from .data_types import (
@@ -16,6 +17,13 @@ from .data_types import (
 from .object_types import MSSQLObjectFactory
 
 
+def unwrap_default(definition: str) -> str:
+    "Removes the parentheses that SQL Server places around the definition of a default value."
+
+    m = re.fullmatch(r"\(+([-+]?[0-9.]+(?:[eE][-+]?[0-9]+)?|'(?:[^']|'')*')\)+", definition)
+    return m.group(1) if m is not None else definition
+
+
 class MSSQLExplorer(AnsiExplorer):
     def __init__(self, conn: BaseContext) -> None:
         super().__init__(
@@ -25,6 +33,7 @@ class MSSQLExplorer(AnsiExplorer):
                     substitutions={
                         "bit": MSSQLBooleanType(),
                         "datetime": MSSQLDateTimeType(),
+                        "float": SqlDoubleType(),
                         "datetime2": MSSQLDateTimeType(),
                         "nvarchar": MSSQLVariableCharacterType(
                             encoding=MSSQLEncoding.UTF16
@@ -61,7 +70,7 @@ class MSSQLExplorer(AnsiExplorer):
             if c.name.id in identity_columns:
                 c.identity = True
             if c.name.id in default_values:
-                c.default = default_values[c.name.id]
+                c.default = unwrap_default(default_values[c.name.id])
 
         return columns
 
-- 
2.43.0


From d57512c2f1fe6a0fd99f602b83e4c2db9f5abaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 04/78] fix: drop each constraint with a separate statement in
 Oracle

---
 pysqlsync/dialect/oracle/object_types.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pysqlsync/dialect/oracle/object_types.py b/pysqlsync/dialect/oracle/object_types.py
index 5469aff..5b508e5 100644
--- a/pysqlsync/dialect/oracle/object_types.py
+++ b/pysqlsync/dialect/oracle/object_types.py
@@ -1,4 +1,5 @@
 import re
+from typing import Optional
 
 from pysqlsync.formation.object_types import Column, EnumTable, ObjectFactory, Table
 from pysqlsync.model.data_types import SqlTimestampType
@@ -34,6 +35,15 @@ class OracleTable(Table):
             f"ALTER TABLE {self.name} {statement};" for statement in statements
         )
 
+    def drop_constraints_stmt(self) -> Optional[str]:
+        # Oracle does not permit a comma-separated list of actions
+        if self.table_constraints:
+            return self.alter_table_stmt(
+                [f"DROP CONSTRAINT {c.name}" for c in self.table_constraints]
+            )
+        else:
+            return None
+
     def drop_if_exists_stmt(self) -> str:
         return (
             "BEGIN\n"
-- 
2.43.0


From 4bd818df1cf0dabe19ed867083a98c0662616f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 05/78] fix: drop namespaces in reverse order of reference

---
 pysqlsync/formation/mutation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 35a5c75..05c43f3 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -345,6 +345,7 @@ class Mutator:
 
         ns_create = list(target.namespaces.difference(source.namespaces))
         ns_drop = list(source.namespaces.difference(target.namespaces))
+        ns_drop.reverse()  # remove dependent namespaces first
         ns_mutate = list(source.namespaces.intersection(target.namespaces))
 
         # create new namespaces
-- 
2.43.0


From 227562ed3751543a3df5e3a7b16c8c69d1535d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 06/78] fix: do not take a blank line for the end of a
 tab-separated file

---
 pysqlsync/data/exchange.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pysqlsync/data/exchange.py b/pysqlsync/data/exchange.py
index f20925c..eba2b7b 100644
--- a/pysqlsync/data/exchange.py
+++ b/pysqlsync/data/exchange.py
@@ -134,20 +134,20 @@ class TextReader:
 
         rows: list[tuple] = []
         while True:
-            line = self.stream.readline().rstrip(b"\n")
+            line = self.stream.readline()
             if not line:
                 break
-            rows.append(self.parser.parse_line(line))
+            rows.append(self.parser.parse_line(line.rstrip(b"\n")))
         return rows
 
     def records(self) -> Iterable[tuple]:
         "An iterator to records in a file-like object."
 
         while True:
-            line = self.stream.readline().rstrip(b"\n")
+            line = self.stream.readline()
             if not line:
                 break
-            yield self.parser.parse_line(line)
+            yield self.parser.parse_line(line.rstrip(b"\n"))
 
 
 class AsyncBinaryIO(Protocol):
@@ -191,10 +191,9 @@ class AsyncTextReader:
         rows: list[tuple] = []
         while True:
             line = await self.stream.readline()
-            record = line.rstrip(b"\n")
-            if not record:
+            if not line:
                 break
-            rows.append(self.parser.parse_line(record))
+            rows.append(self.parser.parse_line(line.rstrip(b"\n")))
         return rows
 
     async def records(self) -> AsyncIterator[tuple]:
@@ -202,7 +201,6 @@ class AsyncTextReader:
 
         while True:
             line = await self.stream.readline()
-            record = line.rstrip(b"\n")
-            if not record:
+            if not line:
                 break
-            yield self.parser.parse_line(record)
+            yield self.parser.parse_line(line.rstrip(b"\n"))
-- 
2.43.0


From 936e79d69794c84960bfe8597590179bea98e4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 07/78] fix: create types before array columns of other
 namespaces that use them

---
 pysqlsync/formation/object_types.py | 33 +++++++++++++++++++----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index 624b700..9cbc096 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -6,7 +6,12 @@ from typing import Any, Iterable, Optional, overload
 from strong_typing.inspection import is_dataclass_instance
 from strong_typing.topological import topological_sort
 
-from ..model.data_types import SqlDataType, SqlUserDefinedType, constant
+from ..model.data_types import (
+    SqlArrayType,
+    SqlDataType,
+    SqlUserDefinedType,
+    constant,
+)
 from ..model.id_types import LocalId, SupportsQualifiedId
 from .object_dict import ObjectDict
 
@@ -17,6 +22,20 @@ def deleted(name: str) -> str:
     return f"pysqlsync${name}"
 
 
+def _user_defined_types(
+    data_types: Iterable[SqlDataType],
+) -> set[SupportsQualifiedId]:
+    "Names of user-defined types that data types (or their array elements) refer to."
+
+    items: set[SupportsQualifiedId] = set()
+    for data_type in data_types:
+        while isinstance(data_type, SqlArrayType):
+            data_type = data_type.element_type
+        if isinstance(data_type, SqlUserDefinedType):
+            items.add(data_type.ref)
+    return items
+
+
 class StatementList(list[str]):
     def append(self, __object: Optional[str]) -> None:
         if __object is None:
@@ -162,11 +181,7 @@ class StructType(DatabaseObject, QualifiedObject):
         self.description = description
 
     def get_referenced_types(self) -> set[SupportsQualifiedId]:
-        return set(
-            m.data_type.ref
-            for m in self.members.values()
-            if isinstance(m.data_type, SqlUserDefinedType)
-        )
+        return _user_defined_types(m.data_type for m in self.members.values())
 
     def create_stmt(self) -> str:
         members = ",\n".join(str(m) for m in self.members.values())
@@ -522,11 +537,7 @@ class Table(DatabaseObject, QualifiedObject):
         raise KeyError(f"foreign constraint not found for column: {column_id}")
 
     def get_referenced_types(self) -> set[SupportsQualifiedId]:
-        return set(
-            c.data_type.ref
-            for c in self.columns.values()
-            if isinstance(c.data_type, SqlUserDefinedType)
-        )
+        return _user_defined_types(c.data_type for c in self.columns.values())
 
     def get_referenced_tables(self) -> set[SupportsQualifiedId]:
         items: set[SupportsQualifiedId] = set()
-- 
2.43.0


From 326099b79245a6c89d1488b8bfdc2715bf69373e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 08/78] fix: follow the structure mode for elements of arrays

---
 pysqlsync/formation/py_to_sql.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index ef3a4e0..9d461b1 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -613,13 +613,7 @@ class DataclassConverter:
                 )
             if isinstance(item_type, type):
                 if self.options.array_mode is ArrayMode.ARRAY:
-                    return SqlArrayType(
-                        SqlUserDefinedType(
-                            self.create_qualified_id(
-                                item_type.__module__, item_type.__name__
-                            )
-                        )
-                    )
+                    return SqlArrayType(self.member_to_sql_data_type(item_type, cls))
                 elif self.options.array_mode is ArrayMode.JSON:
                     return self.member_to_sql_data_type(JsonType, cls)
                 elif self.options.array_mode is ArrayMode.RELATION:
-- 
2.43.0


From 6dfe5e42ad796bd77088f4b0818753f56e769da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:30 +0000
Subject: [PATCH 09/78] fix: refuse turning text into a number that is no
 reference with a formation error

---
 pysqlsync/formation/mutation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 05c43f3..77a25d4 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -203,6 +203,11 @@ class Mutator:
         # migrate data when data type changes
         try:
             for source_column, target_column in migrated_columns:
+                if not target.is_relation(target_column):
+                    raise ColumnFormationError(
+                        "values can only migrate to a column that references a lookup table",
+                        target_column.name,
+                    )
                 statements.append(
                     self.migrate_column_stmt(
                         source, source_column, target, target_column
-- 
2.43.0


From 78ec95927fc1d6894514fb79b5bedceeb02c89e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 10/78] fix: recognize time types with a precision

---
 pysqlsync/formation/data_types.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index e5abc76..3d6902c 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -109,6 +109,14 @@ class SqlDiscovery:
             else:
                 return SqlTimestampType(int(m.group(1)), False)
 
+        m = re.fullmatch(
+            r"^time[(](\d+)[)]\s*(with(?:out)? time zone)?$",
+            type_def,
+            re.IGNORECASE,
+        )
+        if m is not None:
+            return SqlTimeType(int(m.group(1)), m.group(2) == "with time zone")
+
         m = re.fullmatch(r"^char(?:acter)?[(](\d+)[)]$", type_def, re.IGNORECASE)
         if m is not None:
             return SqlFixedCharacterType(int(m.group(1)))
-- 
2.43.0


From 2dc74e65f2d2c9af71348d5591d482f6c1218b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:41 +0000
Subject: [PATCH 11/78] fix: read back default values in PostgreSQL

---
 pysqlsync/dialect/postgresql/discovery.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 17a7481..dbadba0 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -44,8 +44,22 @@ def to_default_expr(expr: Optional[str]) -> Optional[str]:
             tzinfo=None,
         )
         return quote(timestamp.isoformat(sep=" "))
-    else:
-        return expr
+
+    if expr in ("true", "false"):
+        return expr.upper()
+
+    m = re.match(r"^('(?:[^']|'')*')::(?:text|character varying|bpchar)$", expr)
+    if m:
+        return m.group(1)
+
+    m = re.match(
+        r"^'([-+.\w]+)'::(?:smallint|integer|bigint|numeric|real|double precision)$",
+        expr,
+    )
+    if m:
+        return m.group(1)
+
+    return expr
 
 
 @dataclass
-- 
2.43.0


From 5dcf3c154c86d33511825ff6e8d34a843587bbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 12/78] fix: read back composite type members of an array type
 in PostgreSQL

---
 pysqlsync/dialect/postgresql/discovery.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index dbadba0..bd559ed 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -73,6 +73,7 @@ class PostgreSQLMemberMeta:
     type_schema: str
     type_name: str
     type_def: str
+    is_array: bool
     description: str
 
 
@@ -206,9 +207,9 @@ class PostgreSQLExplorer(Explorer):
             "SELECT\n"
             "    att.attname AS member_name,\n"
             "    typ_nsp.nspname AS type_schema,\n"
-            "    typ.typname AS type_name,\n"
             "    CASE WHEN typ.typelem != 0 THEN typ_elem.typname ELSE typ.typname END AS type_name,\n"
             "    pg_catalog.format_type(att.atttypid, att.atttypmod) AS type_def,\n"
+            "    att.attndims != 0 AS is_array,\n"
             "    dsc.description AS description\n"
             "FROM pg_catalog.pg_attribute AS att\n"
             "    INNER JOIN pg_catalog.pg_type AS typ ON att.atttypid = typ.oid\n"
@@ -228,6 +229,8 @@ class PostgreSQLExplorer(Explorer):
                 type_schema=mem.type_schema,
                 type_def=mem.type_def,
             )
+            if mem.is_array:
+                data_type = SqlArrayType(data_type)
             members.append(
                 StructMember(
                     LocalId(mem.member_name),
-- 
2.43.0


From bccdf16322e2f3042c3a36039964f972ecd9a38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 13/78] fix: read back enumeration values with an apostrophe in
 MySQL

---
 pysqlsync/formation/data_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index 3d6902c..ac7d3ec 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -142,7 +142,8 @@ class SqlDiscovery:
         if m is not None:
             value_list = m.group(1)
             values = [
-                value for value in re.findall(r"'((?:[^']+|'')*)'(?:,|$)", value_list)
+                value.replace("''", "'")
+                for value in re.findall(r"'((?:[^']+|'')*)'(?:,|$)", value_list)
             ]
             return SqlEnumType(values)
 
-- 
2.43.0


From bfe54c628f145830a0057ec0bbe1b8ff56f44b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:55 +0000
Subject: [PATCH 14/78] fix: drop constraints before the columns and tables
 they depend on

---
 pysqlsync/formation/mutation.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 77a25d4..40444bf 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -230,6 +230,12 @@ class Mutator:
                 "failed to update columns in table", target.name
             ) from e
 
+        alter_stmts.extend(
+            f"DROP CONSTRAINT {constraint.name}"
+            for constraint in source.constraints.difference(target.constraints)
+            if constraint.is_alter_table()
+        )
+
         # remove deleted columns
         try:
             alter_stmts.extend(column.drop_stmt() for column in drop_columns)
@@ -238,12 +244,6 @@ class Mutator:
                 "failed to drop columns in table", target.name
             ) from e
 
-        alter_stmts.extend(
-            f"DROP CONSTRAINT {constraint.name}"
-            for constraint in source.constraints.difference(target.constraints)
-            if constraint.is_alter_table()
-        )
-
         # remove outdated constraints
         common_constraints = source.constraints.intersection(target.constraints)
         for source_constraint, target_constraint in common_constraints:
@@ -327,6 +327,8 @@ class Mutator:
 
         # drop old objects
         if self.options.allow_drop_table:
+            if len(table_drop) > 1:  # tables may reference each other
+                statements.extend(table.drop_constraints_stmt() for table in table_drop)
             statements.extend(table.drop_stmt() for table in table_drop)
 
         if self.options.allow_drop_struct:
-- 
2.43.0


From cd0408efcbf38149a3286084b75b5473ab1b1f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 15/78] fix: create referenced objects of other namespaces
 first and drop them last

---
 pysqlsync/formation/mutation.py | 59 ++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 40444bf..6198b90 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -280,9 +280,6 @@ class Mutator:
 
         # identify objects to drop
         enum_drop = list(source.enums.difference(target.enums))
-        struct_drop = list(source.structs.difference(target.structs))
-        table_drop = list(source.tables.difference(target.tables))
-        enum_soft_deleted: list[EnumType] = []
 
         # create new objects
         statements.extend(enum.create_stmt() for enum in enum_create)
@@ -293,7 +290,6 @@ class Mutator:
                 if enum_type.name != table.name:
                     continue
                 statements.append(enum_type.soft_drop_stmt())
-                enum_soft_deleted.append(enum_type)
 
         statements.extend(table.create_stmt() for table in table_create)
         statements.extend(table.add_constraints_stmt() for table in table_create)
@@ -325,6 +321,26 @@ class Mutator:
             for source_table, target_table in table_mutate
         )
 
+        return join_or_none(statements)
+
+    def drop_namespace_objects_stmt(
+        self, source: Namespace, target: Namespace
+    ) -> Optional[str]:
+        "Drops objects that a namespace has lost. Invoked once no namespace refers to these objects any longer."
+
+        statements: StatementList = StatementList()
+
+        # identify objects to drop
+        enum_drop = list(source.enums.difference(target.enums))
+        struct_drop = list(source.structs.difference(target.structs))
+        table_drop = list(source.tables.difference(target.tables))
+        table_create = list(target.tables.difference(source.tables))
+        enum_soft_deleted = [
+            enum_type
+            for enum_type in enum_drop
+            if any(enum_type.name == table.name for table in table_create)
+        ]
+
         # drop old objects
         if self.options.allow_drop_table:
             if len(table_drop) > 1:  # tables may reference each other
@@ -353,29 +369,34 @@ class Mutator:
         ns_create = list(target.namespaces.difference(source.namespaces))
         ns_drop = list(source.namespaces.difference(target.namespaces))
         ns_drop.reverse()  # remove dependent namespaces first
-        ns_mutate = list(source.namespaces.intersection(target.namespaces))
 
         # create new namespaces
         statements.extend(namespace.create_schema_stmt() for namespace in ns_create)
 
-        # create objects in each namespace added
-        statements.extend(namespace.create_objects_stmt() for namespace in ns_create)
-
-        # add new constraints
-        statements.extend(namespace.add_constraints_stmt() for namespace in ns_create)
-
-        # mutate existing namespaces
-        statements.extend(
-            self.mutate_namespace_stmt(source_ns, target_ns)
-            for source_ns, target_ns in ns_mutate
-        )
+        # create or mutate objects in each namespace, referenced namespaces first
+        for name, target_ns in target.namespaces.items():
+            source_ns = source.namespaces.get(name)
+            if source_ns is not None:
+                statements.append(self.mutate_namespace_stmt(source_ns, target_ns))
+            else:
+                statements.append(target_ns.create_objects_stmt())
+                statements.append(target_ns.add_constraints_stmt())
 
         # remove old constraints
-        statements.extend(namespace.drop_constraints_stmt() for namespace in ns_drop)
         if self.options.allow_drop_namespace:
-            # drop objects in each namespace removed
-            statements.extend(namespace.drop_objects_stmt() for namespace in ns_drop)
+            statements.extend(namespace.drop_constraints_stmt() for namespace in ns_drop)
+
+        # drop objects in each namespace mutated or removed, dependent namespaces first
+        for name, source_ns in reversed(list(source.namespaces.items())):
+            retained_ns = target.namespaces.get(name)
+            if retained_ns is not None:
+                statements.append(
+                    self.drop_namespace_objects_stmt(source_ns, retained_ns)
+                )
+            elif self.options.allow_drop_namespace:
+                statements.append(source_ns.drop_objects_stmt())
 
+        if self.options.allow_drop_namespace:
             # drop old namespaces
             statements.extend(namespace.drop_schema_stmt() for namespace in ns_drop)
 
-- 
2.43.0


From 44a2a48c6c1744389f3cd9e321df293024a867f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:48 +0000
Subject: [PATCH 16/78] fix: refuse adding an identity property in Oracle with
 a formation error

---
 pysqlsync/dialect/oracle/mutation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/oracle/mutation.py b/pysqlsync/dialect/oracle/mutation.py
index 31a0dc1..490f5de 100644
--- a/pysqlsync/dialect/oracle/mutation.py
+++ b/pysqlsync/dialect/oracle/mutation.py
@@ -2,7 +2,7 @@ import typing
 from typing import Optional
 
 from pysqlsync.formation.mutation import Mutator
-from pysqlsync.formation.object_types import Column
+from pysqlsync.formation.object_types import Column, ColumnFormationError
 
 from .object_types import OracleColumn
 
@@ -29,7 +29,10 @@ class OracleMutator(Mutator):
                 changes.append("NULL")
         if source.identity != target.identity:
             if target.identity:
-                changes.append("GENERATED BY DEFAULT AS IDENTITY")
+                raise ColumnFormationError(
+                    "operation not permitted; cannot add identity property",
+                    source.name,
+                )
             else:
                 changes.append("DROP IDENTITY")
 
-- 
2.43.0


From 29259b87e20f7f475926356423c7c05763e35ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:39 +0000
Subject: [PATCH 17/78] fix: drop constraints before changing the columns they
 depend on

---
 pysqlsync/formation/mutation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 6198b90..a43cd47 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -200,6 +200,12 @@ class Mutator:
         # accumulate object mutation statements
         alter_stmts: list[Optional[str]] = []
 
+        alter_stmts.extend(
+            f"DROP CONSTRAINT {constraint.name}"
+            for constraint in source.constraints.difference(target.constraints)
+            if constraint.is_alter_table()
+        )
+
         # migrate data when data type changes
         try:
             for source_column, target_column in migrated_columns:
@@ -230,12 +236,6 @@ class Mutator:
                 "failed to update columns in table", target.name
             ) from e
 
-        alter_stmts.extend(
-            f"DROP CONSTRAINT {constraint.name}"
-            for constraint in source.constraints.difference(target.constraints)
-            if constraint.is_alter_table()
-        )
-
         # remove deleted columns
         try:
             alter_stmts.extend(column.drop_stmt() for column in drop_columns)
-- 
2.43.0


From ea6c952dd9b35ea8276c39f884cea7865f1068c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:49 +0000
Subject: [PATCH 18/78] fix: drop default constraint while the type of the
 column changes in SQL Server

---
 pysqlsync/dialect/mssql/mutation.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/dialect/mssql/mutation.py b/pysqlsync/dialect/mssql/mutation.py
index c780650..e0d90ec 100644
--- a/pysqlsync/dialect/mssql/mutation.py
+++ b/pysqlsync/dialect/mssql/mutation.py
@@ -30,25 +30,34 @@ class MSSQLMutator(Mutator):
     def mutate_table_stmt(self, source: Table, target: Table) -> Optional[str]:
         statements = StatementList()
 
-        constraints: list[str] = []
+        drop_constraints: list[str] = []
+        add_constraints: list[str] = []
         common_columns = source.columns.intersection(target.columns)
         for source_column, target_column in common_columns:
             source_def = typing.cast(MSSQLColumn, source_column).default_expr
             target_def = typing.cast(MSSQLColumn, target_column).default_expr
 
-            if source_def == target_def:
+            # data type is immutable while column has a default constraint
+            if (
+                source_def == target_def
+                and source_column.data_type == target_column.data_type
+            ):
                 continue
 
             name = typing.cast(MSSQLColumn, source_column).default_constraint_name()
             if source_def is not None:
-                constraints.append(f"DROP CONSTRAINT {name}")
+                drop_constraints.append(f"DROP CONSTRAINT {name}")
             if target_def is not None:
-                constraints.append(
+                add_constraints.append(
                     f"ADD CONSTRAINT {name} DEFAULT {target_def} FOR {source_column.name}"
                 )
 
-        if constraints:
-            statements.append(source.alter_table_stmt(constraints))
+        if drop_constraints:
+            statements.append(source.alter_table_stmt(drop_constraints))
 
         statements.append(super().mutate_table_stmt(source, target))
+
+        if add_constraints:
+            statements.append(source.alter_table_stmt(add_constraints))
+
         return join_or_none(statements)
-- 
2.43.0


From 7cb185cdfd0a5121fe0230ddf62ee866a365862a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:37 +0000
Subject: [PATCH 19/78] fix: create types of modules that define no table

---
 pysqlsync/formation/py_to_sql.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 9d461b1..8ff1552 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -1178,9 +1178,10 @@ class DataclassConverter:
                     name=LocalId(self.options.namespaces.get(module_name) or ""),
                     enums=enums.get(module_name, []),
                     structs=structs.get(module_name, []),
-                    tables=table_defs,
+                    tables=tables.get(module_name, []),
                 )
-                for module_name, table_defs in tables.items()
+                # modules may define types only
+                for module_name in dict.fromkeys([*enums, *structs, *tables])
             ]
         else:
             namespaces = [
-- 
2.43.0


From 73fde2f7b580c4a61a68e305409f8f5baa98fa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 20/78] fix: drop composite types before the types they are
 composed of

---
 pysqlsync/formation/mutation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index a43cd47..9ba1315 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -333,6 +333,7 @@ class Mutator:
         # identify objects to drop
         enum_drop = list(source.enums.difference(target.enums))
         struct_drop = list(source.structs.difference(target.structs))
+        struct_drop.reverse()  # remove dependent types first
         table_drop = list(source.tables.difference(target.tables))
         table_create = list(target.tables.difference(source.tables))
         enum_soft_deleted = [
-- 
2.43.0


From 0b3d3c10c7d751e9b6ac9f3a5072ffee9cf37a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:20 +0000
Subject: [PATCH 21/78] fix: carry text values over to a lookup table in
 PostgreSQL

---
 pysqlsync/dialect/postgresql/mutation.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/mutation.py b/pysqlsync/dialect/postgresql/mutation.py
index 03da4af..68972ed 100644
--- a/pysqlsync/dialect/postgresql/mutation.py
+++ b/pysqlsync/dialect/postgresql/mutation.py
@@ -10,7 +10,12 @@ from pysqlsync.formation.object_types import (
     deleted,
     join_or_none,
 )
-from pysqlsync.model.data_types import SqlIntegerType, SqlUserDefinedType, quote
+from pysqlsync.model.data_types import (
+    SqlIntegerType,
+    SqlUserDefinedType,
+    SqlVariableCharacterType,
+    quote,
+)
 from pysqlsync.model.id_types import LocalId
 from pysqlsync.util.typing import override
 
@@ -39,12 +44,20 @@ class PostgreSQLMutator(Mutator):
         self, source_table: Table, source: Column, target_table: Table, target: Column
     ) -> Optional[str]:
         ref = target_table.get_constraint(target.name)
-        return (
+        statements: list[str] = []
+        if isinstance(source.data_type, SqlVariableCharacterType):
+            source_name = LocalId(deleted(source.name.id))
+            statements.append(
+                f'INSERT INTO {ref.table} ("value") SELECT DISTINCT {source_name} FROM {source_table.name} WHERE {source_name} IS NOT NULL\n'
+                'ON CONFLICT ("value") DO NOTHING;'
+            )
+        statements.append(
             f"UPDATE {source_table.name} data_table\n"
             f'SET {target.name} = enum_table."id"\n'
             f"FROM {ref.table} enum_table\n"
             f'WHERE data_table.{LocalId(deleted(source.name.id))}::VARCHAR = enum_table."value";'
         )
+        return "\n".join(statements)
 
     def mutate_table_stmt(self, source: Table, target: Table) -> Optional[str]:
         statements: StatementList = StatementList()
-- 
2.43.0


From 23f1a3337da02811a78e2681504a30e8e4c6a8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:48 +0000
Subject: [PATCH 22/78] fix: leave NULL values out of a lookup table in MySQL

---
 pysqlsync/dialect/mysql/mutation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pysqlsync/dialect/mysql/mutation.py b/pysqlsync/dialect/mysql/mutation.py
index 4b28660..2d56401 100644
--- a/pysqlsync/dialect/mysql/mutation.py
+++ b/pysqlsync/dialect/mysql/mutation.py
@@ -31,6 +31,7 @@ class MySQLMutator(Mutator):
         elif isinstance(source.data_type, SqlVariableCharacterType):
             statements.append(
                 f'INSERT INTO {ref.table} ("value") SELECT DISTINCT {LocalId(deleted(source.name.id))} FROM {source_table.name}\n'
+                f"WHERE {LocalId(deleted(source.name.id))} IS NOT NULL\n"
                 'ON DUPLICATE KEY UPDATE "value" = "value";'
             )
         statements.append(
-- 
2.43.0


From 9aca778c3368c108b05975dd87502974b7bd1f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:18 +0000
Subject: [PATCH 23/78] fix: refuse to turn text into a reference in dialects
 that cannot carry over the values

---
 pysqlsync/formation/mutation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 9ba1315..4d45842 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -104,7 +104,9 @@ class Mutator:
     def migrate_column_stmt(
         self, source_table: Table, source: Column, target_table: Table, target: Column
     ) -> Optional[str]:
-        return None
+        raise ColumnFormationError(
+            "values cannot migrate to a lookup table in this dialect", target.name
+        )
 
     def is_column_migrated(self, source: Column, target: Column) -> Optional[bool]:
         """
-- 
2.43.0


From 74f8d3faf8259937c5275c8604037d9f115c61e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:39 +0000
Subject: [PATCH 24/78] fix: keep the signedness of integers in a common type

---
 pysqlsync/model/data_types.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/model/data_types.py b/pysqlsync/model/data_types.py
index c71aef6..e5e68ff 100644
--- a/pysqlsync/model/data_types.py
+++ b/pysqlsync/model/data_types.py
@@ -1,3 +1,4 @@
+import copy
 import datetime
 import decimal
 from dataclasses import dataclass
@@ -359,6 +360,32 @@ def max_or_none(left: Optional[int], right: Optional[int]) -> Optional[int]:
         return max(left, right)
 
 
+def _compatible_integer_type(
+    left: SqlIntegerType, right: SqlIntegerType
+) -> SqlIntegerType:
+    "Returns a common type that can represent integers of both source types."
+
+    if left.signed == right.signed:
+        signed = left.signed
+        width = max(left.width, right.width)
+    else:
+        # a signed integer type has to be wider than an unsigned type to represent all of its values
+        signed = True
+        width = max(
+            typ.width if typ.signed else 2 * typ.width for typ in (left, right)
+        )
+        if width > 8:
+            raise CompatibilityError()
+
+    # use the most specific class, even if it takes no parameters
+    common_type = copy.copy(right if type(left) is SqlIntegerType else left)
+    common_type.width = width
+    common_type.signed = signed
+    common_type.minimum = None
+    common_type.maximum = None
+    return common_type
+
+
 def _compatible_type(left: SqlDataType, right: SqlDataType) -> SqlDataType:
     """
     Returns a common type that can represent instances of both source types without data loss.
@@ -372,7 +399,7 @@ def _compatible_type(left: SqlDataType, right: SqlDataType) -> SqlDataType:
 
     # integer types
     if isinstance(left, SqlIntegerType) and isinstance(right, SqlIntegerType):
-        return type(left)(width=max(left.width, right.width))
+        return _compatible_integer_type(left, right)
 
     # floating-point types
     if isinstance(left, SqlRealType):
-- 
2.43.0


From c921eece5517730bb7c1ddec0095234af7801edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:34 +0000
Subject: [PATCH 25/78] fix: recognize fixed-width numeric types by value, not
 by identity

---
 pysqlsync/formation/py_to_sql.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 8ff1552..e1438b1 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -371,40 +371,40 @@ class DataclassConverter:
             return SqlIntegerType(8)
         if typ is float:
             return SqlDoubleType()
-        if typ is int8:
+        if typ == int8:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("int1"))
             else:
                 return SqlIntegerType(2)
-        if typ is int16:
+        if typ == int16:
             return SqlIntegerType(2)
-        if typ is int32:
+        if typ == int32:
             return SqlIntegerType(4)
-        if typ is int64:
+        if typ == int64:
             return SqlIntegerType(8)
-        if typ is uint8:
+        if typ == uint8:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint1"))
             else:
                 return SqlIntegerType(2)
-        if typ is uint16:
+        if typ == uint16:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint2"))
             else:
                 return SqlIntegerType(2)
-        if typ is uint32:
+        if typ == uint32:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint4"))
             else:
                 return SqlIntegerType(4)
-        if typ is uint64:
+        if typ == uint64:
             if self.options.extra_numeric_types:
                 return SqlUserDefinedType(GlobalId("uint8"))
             else:
                 return SqlIntegerType(8)
-        if typ is float32:
+        if typ == float32:
             return SqlRealType()
-        if typ is float64:
+        if typ == float64:
             return SqlDoubleType()
         if typ is str:
             return SqlVariableCharacterType()
-- 
2.43.0


From ea3ed683fb2b99a9707508748ad1b3af1e3bd913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 26/78] fix: do not block the event loop when a dispatched call
 is cancelled

---
 pysqlsync/util/dispatch.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/util/dispatch.py b/pysqlsync/util/dispatch.py
index e217308..3bb1871 100644
--- a/pysqlsync/util/dispatch.py
+++ b/pysqlsync/util/dispatch.py
@@ -23,8 +23,14 @@ def thread_dispatch(fn: Callable[P, R]) -> Callable[P, Coroutine[None, None, R]]
     async def invoke(*args: P.args, **kwargs: P.kwargs) -> R:
         loop = asyncio.get_running_loop()
         with ThreadPoolExecutor(max_workers=1) as pool:
-            return await loop.run_in_executor(
+            future = loop.run_in_executor(
                 pool, functools.partial(fn, *args, **kwargs)
             )
+            try:
+                return await asyncio.shield(future)
+            except asyncio.CancelledError:
+                # a call in progress cannot be interrupted; wait for it without blocking the event loop
+                await asyncio.wait([future])
+                raise
 
     return invoke
-- 
2.43.0


From 3b3f78f743a8e0e05d08031894020eb528a38756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:43 +0000
Subject: [PATCH 27/78] fix: do not repeat random values of unique fields

---
 pysqlsync/data/generator.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/data/generator.py b/pysqlsync/data/generator.py
index 8d6dec5..f788c5d 100644
--- a/pysqlsync/data/generator.py
+++ b/pysqlsync/data/generator.py
@@ -24,7 +24,7 @@ from strong_typing.inspection import (
 from strong_typing.serialization import object_to_json
 
 from pysqlsync.formation.inspection import is_struct_type, reference_to_key
-from pysqlsync.model.properties import get_field_properties
+from pysqlsync.model.properties import get_field_properties, is_unique_type
 
 T = TypeVar("T")
 E = TypeVar("E", bound=enum.Enum)
@@ -310,6 +310,25 @@ class RandomGenerator:
 D = TypeVar("D", bound=DataclassInstance)
 
 
+def distinct_generator(generator: Callable[[int], Any]) -> Callable[[int], Any]:
+    "Wraps a generator such that it never returns the same value twice (except for None)."
+
+    values: set[Any] = set()
+
+    def generate(k: int) -> Any:
+        for _ in range(10000):
+            value = generator(k)
+            if value is None:
+                return value
+            if value not in values:
+                values.add(value)
+                return value
+
+        raise DataGeneratorError("unable to generate enough distinct values")
+
+    return generate
+
+
 def random_objects(cls: type[D], count: int) -> list[D]:
     """
     Creates a list of data-class instances with all their fields populated with random values recursively.
@@ -321,6 +340,9 @@ def random_objects(cls: type[D], count: int) -> list[D]:
         field.name: random_generator.create(field.type, cls)
         for field in dataclass_fields(cls)
     }
+    for field in dataclass_fields(cls):
+        if is_unique_type(field.type):
+            generators[field.name] = distinct_generator(generators[field.name])
 
     items: list[D] = []
     for k in range(0, count):
-- 
2.43.0


From 6f211a1f2a4212efbff8020df1a8248a9f99a626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:47 +0000
Subject: [PATCH 28/78] fix: generate random keys in the permitted range of
 values

---
 pysqlsync/data/generator.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/data/generator.py b/pysqlsync/data/generator.py
index f788c5d..0d5d792 100644
--- a/pysqlsync/data/generator.py
+++ b/pysqlsync/data/generator.py
@@ -196,6 +196,17 @@ class RandomGenerator:
         self.keys = list(range(count))
         random.shuffle(self.keys)
 
+    def _get_key_offset(self, integer_range: Optional[IntegerRange]) -> int:
+        "Finds the smallest non-negative key, if possible, such that all keys lie in the permitted range of values."
+
+        if integer_range is None:
+            return 0
+
+        count = len(self.keys)
+        if integer_range.maximum - integer_range.minimum + 1 < count:
+            raise DataGeneratorError(f"unable to generate {count} distinct keys")
+        return min(max(0, integer_range.minimum), integer_range.maximum - count + 1)
+
     def create_json(self, cls: type) -> Callable[[int], dict[str, Any]]:
         generators = {
             field.name: self.create(field.type, cls) for field in dataclass_fields(cls)
@@ -222,7 +233,8 @@ class RandomGenerator:
 
         if field_properties.is_primary:
             if plain_type is int:
-                return lambda k: self.keys[k]
+                offset = self._get_key_offset(get_annotation(field_type, IntegerRange))
+                return lambda k: self.keys[k] + offset
             elif plain_type is uuid.UUID:
                 return lambda _: uuid.uuid4()
 
-- 
2.43.0


From bab4a7c91821ca5bbc4367b81a74324fd9cb77bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:59 +0000
Subject: [PATCH 29/78] fix: decode database name in connection string

---
 pysqlsync/factory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/factory.py b/pysqlsync/factory.py
index aef20f1..c713155 100644
--- a/pysqlsync/factory.py
+++ b/pysqlsync/factory.py
@@ -12,7 +12,7 @@ import logging
 import re
 import typing
 from typing import Optional
-from urllib.parse import parse_qs, unquote, urlparse
+from urllib.parse import parse_qs, unquote, urlsplit
 
 from strong_typing.inspection import get_module_classes
 
@@ -80,7 +80,7 @@ def get_parameters(url: str) -> tuple[str, ConnectionParameters]:
     URL-encoded (a.k.a. percent-encoded) to comply with RFC 3986.
     """
 
-    parts = urlparse(url, allow_fragments=False)
+    parts = urlsplit(url, allow_fragments=False)
 
     ssl: Optional[ConnectionSSLMode] = None
     if parts.query:
@@ -103,7 +103,7 @@ def get_parameters(url: str) -> tuple[str, ConnectionParameters]:
         port=parts.port,
         username=unquote(parts.username) if parts.username else None,
         password=unquote(parts.password) if parts.password else None,
-        database=parts.path.lstrip("/") if parts.path else None,
+        database=unquote(parts.path.lstrip("/")) if parts.path else None,
         ssl=ssl,
     )
 
-- 
2.43.0


From 467b90cd6d69e7a95a1848f10f8a4cf63f6467bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:59 +0000
Subject: [PATCH 30/78] fix: do not expose password in string representation of
 connection parameters

---
 pysqlsync/connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/connection.py b/pysqlsync/connection.py
index 52a3556..8c385ba 100644
--- a/pysqlsync/connection.py
+++ b/pysqlsync/connection.py
@@ -9,7 +9,7 @@ This module helps create a secure sockets layer (SSL) context.
 import enum
 import ssl
 import sys
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from typing import Optional
 from urllib.parse import quote
 
@@ -96,7 +96,7 @@ class ConnectionParameters:
     host: Optional[str] = None
     port: Optional[int] = None
     username: Optional[str] = None
-    password: Optional[str] = None
+    password: Optional[str] = field(default=None, repr=False)
     database: Optional[str] = None
     ssl: Optional[ConnectionSSLMode] = None
 
-- 
2.43.0


From b2206a397e7f4272eff0bb64f18f9a100ec112ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 31/78] fix: escape credentials and database name in ODBC
 connection string

---
 pysqlsync/dialect/mssql/connection.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pysqlsync/dialect/mssql/connection.py b/pysqlsync/dialect/mssql/connection.py
index 1639471..5d2e62b 100644
--- a/pysqlsync/dialect/mssql/connection.py
+++ b/pysqlsync/dialect/mssql/connection.py
@@ -20,6 +20,12 @@ T = TypeVar("T")
 LOGGER = logging.getLogger("pysqlsync.mssql")
 
 
+def odbc_value(value: str) -> str:
+    "Escapes a caller-supplied attribute value in an ODBC connection string."
+
+    return "{" + value.replace("}", "}}") + "}"
+
+
 class MSSQLConnection(BaseConnection):
     """
     Represents a connection to a Microsoft SQL Server.
@@ -31,24 +37,23 @@ class MSSQLConnection(BaseConnection):
     @thread_dispatch
     def open(self) -> BaseContext:
         LOGGER.info("connecting to %s", self.params)
+        host = self.params.host or "localhost"
         params = {
             "DRIVER": "{ODBC Driver 18 for SQL Server}",
             "APP": "pysqlsync",
             "SERVER": (
-                f"{self.params.host},{self.params.port}"
-                if self.params.port is not None
-                else self.params.host
+                f"{host},{self.params.port}" if self.params.port is not None else host
             ),
-            "UID": self.params.username,
-            "PWD": self.params.password,
             "LongAsMax": "yes",
             "TrustServerCertificate": "yes",
         }
+        if self.params.username is not None:
+            params["UID"] = odbc_value(self.params.username)
+        if self.params.password is not None:
+            params["PWD"] = odbc_value(self.params.password)
         if self.params.database is not None:
-            params["DATABASE"] = self.params.database
-        conn_string = ";".join(
-            f"{key}={value}" for key, value in params.items() if value is not None
-        )
+            params["DATABASE"] = odbc_value(self.params.database)
+        conn_string = ";".join(f"{key}={value}" for key, value in params.items())
         conn = pyodbc.connect(conn_string)
         with conn.cursor() as cur:
             rows = cur.execute("SELECT @@VERSION").fetchall()
-- 
2.43.0


From 942f3db19c117c5fa9c58fac830115823ded1b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 32/78] fix: do not use SSL when connecting to PostgreSQL with
 SSL disabled

---
 pysqlsync/dialect/postgresql/connection.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index cea28ed..0f0142d 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -2,7 +2,7 @@ import dataclasses
 import logging
 import ssl
 import typing
-from typing import Iterable, Optional, TypeVar
+from typing import Iterable, Optional, TypeVar, Union
 
 import asyncpg
 from strong_typing.inspection import DataclassInstance, is_dataclass_type
@@ -28,16 +28,18 @@ class PostgreSQLConnection(BaseConnection):
         LOGGER.info("connecting to %s", self.params)
 
         ssl_mode = self.params.ssl
-        if ssl_mode is None or ssl_mode is ConnectionSSLMode.disable:
-            return await self._open()
+        if ssl_mode is None:
+            return await self._open()  # driver default
+        elif ssl_mode is ConnectionSSLMode.disable:
+            return await self._open(False)
         elif ssl_mode is ConnectionSSLMode.prefer:
             try:
                 return await self._open(create_context(ssl_mode))
             except ConnectionError:
-                return await self._open()
+                return await self._open(False)
         elif ssl_mode is ConnectionSSLMode.allow:
             try:
-                return await self._open()
+                return await self._open(False)
             except ConnectionError:
                 return await self._open(create_context(ssl_mode))
         elif (
@@ -49,7 +51,7 @@ class PostgreSQLConnection(BaseConnection):
         else:
             raise ValueError(f"unsupported SSL mode: {ssl_mode}")
 
-    async def _open(self, ctx: Optional[ssl.SSLContext] = None) -> BaseContext:
+    async def _open(self, ctx: Union[ssl.SSLContext, bool, None] = None) -> BaseContext:
         conn = await asyncpg.connect(
             host=self.params.host,
             port=self.params.port,
-- 
2.43.0


From 17f12eaafc836d337c505ef59d13684802e2a63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:02 +0000
Subject: [PATCH 33/78] fix: do not connect to MySQL over plain text when SSL
 is required

---
 pysqlsync/dialect/mysql/connection.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pysqlsync/dialect/mysql/connection.py b/pysqlsync/dialect/mysql/connection.py
index 06b59d4..9c37a9d 100644
--- a/pysqlsync/dialect/mysql/connection.py
+++ b/pysqlsync/dialect/mysql/connection.py
@@ -5,6 +5,7 @@ from typing import Optional, TypeVar
 
 import aiomysql
 import pymysql
+from pymysql.constants import CLIENT, CR
 from strong_typing.inspection import DataclassInstance, is_dataclass_type
 
 from pysqlsync.base import BaseConnection, BaseContext, DataSource
@@ -72,6 +73,13 @@ class MySQLConnection(BaseConnection):
             autocommit=True,
             ssl=ctx,
         )
+        if ctx is not None and not self.native.server_capabilities & CLIENT.SSL:
+            # driver falls back to plain text when the server does not support SSL
+            self.native.close()
+            raise pymysql.err.OperationalError(
+                CR.CR_SSL_CONNECTION_ERROR,
+                "SSL connection error: SSL is required but the server does not support it",
+            )
         return MySQLContext(self)
 
     @override
-- 
2.43.0


From f935a2be6d3ee3bc963d86eee5a6eb3e830b331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 34/78] fix: do not replace an error of the caller when closing
 the connection fails

---
 pysqlsync/base.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 0ef6a2c..925e428 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -571,7 +571,13 @@ class BaseConnection(abc.ABC):
         exc_val: Optional[BaseException],
         exc_tb: Optional[types.TracebackType],
     ) -> None:
-        await self.close()
+        try:
+            await self.close()
+        except Exception:
+            # do not replace an error raised in the body of the context manager
+            if exc_val is None:
+                raise
+            LOGGER.warning("failed to close connection", exc_info=True)
 
     @abc.abstractmethod
     async def open(self) -> "BaseContext": ...
-- 
2.43.0


From 3f10e3f28c9a69b3effb5270f445632fe72b0760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 35/78] fix: close connection when session set-up fails

---
 pysqlsync/dialect/mssql/connection.py  | 12 ++++++++----
 pysqlsync/dialect/oracle/connection.py | 12 +++++++++---
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/pysqlsync/dialect/mssql/connection.py b/pysqlsync/dialect/mssql/connection.py
index 5d2e62b..133e625 100644
--- a/pysqlsync/dialect/mssql/connection.py
+++ b/pysqlsync/dialect/mssql/connection.py
@@ -55,10 +55,14 @@ class MSSQLConnection(BaseConnection):
             params["DATABASE"] = odbc_value(self.params.database)
         conn_string = ";".join(f"{key}={value}" for key, value in params.items())
         conn = pyodbc.connect(conn_string)
-        with conn.cursor() as cur:
-            rows = cur.execute("SELECT @@VERSION").fetchall()
-            for row in rows:
-                LOGGER.info(row)
+        try:
+            with conn.cursor() as cur:
+                rows = cur.execute("SELECT @@VERSION").fetchall()
+                for row in rows:
+                    LOGGER.info(row)
+        except Exception:
+            conn.close()
+            raise
 
         self.native = conn
         return MSSQLContext(self)
diff --git a/pysqlsync/dialect/oracle/connection.py b/pysqlsync/dialect/oracle/connection.py
index e2032f5..c3a3aa0 100644
--- a/pysqlsync/dialect/oracle/connection.py
+++ b/pysqlsync/dialect/oracle/connection.py
@@ -45,9 +45,15 @@ class OracleConnection(BaseConnection):
             password=self.params.password,
             dsn=f"{host}:{port}/{database}",
         )
-        conn.autocommit = True
-        with conn.cursor() as cur:
-            cur.execute("ALTER SESSION SET NLS_DATE_FORMAT = 'YYYY-MM-DD HH24:MI:SS'")
+        try:
+            conn.autocommit = True
+            with conn.cursor() as cur:
+                cur.execute(
+                    "ALTER SESSION SET NLS_DATE_FORMAT = 'YYYY-MM-DD HH24:MI:SS'"
+                )
+        except Exception:
+            conn.close()
+            raise
 
         self.native = conn
         return OracleContext(self)
-- 
2.43.0


From d52f1be58e121e0769cb11a3615a9ec8c0273b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 36/78] fix: report errors in all statements of a batch in
 Microsoft SQL Server

---
 pysqlsync/dialect/mssql/connection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pysqlsync/dialect/mssql/connection.py b/pysqlsync/dialect/mssql/connection.py
index 133e625..3504906 100644
--- a/pysqlsync/dialect/mssql/connection.py
+++ b/pysqlsync/dialect/mssql/connection.py
@@ -87,6 +87,10 @@ class MSSQLContext(BaseContext):
         with self.native_connection.cursor() as cur:
             cur.execute(statement)
 
+            # errors in later statements of a batch are reported when results of earlier statements are consumed
+            while cur.nextset():
+                pass
+
     @override
     async def _execute_all(self, statement: str, source: DataSource) -> None:
         async for batch in source.batches():
-- 
2.43.0


From e93b1599deeca476f03fbfd0971910b6d5261349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 37/78] fix: do not assume objects have been created or dropped
 when the statement fails

---
 pysqlsync/base.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 925e428..413abeb 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -994,17 +994,27 @@ class BaseContext(abc.ABC):
         "Creates tables, structs, enumerations, constraints, etc. corresponding to entity class definitions."
 
         generator = self.connection.generator
+        state = generator.state
         statement = generator.create(tables=tables)
         if statement:
-            await self.execute(statement)
+            try:
+                await self.execute(statement)
+            except Exception:
+                generator.state = state
+                raise
 
     async def drop_objects(self) -> None:
         "Drops all objects currently synced with the generator. (This function is mainly for unit tests.)"
 
         generator = self.connection.generator
+        state = generator.state
         statement = generator.drop()
         if statement:
-            await self.execute(statement)
+            try:
+                await self.execute(statement)
+            except Exception:
+                generator.state = state
+                raise
 
     async def insert_data(self, table: type[D], data: Iterable[D]) -> None:
         "Inserts data in the database table corresponding to the dataclass type."
-- 
2.43.0


From feef78696c32bf3312760df679aa3977dee3dac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:14 +0000
Subject: [PATCH 38/78] fix: convert values of optional and annotated fields
 when inserting objects

---
 pysqlsync/base.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 413abeb..0059483 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -27,7 +27,14 @@ from typing import (
     overload,
 )
 
-from strong_typing.inspection import DataclassInstance, is_dataclass_type, is_type_enum
+from strong_typing.inspection import (
+    DataclassInstance,
+    is_dataclass_type,
+    is_type_enum,
+    is_type_optional,
+    unwrap_annotated_type,
+    unwrap_optional_type,
+)
 from strong_typing.name import python_type_to_str
 
 from .connection import ConnectionParameters
@@ -490,13 +497,31 @@ class BaseGenerator(abc.ABC):
         "Returns a tuple of callable function objects that extracts each field of a data-class."
 
         return tuple(
-            self.get_field_extractor(
+            self._get_nullable_field_extractor(
                 table.columns[field.name], field.name, typing.cast(type, field.type)
             )
             for field in dataclasses.fields(entity_type)
             if not (skip_identity and table.columns[field.name].identity)
         )
 
+    def _get_nullable_field_extractor(
+        self, column: Column, field_name: str, field_type: type
+    ) -> Callable[[Any], Any]:
+        "Returns a callable function object that extracts a single field of a data-class, which may be an optional field."
+
+        field_type = unwrap_annotated_type(field_type)
+        if not is_type_optional(field_type):
+            return self.get_field_extractor(column, field_name, field_type)
+
+        extractor = self.get_field_extractor(
+            column,
+            field_name,
+            unwrap_annotated_type(unwrap_optional_type(field_type)),
+        )
+        return lambda obj: (
+            extractor(obj) if getattr(obj, field_name) is not None else None
+        )
+
     def get_field_extractor(
         self, column: Column, field_name: str, field_type: type
     ) -> Callable[[Any], Any]:
-- 
2.43.0


From 4d29ac2f352e81b79f5fddb9404c296aed30bcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:28 +0000
Subject: [PATCH 39/78] fix: accept naive and timezone-aware time values in
 Oracle for both objects and records

---
 pysqlsync/dialect/oracle/generator.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pysqlsync/dialect/oracle/generator.py b/pysqlsync/dialect/oracle/generator.py
index 9a16b89..f7415eb 100644
--- a/pysqlsync/dialect/oracle/generator.py
+++ b/pysqlsync/dialect/oracle/generator.py
@@ -33,6 +33,13 @@ MIN_DATETIME = datetime.datetime.min.replace(tzinfo=datetime.timezone.utc)
 MIN_DATE = datetime.date.min
 
 
+def _time_to_interval(value: datetime.time) -> datetime.timedelta:
+    "Converts a time of day, either naive or timezone-aware, into the interval elapsed since midnight."
+
+    midnight = MIN_DATETIME if value.tzinfo is not None else datetime.datetime.min
+    return datetime.datetime.combine(MIN_DATE, value) - midnight
+
+
 class OracleGenerator(BaseGenerator):
     "Generator for Oracle."
 
@@ -94,12 +101,7 @@ class OracleGenerator(BaseGenerator):
         elif is_ip_address_type(field_type):
             return lambda obj: getattr(obj, field_name).packed
         elif field_type is datetime.time:
-            return (
-                lambda obj: datetime.datetime.combine(
-                    MIN_DATE, getattr(obj, field_name)
-                )
-                - MIN_DATETIME
-            )
+            return lambda obj: _time_to_interval(getattr(obj, field_name))
 
         return super().get_field_extractor(column, field_name, field_type)
 
@@ -112,9 +114,6 @@ class OracleGenerator(BaseGenerator):
         elif is_ip_address_type(field_type):
             return lambda field: field.packed
         elif field_type is datetime.time:
-            return (
-                lambda field: datetime.datetime.combine(datetime.date.min, field)
-                - datetime.datetime.min
-            )
+            return _time_to_interval
 
         return super().get_value_transformer(column, field_type)
-- 
2.43.0


From 089a151489d2c3ca5585756e067be4ae9299036a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:02 +0000
Subject: [PATCH 40/78] fix: match column order of statements to field order of
 objects

---
 pysqlsync/base.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 0059483..6ee26b0 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -447,13 +447,13 @@ class BaseGenerator(abc.ABC):
         "Returns a SQL statement to insert or ignore records in a database table."
 
         table_object = self.state.get_table(self.get_qualified_id(ClassRef(table)))
-        return self.get_table_insert_stmt(table_object)
+        return self.get_table_insert_stmt(table_object, _field_order(table_object, table))
 
     def get_dataclass_upsert_stmt(self, table: type[DataclassInstance]) -> str:
         "Returns a SQL statement to insert or update records in a database table."
 
         table_object = self.state.get_table(self.get_qualified_id(ClassRef(table)))
-        return self.get_table_upsert_stmt(table_object)
+        return self.get_table_upsert_stmt(table_object, _field_order(table_object, table))
 
     def get_dataclass_delete_stmt(self, table: type[DataclassInstance]) -> str:
         "Returns a SQL statement to delete records from a database table."
@@ -561,6 +561,18 @@ class BaseGenerator(abc.ABC):
         return lambda field: [enum_dict[item] for item in field]
 
 
+def _field_order(
+    table: Table, entity_type: type[DataclassInstance]
+) -> tuple[str, ...]:
+    "Column names in the order in which fields of a data-class are extracted."
+
+    return tuple(
+        field.name
+        for field in dataclasses.fields(entity_type)
+        if field.name in table.columns
+    )
+
+
 class QueryException(RuntimeError):
     query: str
 
-- 
2.43.0


From 43a2725dc9d75fc9f055870f22670f12af3ef58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:02 +0000
Subject: [PATCH 41/78] fix: leave columns not supplied to an upsert unchanged
 in PostgreSQL and MySQL

---
 pysqlsync/dialect/mysql/generator.py      | 2 +-
 pysqlsync/dialect/postgresql/generator.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/mysql/generator.py b/pysqlsync/dialect/mysql/generator.py
index d7487fc..6abf193 100644
--- a/pysqlsync/dialect/mysql/generator.py
+++ b/pysqlsync/dialect/mysql/generator.py
@@ -107,7 +107,7 @@ class MySQLGenerator(BaseGenerator):
         columns = [column for column in table.get_columns(order)]
         statements.append(_field_list([column.name for column in columns]))
         statements.append("ON DUPLICATE KEY UPDATE")
-        value_columns = table.get_value_columns()
+        value_columns = table.get_value_columns(order)
         if value_columns:
             defs = [_field_update(column.name) for column in value_columns]
         else:
diff --git a/pysqlsync/dialect/postgresql/generator.py b/pysqlsync/dialect/postgresql/generator.py
index 4baa8a0..07c9325 100644
--- a/pysqlsync/dialect/postgresql/generator.py
+++ b/pysqlsync/dialect/postgresql/generator.py
@@ -99,7 +99,7 @@ class PostgreSQLGenerator(BaseGenerator):
             self.placeholder(index) for index, _ in enumerate(columns, start=1)
         )
         statements.append(f"({column_list}) VALUES ({value_list})")
-        value_columns = table.get_value_columns()
+        value_columns = table.get_value_columns(order)
         keys = ", ".join(str(key) for key in table.primary_key)
         if value_columns:
             statements.append(f"ON CONFLICT ({keys}) DO UPDATE SET")
-- 
2.43.0


From b0195cbd6368ea0ee1a4f2d6e011ad9ffa65f5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:21 +0000
Subject: [PATCH 42/78] fix: leave out fields of type None from the statement
 that inserts or updates rows

---
 pysqlsync/base.py                          | 23 ++++++++++++++++++++--
 pysqlsync/dialect/postgresql/connection.py | 10 ++++++++--
 pysqlsync/dialect/redshift/connection.py   |  3 ++-
 3 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 6ee26b0..55da07e 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -573,6 +573,25 @@ def _field_order(
     )
 
 
+def get_record_order(
+    table: Table,
+    field_types: tuple[type, ...],
+    field_names: Optional[tuple[str, ...]],
+) -> Optional[tuple[str, ...]]:
+    "Column names in the order in which they are supplied in a record, without omitted fields."
+
+    if field_names is None:
+        if type(None) not in field_types:
+            return None
+        field_names = tuple(table.columns.keys())
+
+    return tuple(
+        field_name
+        for field_type, field_name in zip(field_types, field_names)
+        if field_type is not type(None) and field_name
+    )
+
+
 class QueryException(RuntimeError):
     query: str
 
@@ -1140,7 +1159,7 @@ class BaseContext(abc.ABC):
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
         )
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = get_record_order(table, field_types, field_names)
         statement = self.connection.generator.get_table_insert_stmt(table, order)
         await self._execute_typed(statement, record_generator, table, order)
 
@@ -1198,7 +1217,7 @@ class BaseContext(abc.ABC):
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
         )
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = get_record_order(table, field_types, field_names)
         statement = self.connection.generator.get_table_upsert_stmt(table, order)
 
         await self._execute_typed(statement, record_generator, table, order)
diff --git a/pysqlsync/dialect/postgresql/connection.py b/pysqlsync/dialect/postgresql/connection.py
index 0f0142d..0cef38c 100644
--- a/pysqlsync/dialect/postgresql/connection.py
+++ b/pysqlsync/dialect/postgresql/connection.py
@@ -7,7 +7,13 @@ from typing import Iterable, Optional, TypeVar, Union
 import asyncpg
 from strong_typing.inspection import DataclassInstance, is_dataclass_type
 
-from pysqlsync.base import BaseConnection, BaseContext, ClassRef, DataSource
+from pysqlsync.base import (
+    BaseConnection,
+    BaseContext,
+    ClassRef,
+    DataSource,
+    get_record_order,
+)
 from pysqlsync.connection import ConnectionSSLMode, create_context
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.properties import is_identity_type
@@ -134,7 +140,7 @@ class PostgreSQLContext(BaseContext):
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
         )
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = get_record_order(table, field_types, field_names)
         async for batch in record_generator.batches():
             result = await self.native_connection.copy_records_to_table(
                 schema_name=table.name.scope_id,
diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index 3277b0b..be817e2 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -15,6 +15,7 @@ from pysqlsync.base import (
     DataSource,
     QueryException,
     RecordType,
+    get_record_order,
 )
 from pysqlsync.formation.object_types import Table
 from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
@@ -125,7 +126,7 @@ class RedshiftContext(BaseContext):
         field_types: tuple[type, ...],
         field_names: Optional[tuple[str, ...]] = None,
     ) -> None:
-        order = tuple(name for name in field_names if name) if field_names else None
+        order = get_record_order(table, field_types, field_names)
         columns = [col.name for col in table.get_columns(order)]
         record_generator = await self._generate_records(
             table, source, field_types=field_types, field_names=field_names
-- 
2.43.0


From 13bf87b6f2e255a20a70dc969d63137480af6562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:21 +0000
Subject: [PATCH 43/78] fix: accept NULL for a list of enumeration values

---
 pysqlsync/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 55da07e..66acf83 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -740,7 +740,9 @@ class EnumListTransformer(BaseEnumTransformer):
         # a list of enumeration values represented as a list of strings
         values: set[Optional[str]] = set()
         for record in records:
-            values.update(record[self.index])
+            items = record[self.index]
+            if items is not None:
+                values.update(items)
         values.discard(None)  # do not insert NULL into referenced table
         enum_list_dict = await self._merge_lookup_table(typing.cast(set[str], values))
         return self.generator.get_enum_list_transformer(enum_list_dict)
-- 
2.43.0


From 04fc0298728fade24d4b91a116de28366a906f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:11 +0000
Subject: [PATCH 44/78] fix: serialize lists, sets and nested objects stored as
 JSON

---
 pysqlsync/base.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 66acf83..bc58f68 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -30,12 +30,15 @@ from typing import (
 from strong_typing.inspection import (
     DataclassInstance,
     is_dataclass_type,
+    is_generic_list,
+    is_generic_set,
     is_type_enum,
     is_type_optional,
     unwrap_annotated_type,
     unwrap_optional_type,
 )
 from strong_typing.name import python_type_to_str
+from strong_typing.serialization import object_to_json
 
 from .connection import ConnectionParameters
 from .formation.inspection import get_entity_types
@@ -527,6 +530,18 @@ class BaseGenerator(abc.ABC):
     ) -> Callable[[Any], Any]:
         "Returns a callable function object that extracts a single field of a data-class."
 
+        if isinstance(column.data_type, SqlJsonType) or (
+            isinstance(column.data_type, SqlVariableCharacterType)
+            and (
+                is_dataclass_type(field_type)
+                or is_generic_list(field_type)
+                or is_generic_set(field_type)
+            )
+        ):
+            return lambda obj: _JSON_ENCODER.encode(
+                object_to_json(getattr(obj, field_name))
+            )
+
         if is_type_enum(field_type):
             return lambda obj: getattr(obj, field_name).value
         else:
@@ -541,7 +556,7 @@ class BaseGenerator(abc.ABC):
             isinstance(column.data_type, SqlVariableCharacterType)
             and (field_type is dict or field_type is list or field_type is set)
         ):
-            return lambda field: _JSON_ENCODER.encode(field)
+            return lambda field: _JSON_ENCODER.encode(object_to_json(field))
 
         if is_type_enum(field_type):
             return lambda field: field.value
-- 
2.43.0


From 3aaadc4625b78757692deaef3200d76747e359f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:11 +0000
Subject: [PATCH 45/78] fix: convert lists of enumeration members when
 inserting objects

---
 pysqlsync/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index bc58f68..26b77a7 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -35,6 +35,7 @@ from strong_typing.inspection import (
     is_type_enum,
     is_type_optional,
     unwrap_annotated_type,
+    unwrap_generic_list,
     unwrap_optional_type,
 )
 from strong_typing.name import python_type_to_str
@@ -544,6 +545,10 @@ class BaseGenerator(abc.ABC):
 
         if is_type_enum(field_type):
             return lambda obj: getattr(obj, field_name).value
+        elif is_generic_list(field_type) and is_type_enum(
+            unwrap_generic_list(field_type)
+        ):
+            return lambda obj: [item.value for item in getattr(obj, field_name)]
         else:
             return lambda obj: getattr(obj, field_name)
 
-- 
2.43.0


From 78c460ae7736f3ec88c1ffd74b4bc5c6b58733cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:00 +0000
Subject: [PATCH 46/78] fix: convert keys of referenced entities when inserting
 objects

---
 pysqlsync/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 26b77a7..c5f76f8 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -42,7 +42,7 @@ from strong_typing.name import python_type_to_str
 from strong_typing.serialization import object_to_json
 
 from .connection import ConnectionParameters
-from .formation.inspection import get_entity_types
+from .formation.inspection import get_entity_types, reference_to_key
 from .formation.mutation import Mutator, MutatorOptions
 from .formation.object_types import (
     Catalog,
@@ -502,7 +502,9 @@ class BaseGenerator(abc.ABC):
 
         return tuple(
             self._get_nullable_field_extractor(
-                table.columns[field.name], field.name, typing.cast(type, field.type)
+                table.columns[field.name],
+                field.name,
+                typing.cast(type, reference_to_key(field.type, entity_type)),
             )
             for field in dataclasses.fields(entity_type)
             if not (skip_identity and table.columns[field.name].identity)
-- 
2.43.0


From 6fb4200943089558496b3efd9909c8a2b1c29341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:28 +0000
Subject: [PATCH 47/78] fix: convert keys when deleting by keys of an entity

---
 pysqlsync/base.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index c5f76f8..2820ac1 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -42,7 +42,11 @@ from strong_typing.name import python_type_to_str
 from strong_typing.serialization import object_to_json
 
 from .connection import ConnectionParameters
-from .formation.inspection import get_entity_types, reference_to_key
+from .formation.inspection import (
+    dataclass_primary_key_type,
+    get_entity_types,
+    reference_to_key,
+)
 from .formation.mutation import Mutator, MutatorOptions
 from .formation.object_types import (
     Catalog,
@@ -1123,15 +1127,18 @@ class BaseContext(abc.ABC):
     async def delete_data(
         self, table: type[DataclassInstance], keys: Iterable[Any]
     ) -> None:
-        "Inserts or updates data in the database table corresponding to the dataclass type."
+        "Deletes data from the database table corresponding to the dataclass type."
 
         if isinstance(keys, Sized) and not len(keys):
             LOGGER.warning("no data to delete")
             return
 
-        generator = self.connection.generator
-        statement = generator.get_dataclass_delete_stmt(table)
-        await self.execute_all(statement, ((key,) for key in keys))
+        key_type = unwrap_annotated_type(
+            reference_to_key(dataclass_primary_key_type(table), table)
+        )
+        await self._delete_rows(
+            self.get_table(table), typing.cast(type, key_type), keys
+        )
 
     async def insert_rows(
         self,
-- 
2.43.0


From 666a7ea79a3d68b84780ad41cfe0994205b32243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:28 +0000
Subject: [PATCH 48/78] fix: take a text key for a key and not for a lookup
 value

---
 pysqlsync/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index 2820ac1..a47c194 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -1333,7 +1333,10 @@ class BaseContext(abc.ABC):
         if not table.is_relation(column):
             return ScalarTransformer(transformer)
         relation = generator.state.get_referenced_table(table.name, column.name)
-        if not relation.is_lookup_table():
+        if (
+            not relation.is_lookup_table()
+            or not relation.get_primary_column().identity
+        ):
             return ScalarTransformer(transformer)
 
         LOGGER.debug(
-- 
2.43.0


From 8dc29b8255d67f0c1c88c440aa25c5787da1e009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:27 +0000
Subject: [PATCH 49/78] fix: quote the nested statement that creates a SQL
 Server schema

---
 pysqlsync/dialect/mssql/object_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mssql/object_types.py b/pysqlsync/dialect/mssql/object_types.py
index 1206942..0e2ceb3 100644
--- a/pysqlsync/dialect/mssql/object_types.py
+++ b/pysqlsync/dialect/mssql/object_types.py
@@ -89,7 +89,8 @@ class MSSQLNamespace(Namespace):
     def create_schema_stmt(self) -> Optional[str]:
         if self.name.local_id:
             # Microsoft SQL Server requires a separate batch for creating a schema
-            return f"IF NOT EXISTS ( SELECT * FROM sys.schemas WHERE name = N{quote(self.name.id)} ) EXEC('CREATE SCHEMA {self.name}');"
+            stmt = f"CREATE SCHEMA {self.name}"
+            return f"IF NOT EXISTS ( SELECT * FROM sys.schemas WHERE name = N{quote(self.name.id)} ) EXEC(N{quote(stmt)});"
         else:
             return None
 
-- 
2.43.0


From 92eac873f8784b90f14b840775dc42c24206a953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:27 +0000
Subject: [PATCH 50/78] fix: quote the nested statement that drops an Oracle
 table

---
 pysqlsync/dialect/oracle/object_types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/oracle/object_types.py b/pysqlsync/dialect/oracle/object_types.py
index 5b508e5..e221ebd 100644
--- a/pysqlsync/dialect/oracle/object_types.py
+++ b/pysqlsync/dialect/oracle/object_types.py
@@ -2,7 +2,7 @@ import re
 from typing import Optional
 
 from pysqlsync.formation.object_types import Column, EnumTable, ObjectFactory, Table
-from pysqlsync.model.data_types import SqlTimestampType
+from pysqlsync.model.data_types import SqlTimestampType, quote
 
 
 class OracleColumn(Column):
@@ -45,9 +45,10 @@ class OracleTable(Table):
             return None
 
     def drop_if_exists_stmt(self) -> str:
+        drop_stmt = f"DROP TABLE {self.name} CASCADE CONSTRAINTS PURGE"
         return (
             "BEGIN\n"
-            f"    EXECUTE IMMEDIATE 'DROP TABLE {self.name} CASCADE CONSTRAINTS PURGE';\n"
+            f"    EXECUTE IMMEDIATE {quote(drop_stmt)};\n"
             "EXCEPTION WHEN OTHERS THEN IF SQLCODE != -942 THEN RAISE; END IF;\n"
             "END;"
         )
-- 
2.43.0


From b15a1ca2aca53286e7eeba86a2c543d46b48622a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:46 +0000
Subject: [PATCH 51/78] fix: escape backslashes in names that MySQL objects are
 looked up by

---
 pysqlsync/dialect/mysql/connection.py |  3 ++-
 pysqlsync/dialect/mysql/data_types.py |  6 ++++++
 pysqlsync/dialect/mysql/discovery.py  |  9 +++++++++
 pysqlsync/formation/discovery.py      | 20 +++++++++++++++-----
 4 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/pysqlsync/dialect/mysql/connection.py b/pysqlsync/dialect/mysql/connection.py
index 9c37a9d..c865460 100644
--- a/pysqlsync/dialect/mysql/connection.py
+++ b/pysqlsync/dialect/mysql/connection.py
@@ -10,11 +10,12 @@ from strong_typing.inspection import DataclassInstance, is_dataclass_type
 
 from pysqlsync.base import BaseConnection, BaseContext, DataSource
 from pysqlsync.connection import ConnectionSSLMode, create_context
-from pysqlsync.model.data_types import escape_like
 from pysqlsync.model.id_types import LocalId
 from pysqlsync.resultset import resultset_unwrap_dict, resultset_unwrap_tuple
 from pysqlsync.util.typing import override
 
+from .data_types import escape_like
+
 D = TypeVar("D", bound=DataclassInstance)
 T = TypeVar("T")
 
diff --git a/pysqlsync/dialect/mysql/data_types.py b/pysqlsync/dialect/mysql/data_types.py
index 3f44a97..2fa8d59 100644
--- a/pysqlsync/dialect/mysql/data_types.py
+++ b/pysqlsync/dialect/mysql/data_types.py
@@ -18,6 +18,12 @@ def quote(s: str) -> str:
     return escape_backslash(data_types.quote(s))
 
 
+def escape_like(value: str, escape_char: str) -> str:
+    "Escapes a string to be embedded in a MySQL LIKE '...' ESCAPE '...' expression."
+
+    return escape_backslash(data_types.escape_like(value, escape_char))
+
+
 class MySQLDateTimeType(SqlTimestampType):
     def __str__(self) -> str:
         if self.precision is not None:
diff --git a/pysqlsync/dialect/mysql/discovery.py b/pysqlsync/dialect/mysql/discovery.py
index 73cbf4d..3692aef 100644
--- a/pysqlsync/dialect/mysql/discovery.py
+++ b/pysqlsync/dialect/mysql/discovery.py
@@ -17,6 +17,7 @@ from .data_types import (
     MySQLDateTimeType,
     MySQLVariableBinaryType,
     MySQLVariableCharacterType,
+    escape_like,
     quote,
 )
 from .object_types import MySQLObjectFactory
@@ -53,6 +54,14 @@ class MySQLExplorer(AnsiExplorer):
             MySQLObjectFactory(),
         )
 
+    @override
+    def _quote(self, s: str) -> str:
+        return quote(s)
+
+    @override
+    def _escape_like(self, value: str, escape_char: str) -> str:
+        return escape_like(value, escape_char)
+
     @override
     def get_qualified_id(
         self, namespace: Optional[str], id: str
diff --git a/pysqlsync/formation/discovery.py b/pysqlsync/formation/discovery.py
index a4b1024..3116a5b 100644
--- a/pysqlsync/formation/discovery.py
+++ b/pysqlsync/formation/discovery.py
@@ -128,13 +128,23 @@ class AnsiExplorer(Explorer):
         )
         return [QualifiedId(record[0], record[1]) for record in records]  # type: ignore[arg-type]
 
+    def _quote(self, s: str) -> str:
+        "Quotes a string to be embedded in a query."
+
+        return quote(s)
+
+    def _escape_like(self, value: str, escape_char: str) -> str:
+        "Escapes a string to be embedded in a LIKE expression of a query."
+
+        return escape_like(value, escape_char)
+
     def _where_table(self, table_id: SupportsQualifiedId, alias: str) -> str:
         table_schema = (
-            quote(table_id.scope_id)
+            self._quote(table_id.scope_id)
             if table_id.scope_id is not None
             else self.conn.connection.generator.get_current_schema_stmt()
         )
-        table_name = quote(table_id.local_id)
+        table_name = self._quote(table_id.local_id)
         conditions = [
             f"{alias}.table_schema = {table_schema}",
             f"{alias}.table_name = {table_name}",
@@ -159,7 +169,7 @@ class AnsiExplorer(Explorer):
             int,
             "SELECT COUNT(*)\n"
             "FROM information_schema.columns AS col\n"
-            f"WHERE {self._where_table(table_id, 'col')} AND col.column_name = {quote(column_id.local_id)}",
+            f"WHERE {self._where_table(table_id, 'col')} AND col.column_name = {self._quote(column_id.local_id)}",
         )
         return count > 0
 
@@ -353,7 +363,7 @@ class AnsiExplorer(Explorer):
 
         # create namespace using qualified IDs
         if namespace_id is not None:
-            schema_expr = quote(namespace_id.local_id)
+            schema_expr = self._quote(namespace_id.local_id)
         else:
             schema_expr = self.conn.connection.generator.get_current_schema_stmt()
         table_names = await self.conn.query_all(
@@ -394,7 +404,7 @@ class AnsiExplorer(Explorer):
 
         # create namespace using flat IDs
         if namespace_id is not None:
-            schema_expr = f"'{escape_like(namespace_id.id, '~')}~_~_%'"
+            schema_expr = f"'{self._escape_like(namespace_id.id, '~')}~_~_%'"
             condition = f"table_name LIKE {schema_expr} ESCAPE '~'"
         else:
             condition = "table_name NOT LIKE '%~_~_%' ESCAPE '~'"
-- 
2.43.0


From cabd741114cf16a04dd4dc8cb816625c829ed596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:16 +0000
Subject: [PATCH 52/78] fix: escape backslashes in text of MySQL check
 constraints

---
 pysqlsync/dialect/mysql/data_types.py   | 12 ++++++++++++
 pysqlsync/dialect/mysql/object_types.py | 13 ++++++++++++-
 pysqlsync/formation/object_types.py     |  6 ++++++
 pysqlsync/formation/py_to_sql.py        |  5 ++---
 4 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/dialect/mysql/data_types.py b/pysqlsync/dialect/mysql/data_types.py
index 2fa8d59..ec9eb48 100644
--- a/pysqlsync/dialect/mysql/data_types.py
+++ b/pysqlsync/dialect/mysql/data_types.py
@@ -1,3 +1,5 @@
+import re
+
 from pysqlsync.model import data_types
 from pysqlsync.model.data_types import (
     SqlTimestampType,
@@ -12,6 +14,16 @@ def escape_backslash(expr: str) -> str:
     return expr.replace("\\", "\\\\")
 
 
+def escape_literals(expr: str) -> str:
+    "Escapes a backslash in all string literals of an expression."
+
+    return re.sub(
+        r'''"[^"]*"|('[^']*')''',
+        lambda m: escape_backslash(m.group()) if m.group(1) else m.group(),
+        expr,
+    )
+
+
 def quote(s: str) -> str:
     "Quotes a string to be embedded in a MySQL statement."
 
diff --git a/pysqlsync/dialect/mysql/object_types.py b/pysqlsync/dialect/mysql/object_types.py
index 4480e73..f78a821 100644
--- a/pysqlsync/dialect/mysql/object_types.py
+++ b/pysqlsync/dialect/mysql/object_types.py
@@ -2,6 +2,7 @@ from dataclasses import dataclass
 from typing import Any, Optional
 
 from pysqlsync.formation.object_types import (
+    CheckConstraint,
     Column,
     EnumTable,
     FormationError,
@@ -11,7 +12,7 @@ from pysqlsync.formation.object_types import (
 from pysqlsync.model.data_types import SqlEnumType
 from pysqlsync.model.id_types import LocalId
 
-from .data_types import escape_backslash, quote
+from .data_types import escape_backslash, escape_literals, quote
 
 
 class MySQLTable(Table):
@@ -86,7 +87,17 @@ class MySQLColumn(Column):
         return f"CHANGE {self.name} {LocalId(name)} {self.data_spec}"
 
 
+class MySQLCheckConstraint(CheckConstraint):
+    @property
+    def spec(self) -> str:
+        return f"{self.name} CHECK ({escape_literals(self.condition)})"
+
+
 class MySQLObjectFactory(ObjectFactory):
+    @property
+    def check_constraint_class(self) -> type[CheckConstraint]:
+        return MySQLCheckConstraint
+
     @property
     def column_class(self) -> type[Column]:
         return MySQLColumn
diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index 9cbc096..b689bf3 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -903,6 +903,12 @@ class ObjectFactory:
 
         return EnumTable
 
+    @property
+    def check_constraint_class(self) -> type[CheckConstraint]:
+        "The object type instantiated for check constraints."
+
+        return CheckConstraint
+
     @property
     def struct_class(self) -> type[StructType]:
         "The object type instantiated for struct types."
diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index e1438b1..025587b 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -96,7 +96,6 @@ from .inspection import (
 )
 from .object_types import (
     Catalog,
-    CheckConstraint,
     Column,
     Constraint,
     ConstraintReference,
@@ -786,7 +785,7 @@ class DataclassConverter:
             for enum_field in dataclass_fields_as_required(cls, is_type_enum):
                 enum_values = ", ".join(constant(e.value) for e in enum_field.type)
                 constraints.append(
-                    CheckConstraint(
+                    self.options.factory.check_constraint_class(
                         LocalId(self.create_check_name(cls, enum_field.name)),
                         f"{LocalId(enum_field.name)} IN ({enum_values})",
                     ),
@@ -796,7 +795,7 @@ class DataclassConverter:
             check_constraint = self.create_check_constraint(column)
             if check_constraint:
                 constraints.append(
-                    CheckConstraint(
+                    self.options.factory.check_constraint_class(
                         LocalId(self.create_check_name(cls, column.name.id)),
                         check_constraint,
                     ),
-- 
2.43.0


From 7c971ac51991adb9048f2bf11e2759b1974b6425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:47 +0000
Subject: [PATCH 53/78] fix: escape text in Snowflake and Delta default values
 and lookup values

---
 pysqlsync/dialect/delta/object_types.py     | 31 +++++++++++++++++++--
 pysqlsync/dialect/snowflake/object_types.py | 16 +++++++++--
 pysqlsync/formation/mutation.py             |  2 +-
 pysqlsync/formation/object_types.py         |  6 ++++
 4 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/pysqlsync/dialect/delta/object_types.py b/pysqlsync/dialect/delta/object_types.py
index e7a80b1..2117a3b 100644
--- a/pysqlsync/dialect/delta/object_types.py
+++ b/pysqlsync/dialect/delta/object_types.py
@@ -1,7 +1,13 @@
 import re
-from typing import Optional
-
-from pysqlsync.formation.object_types import Column, Namespace, ObjectFactory, Table
+from typing import Any, Optional
+
+from pysqlsync.formation.object_types import (
+    Column,
+    EnumTable,
+    Namespace,
+    ObjectFactory,
+    Table,
+)
 from pysqlsync.model.id_types import LocalId
 
 _sql_quoted_str_table = str.maketrans(
@@ -43,7 +49,22 @@ class DeltaTable(Table):
         return LocalId(f"pk_{self.name.local_id.replace('.', '_')}")
 
 
+class DeltaEnumTable(EnumTable, DeltaTable):
+    def value_expr(self, value: Any) -> str:
+        if isinstance(value, str):
+            return sql_quoted_string(value)
+        return super().value_expr(value)
+
+
 class DeltaColumn(Column):
+    @property
+    def default_expr(self) -> Optional[str]:
+        if self.default is not None and self.default.startswith("'"):
+            # a pair of quotes does not stand for a quote in a Delta string literal
+            return sql_quoted_string(self.default[1:-1].replace("''", "'"))
+
+        return self.default
+
     @property
     def data_spec(self) -> str:
         nullable = " NOT NULL" if not self.nullable and not self.identity else ""
@@ -82,6 +103,10 @@ class DeltaObjectFactory(ObjectFactory):
     def column_class(self) -> type[Column]:
         return DeltaColumn
 
+    @property
+    def enum_table_class(self) -> type[EnumTable]:
+        return DeltaEnumTable
+
     @property
     def table_class(self) -> type[Table]:
         return DeltaTable
diff --git a/pysqlsync/dialect/snowflake/object_types.py b/pysqlsync/dialect/snowflake/object_types.py
index c9c3b8c..9a78ce0 100644
--- a/pysqlsync/dialect/snowflake/object_types.py
+++ b/pysqlsync/dialect/snowflake/object_types.py
@@ -1,7 +1,7 @@
 import re
-from typing import Optional
+from typing import Any, Optional
 
-from pysqlsync.formation.object_types import Column, ObjectFactory, Table
+from pysqlsync.formation.object_types import Column, EnumTable, ObjectFactory, Table
 from pysqlsync.model.data_types import SqlTimestampType
 from pysqlsync.model.id_types import LocalId
 
@@ -46,6 +46,11 @@ class SnowflakeTable(Table):
         return LocalId(f"pk_{self.name.local_id.replace('.', '_')}")
 
 
+class SnowflakeEnumTable(EnumTable, SnowflakeTable):
+    def value_expr(self, value: Any) -> str:
+        return super().value_expr(value).replace("\\", "\\\\")
+
+
 class SnowflakeColumn(Column):
     @property
     def default_expr(self) -> str:
@@ -60,7 +65,8 @@ class SnowflakeColumn(Column):
             if m:
                 return f"TIMESTAMP {self.default}"
 
-        return self.default
+        # backslash is an escape character in a Snowflake string literal
+        return self.default.replace("\\", "\\\\")
 
     @property
     def data_spec(self) -> str:
@@ -83,6 +89,10 @@ class SnowflakeObjectFactory(ObjectFactory):
     def column_class(self) -> type[Column]:
         return SnowflakeColumn
 
+    @property
+    def enum_table_class(self) -> type[EnumTable]:
+        return SnowflakeEnumTable
+
     @property
     def table_class(self) -> type[Table]:
         return SnowflakeTable
diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index 4d45842..fbef382 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -148,7 +148,7 @@ class Mutator:
         if source.default is not None and target.default is None:
             statements.append("DROP DEFAULT")
         elif source.default != target.default:
-            statements.append(f"SET DEFAULT {target.default}")
+            statements.append(f"SET DEFAULT {target.default_expr}")
 
         if source.identity and not target.identity:
             statements.append("DROP IDENTITY")
diff --git a/pysqlsync/formation/object_types.py b/pysqlsync/formation/object_types.py
index b689bf3..58e4ac2 100644
--- a/pysqlsync/formation/object_types.py
+++ b/pysqlsync/formation/object_types.py
@@ -217,6 +217,12 @@ class Column(DatabaseObject):
     def __str__(self) -> str:
         return self.column_spec
 
+    @property
+    def default_expr(self) -> Optional[str]:
+        "The expression for DEFAULT."
+
+        return self.default
+
     @property
     def column_spec(self) -> str:
         return f"{self.name} {self.data_spec}"
-- 
2.43.0


From 6ac6918809eb31595bc41c7e1ccc1001b02c83d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:03 +0000
Subject: [PATCH 54/78] fix: keep text with a semicolon at the end of a line
 within one statement

---
 pysqlsync/dialect/oracle/connection.py   |  4 ++--
 pysqlsync/dialect/redshift/connection.py |  4 ++--
 pysqlsync/util/script.py                 | 27 ++++++++++++++++++++++++
 3 files changed, 31 insertions(+), 4 deletions(-)
 create mode 100644 pysqlsync/util/script.py

diff --git a/pysqlsync/dialect/oracle/connection.py b/pysqlsync/dialect/oracle/connection.py
index c3a3aa0..9bdbc5d 100644
--- a/pysqlsync/dialect/oracle/connection.py
+++ b/pysqlsync/dialect/oracle/connection.py
@@ -1,5 +1,4 @@
 import logging
-import re
 import typing
 from typing import Iterable, Optional, TypeVar
 
@@ -18,6 +17,7 @@ from pysqlsync.model.data_types import escape_like
 from pysqlsync.model.id_types import LocalId
 from pysqlsync.resultset import resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
+from pysqlsync.util.script import split_statements
 from pysqlsync.util.typing import override
 
 from .data_types import sql_to_oracle_type
@@ -80,7 +80,7 @@ class OracleContext(BaseContext):
                 cur.execute(statement)
             else:
                 statement = statement.rstrip("\r\n\t\v ;")
-                for s in re.split(r";$", statement, flags=re.MULTILINE):
+                for s in split_statements(statement):
                     try:
                         cur.execute(s)
                     except Exception as e:
diff --git a/pysqlsync/dialect/redshift/connection.py b/pysqlsync/dialect/redshift/connection.py
index be817e2..ace481c 100644
--- a/pysqlsync/dialect/redshift/connection.py
+++ b/pysqlsync/dialect/redshift/connection.py
@@ -1,6 +1,5 @@
 import dataclasses
 import logging
-import re
 import typing
 from io import BytesIO
 from typing import Iterable, Optional, TypeVar
@@ -22,6 +21,7 @@ from pysqlsync.model.id_types import LocalId, SupportsQualifiedId
 from pysqlsync.model.properties import is_identity_type
 from pysqlsync.resultset import resultset_unwrap_object, resultset_unwrap_tuple
 from pysqlsync.util.dispatch import thread_dispatch
+from pysqlsync.util.script import split_statements
 from pysqlsync.util.typing import override
 
 D = TypeVar("D", bound=DataclassInstance)
@@ -73,7 +73,7 @@ class RedshiftContext(BaseContext):
             # the possibility to execute multiple statements in one go. We artificially split SQL scripts into
             # multiple statements to work around this limitation in the connector.
             statement = statement.rstrip("\r\n\t\v ;")
-            for s in re.split(r";$", statement, flags=re.MULTILINE):
+            for s in split_statements(statement):
                 try:
                     cursor.execute(s)
                 except Exception as e:
diff --git a/pysqlsync/util/script.py b/pysqlsync/util/script.py
new file mode 100644
index 0000000..73c2256
--- /dev/null
+++ b/pysqlsync/util/script.py
@@ -0,0 +1,27 @@
+import re
+
+# a statement ends with a semicolon at the end of a line; text in quotes and comments may have the same characters
+_SEPARATOR = re.compile(
+    r"""
+    \b[eE]'(?:[^'\\]|\\.|'')*'  # string literal with backslash escapes
+    |'[^']*'                    # string literal
+    |"[^"]*"                    # quoted identifier
+    |--[^\n]*                   # comments
+    |/\*.*?\*/
+    |(?P<end>;)$
+    """,
+    re.DOTALL | re.MULTILINE | re.VERBOSE,
+)
+
+
+def split_statements(script: str) -> list[str]:
+    "Splits a script into individual SQL statements, without the semicolon at their end."
+
+    statements: list[str] = []
+    start = 0
+    for m in _SEPARATOR.finditer(script):
+        if m.group("end"):
+            statements.append(script[start : m.start()])
+            start = m.end()
+    statements.append(script[start:])
+    return statements
-- 
2.43.0


From 8707e8b466419f0277d45a95d1a76f431a6698ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:28 +0000
Subject: [PATCH 55/78] fix: allow percent signs in names of MySQL tables and
 columns

---
 pysqlsync/dialect/mysql/generator.py | 30 +++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/pysqlsync/dialect/mysql/generator.py b/pysqlsync/dialect/mysql/generator.py
index 6abf193..262d69a 100644
--- a/pysqlsync/dialect/mysql/generator.py
+++ b/pysqlsync/dialect/mysql/generator.py
@@ -15,7 +15,7 @@ from pysqlsync.formation.py_to_sql import (
     StructMode,
 )
 from pysqlsync.model.data_types import SqlFixedBinaryType, SqlIntegerType
-from pysqlsync.model.id_types import LocalId
+from pysqlsync.model.id_types import LocalId, SupportsQuotedId
 from pysqlsync.util.typing import override
 
 from .data_types import MySQLDateTimeType, MySQLVariableCharacterType
@@ -74,9 +74,9 @@ class MySQLGenerator(BaseGenerator):
         self, table: Table, order: Optional[tuple[str, ...]] = None
     ) -> str:
         statements: list[str] = []
-        statements.append(f"INSERT INTO {table.name}")
+        statements.append(f"INSERT INTO {_escape_format(table.name)}")
         columns = [column for column in table.get_columns(order) if not column.identity]
-        column_list = ", ".join(str(column.name) for column in columns)
+        column_list = ", ".join(_escape_format(column.name) for column in columns)
         value_list = ", ".join("%s" for column in columns)
         statements.append(f"({column_list}) VALUES ({value_list})")
         statements.append(";")
@@ -87,9 +87,9 @@ class MySQLGenerator(BaseGenerator):
         self, table: Table, order: Optional[tuple[str, ...]] = None
     ) -> str:
         statements: list[str] = []
-        statements.append(f"INSERT INTO {table.name}")
+        statements.append(f"INSERT INTO {_escape_format(table.name)}")
         columns = [column for column in table.get_columns(order) if not column.identity]
-        column_list = ", ".join(str(column.name) for column in columns)
+        column_list = ", ".join(_escape_format(column.name) for column in columns)
         value_list = ", ".join("%s" for column in columns)
         statements.append(f"({column_list}) VALUES ({value_list})")
         statements.append("ON DUPLICATE KEY UPDATE")
@@ -103,7 +103,7 @@ class MySQLGenerator(BaseGenerator):
         self, table: Table, order: Optional[tuple[str, ...]] = None
     ) -> str:
         statements: list[str] = []
-        statements.append(f"INSERT INTO {table.name}")
+        statements.append(f"INSERT INTO {_escape_format(table.name)}")
         columns = [column for column in table.get_columns(order)]
         statements.append(_field_list([column.name for column in columns]))
         statements.append("ON DUPLICATE KEY UPDATE")
@@ -116,6 +116,12 @@ class MySQLGenerator(BaseGenerator):
         statements.append(";")
         return "\n".join(statements)
 
+    @override
+    def get_table_delete_stmt(self, table: Table) -> str:
+        table_name = _escape_format(table.name)
+        column_name = _escape_format(table.get_primary_column().name)
+        return f"DELETE FROM {table_name} WHERE {column_name} = {self.placeholder(1)}"
+
     @override
     def get_field_extractor(
         self, column: Column, field_name: str, field_type: type
@@ -139,8 +145,18 @@ class MySQLGenerator(BaseGenerator):
         return super().get_value_transformer(column, field_type)
 
 
+def _escape_format(id: SupportsQuotedId) -> str:
+    """
+    Quotes an identifier to be embedded in a SQL statement with parameters.
+
+    The connector substitutes parameters with the `%` operator everywhere but in the clause ON DUPLICATE KEY UPDATE.
+    """
+
+    return id.quoted_id.replace("%", "%%")
+
+
 def _field_list(field_ids: list[LocalId]) -> str:
-    field_list = ", ".join(str(field_id) for field_id in field_ids)
+    field_list = ", ".join(_escape_format(field_id) for field_id in field_ids)
     value_list = ", ".join("%s" for _ in field_ids)
     if False:
         # compatible with MySQL 8.0.19 and later, slow with aiomysql 0.2.0 and earlier
-- 
2.43.0


From ba4d3f4df346590a74ca8b45ba034d0d179f7130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:38 +0000
Subject: [PATCH 56/78] fix: decode escape sequences in MySQL enumeration types

---
 pysqlsync/formation/data_types.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index ac7d3ec..f583a66 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -141,9 +141,16 @@ class SqlDiscovery:
         m = re.fullmatch(r"^enum[(](.+)[)]$", type_def, re.IGNORECASE)
         if m is not None:
             value_list = m.group(1)
+            escapes = {"0": "\0", "n": "\n", "r": "\r"}
             values = [
-                value.replace("''", "'")
-                for value in re.findall(r"'((?:[^']+|'')*)'(?:,|$)", value_list)
+                re.sub(
+                    r"''|\\(.)",
+                    lambda e: escapes.get(e.group(1), e.group(1)) if e.group(1) else "'",
+                    value,
+                )
+                for value in re.findall(
+                    r"'((?:[^'\\]|''|\\.)*)'(?:,|$)", value_list
+                )
             ]
             return SqlEnumType(values)
 
-- 
2.43.0


From c78012427adea538c67a0ce2a843771bcb0e4fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:28 +0000
Subject: [PATCH 57/78] fix: give keys, identity, unique and nullable
 references of reverse-engineered classes

---
 pysqlsync/formation/sql_to_py.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index 3e80ad7..0d093b1 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -43,13 +43,14 @@ from ..model.data_types import (
     SqlVariableCharacterType,
 )
 from ..model.id_types import SupportsQualifiedId
-from ..model.key_types import PrimaryKey
+from ..model.key_types import Identity, PrimaryKey, Unique
 from .object_types import (
     Column,
     DiscriminatedConstraint,
     ForeignConstraint,
     ReferenceConstraint,
     Table,
+    UniqueConstraint,
 )
 
 
@@ -122,8 +123,12 @@ class SqlConverter:
     def __init__(self, options: SqlConverterOptions) -> None:
         self.options = options
 
-    def qual_to_module(self, id: SupportsQualifiedId) -> str:
-        return f"{self.options.namespaces[id.scope_id].__name__}.{safe_id(id.local_id)}"
+    def qual_to_module(self, id: SupportsQualifiedId) -> typing.ForwardRef:
+        "Refers to a class by name, to be looked up in the module that corresponds to the scope."
+
+        return typing.ForwardRef(
+            safe_id(id.local_id), module=self.options.namespaces[id.scope_id].__name__
+        )
 
     def column_to_field(
         self, table: Table, column: Column
@@ -141,10 +146,6 @@ class SqlConverter:
             default = column.default
 
         field_type = sql_type_to_python(column.data_type)
-        if column.name == table.primary_key:
-            field_type = PrimaryKey[(field_type,)]  # type: ignore
-        elif column.nullable:
-            field_type = Optional[field_type]
 
         for c in table.constraints.values():
             if not isinstance(c, ReferenceConstraint):
@@ -159,6 +160,17 @@ class SqlConverter:
                 union_types = tuple(self.qual_to_module(r.table) for r in c.references)
                 field_type = Union[union_types]
 
+        if column.identity:
+            field_type = Identity[field_type]  # type: ignore
+        if table.primary_key == (column.name,):
+            field_type = PrimaryKey[field_type]  # type: ignore
+        elif column.nullable:
+            field_type = Optional[field_type]
+
+        for c in table.constraints.values():
+            if isinstance(c, UniqueConstraint) and c.unique_columns == (column.name,):
+                field_type = Unique[field_type]  # type: ignore
+
         # use cast to ensure compatibility with signature of `make_dataclass`
         data_type = typing.cast(type, field_type)
 
-- 
2.43.0


From 7d129c75e44181eac9b0871109f6e432080955e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:28 +0000
Subject: [PATCH 58/78] fix: keep ranges, precision and intervals in
 reverse-engineered types

---
 pysqlsync/formation/sql_to_py.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index 0d093b1..043c2ad 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -1,6 +1,7 @@
 import dataclasses
 import datetime
 import decimal
+import ipaddress
 import keyword
 import sys
 import types
@@ -11,9 +12,12 @@ from typing import Annotated, Any, Optional, Union
 from uuid import UUID
 
 from strong_typing.auxiliary import (
+    IntegerRange,
     Length,
     MaxLength,
     Precision,
+    Signed,
+    Storage,
     TimePrecision,
     float32,
     float64,
@@ -34,6 +38,7 @@ from ..model.data_types import (
     SqlFixedCharacterType,
     SqlFloatType,
     SqlIntegerType,
+    SqlIntervalType,
     SqlJsonType,
     SqlRealType,
     SqlTimestampType,
@@ -42,7 +47,7 @@ from ..model.data_types import (
     SqlUuidType,
     SqlVariableCharacterType,
 )
-from ..model.id_types import SupportsQualifiedId
+from ..model.id_types import GlobalId, SupportsQualifiedId
 from ..model.key_types import Identity, PrimaryKey, Unique
 from .object_types import (
     Column,
@@ -58,6 +63,13 @@ def sql_type_to_python(sql_type: SqlDataType) -> TypeLike:
     if isinstance(sql_type, SqlBooleanType):
         return bool
     elif isinstance(sql_type, SqlIntegerType):
+        if sql_type.minimum is not None and sql_type.maximum is not None:
+            return Annotated[
+                int,
+                Signed(sql_type.signed),
+                Storage(sql_type.width),
+                IntegerRange(sql_type.minimum, sql_type.maximum),
+            ]
         if sql_type.width == 2:
             return int16
         elif sql_type.width == 4:
@@ -74,6 +86,10 @@ def sql_type_to_python(sql_type: SqlDataType) -> TypeLike:
             return Annotated[float, Precision(sql_type.precision)]
         return float
     elif isinstance(sql_type, SqlDecimalType):
+        if sql_type.precision is not None:
+            return Annotated[
+                decimal.Decimal, Precision(sql_type.precision, sql_type.scale or 0)
+            ]
         return decimal.Decimal
     elif isinstance(sql_type, SqlTimestampType):
         if sql_type.precision is not None:
@@ -93,11 +109,15 @@ def sql_type_to_python(sql_type: SqlDataType) -> TypeLike:
         if sql_type.limit is not None:
             return Annotated[str, MaxLength(sql_type.limit)]
         return str
+    elif isinstance(sql_type, SqlIntervalType):
+        return datetime.timedelta
     elif isinstance(sql_type, SqlUuidType):
         return UUID
     elif isinstance(sql_type, SqlJsonType):
         return JsonType
     elif isinstance(sql_type, SqlUserDefinedType):
+        if sql_type.ref == GlobalId("inet"):  # PostgreSQL only
+            return ipaddress.IPv4Address
         return sql_type.ref.compact_id
     elif isinstance(sql_type, SqlArrayType):
         item_type = (sql_type_to_python(sql_type.element_type),)
-- 
2.43.0


From d74406e0f8a08f98d2609a299ad644b93f26c35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:28 +0000
Subject: [PATCH 59/78] fix: resolve user-defined types of reverse-engineered
 columns

---
 pysqlsync/formation/sql_to_py.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index 043c2ad..e10b9d7 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -150,6 +150,20 @@ class SqlConverter:
             safe_id(id.local_id), module=self.options.namespaces[id.scope_id].__name__
         )
 
+    def data_type_to_python(self, data_type: SqlDataType) -> TypeLike:
+        "Converts a column type into a Python type, looking up user-defined types."
+
+        if isinstance(data_type, SqlArrayType):
+            item_type = (self.data_type_to_python(data_type.element_type),)
+            return list[item_type]  # type: ignore
+        elif isinstance(data_type, SqlUserDefinedType):
+            module = self.options.namespaces.get(data_type.ref.scope_id)
+            class_name = safe_id(data_type.ref.local_id)
+            if module is not None and hasattr(module, class_name):
+                return getattr(module, class_name)
+
+        return sql_type_to_python(data_type)
+
     def column_to_field(
         self, table: Table, column: Column
     ) -> tuple[str, type, dataclasses.Field]:
@@ -165,7 +179,7 @@ class SqlConverter:
         if column.default is not None:
             default = column.default
 
-        field_type = sql_type_to_python(column.data_type)
+        field_type = self.data_type_to_python(column.data_type)
 
         for c in table.constraints.values():
             if not isinstance(c, ReferenceConstraint):
-- 
2.43.0


From d948c5b07258d0255d11f891a76a9d5bd5915de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:29 +0000
Subject: [PATCH 60/78] fix: keep default values of reverse-engineered columns

---
 pysqlsync/formation/sql_to_py.py | 36 +++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index e10b9d7..44061b1 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -3,6 +3,7 @@ import datetime
 import decimal
 import ipaddress
 import keyword
+import re
 import sys
 import types
 import typing
@@ -126,6 +127,39 @@ def sql_type_to_python(sql_type: SqlDataType) -> TypeLike:
     raise TypeError(f"unrecognized SQL type: {sql_type}")
 
 
+def default_to_python(data_type: SqlDataType, expr: str) -> Any:
+    """
+    Converts the default expression of a column into a Python value.
+
+    :returns: A Python value, or `dataclasses.MISSING` if the expression is not a literal.
+    """
+
+    m = re.fullmatch(r"'((?:[^']|'')*)'", expr, re.DOTALL)
+    literal = m.group(1).replace("''", "'") if m is not None else expr
+
+    try:
+        if isinstance(data_type, SqlBooleanType):
+            return {"TRUE": True, "FALSE": False}.get(
+                literal.upper(), dataclasses.MISSING
+            )
+        elif isinstance(data_type, SqlIntegerType):
+            return int(literal)
+        elif isinstance(data_type, (SqlRealType, SqlDoubleType, SqlFloatType)):
+            return float(literal)
+        elif isinstance(data_type, SqlDecimalType):
+            return decimal.Decimal(literal)
+        elif m is None:
+            return dataclasses.MISSING
+        elif isinstance(data_type, (SqlFixedCharacterType, SqlVariableCharacterType)):
+            return literal
+        elif isinstance(data_type, SqlTimestampType):
+            return datetime.datetime.fromisoformat(literal)
+    except (ValueError, decimal.InvalidOperation):
+        pass
+
+    return dataclasses.MISSING
+
+
 def safe_id(id: str) -> str:
     "Apply PEP 8: single trailing underscore to avoid conflicts with Python keyword"
 
@@ -177,7 +211,7 @@ class SqlConverter:
 
         default: Any = dataclasses.MISSING
         if column.default is not None:
-            default = column.default
+            default = default_to_python(column.data_type, column.default)
 
         field_type = self.data_type_to_python(column.data_type)
 
-- 
2.43.0


From 09278e4e366740d41655a7f1fcf3d241745d9131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:29 +0000
Subject: [PATCH 61/78] fix: keep column descriptions of reverse-engineered
 tables

---
 pysqlsync/formation/sql_to_py.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pysqlsync/formation/sql_to_py.py b/pysqlsync/formation/sql_to_py.py
index 44061b1..f76aa70 100644
--- a/pysqlsync/formation/sql_to_py.py
+++ b/pysqlsync/formation/sql_to_py.py
@@ -270,10 +270,10 @@ class SqlConverter:
                 class_name, fields, namespace={"__module__": module.__name__}
             )
         with StringIO() as out:
-            for field in dataclasses.fields(typ):
-                description = field.metadata.get("description")
-                if description is not None:
-                    print(f":param {field.name}: {description}", file=out)
+            for column in table.columns.values():
+                if column.description is not None:
+                    field_name = safe_id(column.name.local_id)
+                    print(f":param {field_name}: {column.description}", file=out)
             paramstring = out.getvalue()
         with StringIO() as out:
             if table.description:
-- 
2.43.0


From 6b4fba9fe059b4e5db0cd7b07fa61b020833e3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:29 +0000
Subject: [PATCH 62/78] fix: import names used by generated Python code

---
 pysqlsync/python_types.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/python_types.py b/pysqlsync/python_types.py
index ccb9c5e..45804fd 100644
--- a/pysqlsync/python_types.py
+++ b/pysqlsync/python_types.py
@@ -25,15 +25,28 @@ def module_to_stream(module: ModuleType, target: TextIO) -> None:
     print("from __future__ import annotations", file=target)
     print("import dataclasses", file=target)
     print("import enum", file=target)
-    print("from datetime import datetime, date, time", file=target)
+    print("from datetime import datetime, date, time, timedelta, timezone", file=target)
     print("from decimal import Decimal", file=target)
+    print("from ipaddress import IPv4Address, IPv6Address", file=target)
     print("from uuid import UUID", file=target)
     print(
-        "from typing import Annotated, Dict, List, Literal, Optional, Union",
+        "from typing import Annotated, Any, Dict, List, Literal, Optional, Union",
         file=target,
     )
     print(
-        "from strong_typing.auxiliary import int16, int32, int64, float32, float64, MaxLength, Precision, TimePrecision",
+        "from strong_typing.auxiliary import int8, int16, int32, int64, uint8, uint16, uint32, uint64, float32, float64, "
+        "IntegerRange, Length, MaxLength, MinLength, Precision, Signed, Storage, TimePrecision",
+        file=target,
+    )
+    print("from strong_typing.core import JsonType", file=target)
+    print(
+        "from pysqlsync.model.key_types import DEFAULT, DefaultTag, IdentityTag, PrimaryKeyTag, UniqueTag",
+        file=target,
+    )
+    print(file=target)
+    # types are written as `Annotated[T, PrimaryKey]`
+    print(
+        "PrimaryKey, Identity, Unique = PrimaryKeyTag(), IdentityTag(), UniqueTag()",
         file=target,
     )
     print(file=target)
-- 
2.43.0


From f9cc9f7241c142448c59853ee957ce5ee0ecb9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:29 +0000
Subject: [PATCH 63/78] fix: write default values and field options in
 generated Python code

---
 pysqlsync/python_types.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/pysqlsync/python_types.py b/pysqlsync/python_types.py
index 45804fd..d4486a7 100644
--- a/pysqlsync/python_types.py
+++ b/pysqlsync/python_types.py
@@ -1,13 +1,15 @@
 import dataclasses
+import datetime
 import enum
 import inspect
 import io
+import math
 import re
 import sys
 import textwrap
 import typing
 from types import ModuleType
-from typing import TextIO
+from typing import Any, TextIO
 
 from strong_typing.docstring import has_docstring, parse_type
 from strong_typing.inspection import (
@@ -51,7 +53,8 @@ def module_to_stream(module: ModuleType, target: TextIO) -> None:
     )
     print(file=target)
 
-    for cls in get_module_classes(module):
+    # default values of data-class fields may be enumeration members
+    for cls in sorted(get_module_classes(module), key=lambda c: not is_type_enum(c)):
         if is_type_enum(cls):
             enum_class_to_stream(cls, target)
         elif is_dataclass_type(cls):
@@ -122,7 +125,7 @@ def dataclass_to_stream(typ: type[DataclassInstance], target: TextIO) -> None:
 
         field_initializer: dict[str, str] = {}
         if field.default is not dataclasses.MISSING:
-            field_initializer["default"] = repr(field.default)
+            field_initializer["default"] = _value_to_str(field.default)
         if field.default_factory is not dataclasses.MISSING:
             field_initializer["default_factory"] = fmt.python_type_to_str(
                 field.default_factory
@@ -133,12 +136,12 @@ def dataclass_to_stream(typ: type[DataclassInstance], target: TextIO) -> None:
         if not field_initializer:
             initializer = ""
         elif field.default is not dataclasses.MISSING and len(field_initializer) == 1:
-            initializer = f" = {repr(field.default)}"
+            initializer = f" = {_value_to_str(field.default)}"
         else:
             initializer_list = ", ".join(
                 f"{key} = {value}" for key, value in field_initializer.items()
             )
-            initializer = f" = field({initializer_list})"
+            initializer = f" = dataclasses.field({initializer_list})"
 
         print(f"    {field.name}: {type_name}{initializer}", file=target)
 
@@ -195,6 +198,21 @@ def enum_class_to_code(enum_class: type[enum.Enum]) -> str:
         return out.getvalue()
 
 
+def _value_to_str(value: Any) -> str:
+    "Emits a value as an expression in terms of the names imported by a generated module."
+
+    if isinstance(value, enum.Enum):
+        return f"{type(value).__name__}.{value.name}"
+    elif isinstance(
+        value, (datetime.datetime, datetime.date, datetime.time, datetime.timedelta)
+    ):
+        return repr(value).replace("datetime.", "")
+    elif isinstance(value, float) and not math.isfinite(value):
+        return f"float({str(value)!r})"
+    else:
+        return repr(value)
+
+
 def _wrap_print(text: str, file: TextIO) -> None:
     if not text:
         return
-- 
2.43.0


From d5f6f046ea498dbaabeba4f7833068a87a296084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:29 +0000
Subject: [PATCH 64/78] fix: escape documentation in generated Python code

---
 pysqlsync/python_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysqlsync/python_types.py b/pysqlsync/python_types.py
index d4486a7..f4c3f70 100644
--- a/pysqlsync/python_types.py
+++ b/pysqlsync/python_types.py
@@ -217,6 +217,9 @@ def _wrap_print(text: str, file: TextIO) -> None:
     if not text:
         return
 
+    # text is part of a documentation string
+    text = text.replace("\\", "\\\\").replace('"""', '\\"\\"\\"')
+
     # wrap long lines
     for line in textwrap.wrap(
         text,
-- 
2.43.0


From e1d8fd32da1b3f1754aae2295e3540f6bbd0a101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:29 +0000
Subject: [PATCH 65/78] fix: write the JSON type by name in generated Python
 code

---
 pysqlsync/python_types.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/python_types.py b/pysqlsync/python_types.py
index f4c3f70..28f2ac7 100644
--- a/pysqlsync/python_types.py
+++ b/pysqlsync/python_types.py
@@ -11,6 +11,7 @@ import typing
 from types import ModuleType
 from typing import Any, TextIO
 
+from strong_typing.core import JsonType
 from strong_typing.docstring import has_docstring, parse_type
 from strong_typing.inspection import (
     DataclassInstance,
@@ -21,6 +22,15 @@ from strong_typing.inspection import (
 from strong_typing.name import TypeFormatter
 
 
+class _TypeFormatter(TypeFormatter):
+    "Writes the recursive type for JSON data as a name."
+
+    def plain_type_to_str(self, data_type: Any) -> str:
+        return (
+            "JsonType" if data_type == JsonType else super().plain_type_to_str(data_type)
+        )
+
+
 def module_to_stream(module: ModuleType, target: TextIO) -> None:
     "Generates Python code of all declared types in a module."
 
@@ -118,7 +128,7 @@ def dataclass_to_stream(typ: type[DataclassInstance], target: TextIO) -> None:
         print(file=target)
 
     # member variables
-    fmt = TypeFormatter(context=sys.modules[typ.__module__])
+    fmt = _TypeFormatter(context=sys.modules[typ.__module__])
     for field in dataclasses.fields(typ):
         type_name = fmt.python_type_to_str(field.type)
         metadata = dict(field.metadata)
-- 
2.43.0


From 7bc9801b8bb6e31174b59b2fd219fdc81ed850cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:04 +0000
Subject: [PATCH 66/78] fix: update descriptions of members of composite types
 in PostgreSQL

---
 pysqlsync/dialect/postgresql/mutation.py | 19 +++++++++++++++++++
 pysqlsync/formation/mutation.py          |  2 +-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/postgresql/mutation.py b/pysqlsync/dialect/postgresql/mutation.py
index 68972ed..86ef74c 100644
--- a/pysqlsync/dialect/postgresql/mutation.py
+++ b/pysqlsync/dialect/postgresql/mutation.py
@@ -99,6 +99,25 @@ class PostgreSQLMutator(Mutator):
         statements: StatementList = StatementList()
         statements.append(super().mutate_struct_stmt(source, target))
 
+        for target_member in target.members.values():
+            source_member = source.members.get(target_member.name.id)
+
+            source_desc = (
+                source_member.description if source_member is not None else None
+            )
+            target_desc = target_member.description
+
+            if target_desc is None:
+                if source_desc is not None:
+                    statements.append(
+                        f"COMMENT ON COLUMN {target.name}.{target_member.name} IS NULL;"
+                    )
+            else:
+                if source_desc != target_desc:
+                    statements.append(
+                        f"COMMENT ON COLUMN {target.name}.{target_member.name} IS {sql_quoted_string(target_desc)};"
+                    )
+
         if target.description is None:
             if source.description is not None:
                 statements.append(f"COMMENT ON TYPE {target.name} IS NULL;")
diff --git a/pysqlsync/formation/mutation.py b/pysqlsync/formation/mutation.py
index fbef382..3c0aabc 100644
--- a/pysqlsync/formation/mutation.py
+++ b/pysqlsync/formation/mutation.py
@@ -88,7 +88,7 @@ class Mutator:
             for member in source.members.difference(target.members)
         )
         for source_member, target_member in source.members.intersection(target.members):
-            if source_member != target_member:
+            if source_member.data_type != target_member.data_type:
                 statements.append(
                     f"ALTER ATTRIBUTE {source_member.name} SET DATA TYPE {target_member.data_type}"
                 )
-- 
2.43.0


From 47dac6ba5182c2b7e74677c3c4b8326e9449a0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:58 +0000
Subject: [PATCH 67/78] fix: ignore skipped annotations on any type of column

---
 pysqlsync/formation/py_to_sql.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 025587b..f036cef 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -181,7 +181,8 @@ def dataclass_fields_as_required(
 ) -> Iterable[DataclassField]:
     for field in dataclass_fields(cls):
         props = get_field_properties(field.type)
-        ref = evaluate_member_type(props.field_type, cls)
+        # annotations on a type have no effect on what it refers to
+        ref = evaluate_member_type(props.plain_type, cls)
         if pred is None or pred(ref):
             yield DataclassField(field.name, ref, field.default)
 
@@ -544,6 +545,14 @@ class DataclassConverter:
         :param cls: The context for the type, typically the dataclass in which the member is defined.
         """
 
+        metadata = getattr(typ, "__metadata__", None)
+        if metadata:
+            # convert a type as if skipped annotations were not there
+            kept = [m for m in metadata if not isinstance(m, self.options.skip_annotations)]
+            if len(kept) < len(metadata):
+                plain_type = unwrap_annotated_type(typ)
+                typ = Annotated[(plain_type, *kept)] if kept else plain_type
+
         substitute = self.options.substitutions.get(typ)
         if substitute is not None:
             return substitute
-- 
2.43.0


From 5f0d53d7c6273b0211bd6c4b1cbf9ae53b75094d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:50 +0000
Subject: [PATCH 68/78] fix: convert keys of entities referred to by annotated
 fields

---
 pysqlsync/formation/inspection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/formation/inspection.py b/pysqlsync/formation/inspection.py
index 82a3366..e3cfeb6 100644
--- a/pysqlsync/formation/inspection.py
+++ b/pysqlsync/formation/inspection.py
@@ -165,7 +165,7 @@ def reference_to_key(typ: TypeLike, cls: type[DataclassInstance]) -> TypeLike:
     """
 
     data_type = evaluate_member_type(typ, cls)
-    plain_type = unwrap_annotated_type(data_type)
+    plain_type = evaluate_member_type(unwrap_annotated_type(data_type), cls)
     if is_type_optional(plain_type):
         # nullable type
         required_type = reference_to_key(unwrap_optional_type(plain_type), cls)
-- 
2.43.0


From 922f8e75c6a73cedc708a824254714a03a65c38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:09 +0000
Subject: [PATCH 69/78] fix: recognize interval columns in PostgreSQL

---
 pysqlsync/formation/data_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index f583a66..57ce55d 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -14,6 +14,7 @@ from ..model.data_types import (
     SqlFixedCharacterType,
     SqlFloatType,
     SqlIntegerType,
+    SqlIntervalType,
     SqlJsonType,
     SqlRealType,
     SqlTimestampType,
@@ -85,6 +86,8 @@ class SqlDiscovery:
             return SqlJsonType()
         elif name == "uuid":  # PostgreSQL-specific
             return SqlUuidType()
+        elif name == "interval":  # PostgreSQL-specific
+            return SqlIntervalType()
 
         if type_schema is not None:
             return SqlUserDefinedType(QualifiedId(type_schema, type_name))
-- 
2.43.0


From 4467a3df7b9eff5670229a97c2365fb23dc80e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:31 +0000
Subject: [PATCH 70/78] fix: use distinct names for unique constraints of
 lookup tables

---
 pysqlsync/formation/py_to_sql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index f036cef..fbb5c5d 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -962,7 +962,7 @@ class DataclassConverter:
             )
             constraints.append(
                 UniqueConstraint(
-                    LocalId(f"uq_{enum_table_name}"),
+                    LocalId(f"uq_{self.create_qualified_prefix(enum_type)}"),
                     (LocalId("value"),),
                 )
             )
-- 
2.43.0


From b2c5a3756127132fb3627710ff0ad981c262b9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:41 +0000
Subject: [PATCH 71/78] fix: read back default values of an enumeration type in
 PostgreSQL

---
 pysqlsync/dialect/postgresql/discovery.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index bd559ed..c20b5c0 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -59,6 +59,14 @@ def to_default_expr(expr: Optional[str]) -> Optional[str]:
     if m:
         return m.group(1)
 
+    # a value of a user-defined enumeration type
+    m = re.match(
+        r"""^('(?:[^']|'')*')::(?:(?:"(?:[^"]|"")+"|\w+)\.)?(?:"(?:[^"]|"")+"|\w+)$""",
+        expr,
+    )
+    if m:
+        return m.group(1)
+
     return expr
 
 
-- 
2.43.0


From edf38c260ef3a89a91f2d4ba09bea1b9d34d4d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:41 +0000
Subject: [PATCH 72/78] fix: automatic default values of references to later
 classes and of enumerations in lookup tables

---
 pysqlsync/formation/py_to_sql.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index fbb5c5d..530a766 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -679,8 +679,10 @@ class DataclassConverter:
             and not props.is_primary
             and not props.is_identity
         ):
-            if is_reference_type(props.plain_type, cls):
-                plain_type = reference_to_key(props.plain_type, cls)
+            # references to classes defined later are spelled as forward references
+            field_type = evaluate_member_type(props.plain_type, cls)
+            if is_reference_type(field_type, cls):
+                plain_type = reference_to_key(field_type, cls)
             elif is_type_union(props.plain_type):
                 member_types = [
                     evaluate_member_type(t, cls)
@@ -697,8 +699,13 @@ class DataclassConverter:
                 and not is_generic_list(props.plain_type)
                 and not is_generic_set(props.plain_type)
                 and not is_type_union(props.plain_type)
+                and not (
+                    # column holds the key of a lookup table row, not the value
+                    is_type_enum(field_type)
+                    and self.options.enum_mode is EnumMode.RELATION
+                )
             ):
-                plain_type = props.plain_type
+                plain_type = field_type
             else:
                 # unable to infer default value for type
                 plain_type = None
-- 
2.43.0


From b4f5513c184b52fe5a2771746cf53ca842a5ac48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:17 +0000
Subject: [PATCH 73/78] fix: store members of numeric enumerations as text in
 columns of an enumeration type

---
 pysqlsync/base.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/base.py b/pysqlsync/base.py
index a47c194..f14f3ce 100644
--- a/pysqlsync/base.py
+++ b/pysqlsync/base.py
@@ -57,7 +57,13 @@ from .formation.object_types import (
     Table,
 )
 from .formation.py_to_sql import ArrayMode, DataclassConverter, EnumMode, StructMode
-from .model.data_types import SqlJsonType, SqlVariableCharacterType
+from .model.data_types import (
+    SqlArrayType,
+    SqlEnumType,
+    SqlJsonType,
+    SqlUserDefinedType,
+    SqlVariableCharacterType,
+)
 from .model.id_types import LocalId, QualifiedId, SupportsQualifiedId
 from .python_types import dataclass_to_code, module_to_code
 
@@ -550,10 +556,17 @@ class BaseGenerator(abc.ABC):
             )
 
         if is_type_enum(field_type):
+            if isinstance(column.data_type, (SqlEnumType, SqlUserDefinedType)):
+                # values of a database enumeration type are strings
+                return lambda obj: str(getattr(obj, field_name).value)
             return lambda obj: getattr(obj, field_name).value
         elif is_generic_list(field_type) and is_type_enum(
             unwrap_generic_list(field_type)
         ):
+            if isinstance(column.data_type, SqlArrayType) and isinstance(
+                column.data_type.element_type, SqlUserDefinedType
+            ):
+                return lambda obj: [str(item.value) for item in getattr(obj, field_name)]
             return lambda obj: [item.value for item in getattr(obj, field_name)]
         else:
             return lambda obj: getattr(obj, field_name)
@@ -570,6 +583,9 @@ class BaseGenerator(abc.ABC):
             return lambda field: _JSON_ENCODER.encode(object_to_json(field))
 
         if is_type_enum(field_type):
+            if isinstance(column.data_type, (SqlEnumType, SqlUserDefinedType)):
+                # values of a database enumeration type are strings
+                return lambda field: str(field.value)
             return lambda field: field.value
         else:
             return None
-- 
2.43.0


From c905ff2f379a0bc02ac94e45f0f830a5a2f01b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:55 +0000
Subject: [PATCH 74/78] fix: discover composite types in order of reference,
 which the system catalog does not guarantee

---
 pysqlsync/dialect/postgresql/discovery.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index c20b5c0..2b65724 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -4,6 +4,8 @@ from dataclasses import dataclass
 from itertools import groupby
 from typing import Optional
 
+from strong_typing.topological import topological_sort
+
 from pysqlsync.base import BaseContext, Explorer
 from pysqlsync.formation.constraints import ForeignFactory, UniqueFactory
 from pysqlsync.formation.data_types import SqlDiscovery, SqlDiscoveryOptions
@@ -407,6 +409,14 @@ class PostgreSQLExplorer(Explorer):
             struct = await self.get_struct(QualifiedId(namespace_id.id, struct_name))
             structs.append(struct)
 
+        # types come in no particular order, make those referred to precede those that refer to them
+        types = {struct.name: struct for struct in structs}
+        graph = {
+            struct.name: struct.get_referenced_types().intersection(types.keys())
+            for struct in structs
+        }
+        structs = [types[name] for name in topological_sort(graph)]
+
         table_names = await self.conn.query_all(
             str,
             "SELECT cls.relname\n"
-- 
2.43.0


From d44373690609eee9f22ae2e4719999e1f8d0ea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:39 +0000
Subject: [PATCH 75/78] fix: texts longer than a bounded character type permits

---
 pysqlsync/dialect/mssql/data_types.py  | 10 +++++++++-
 pysqlsync/dialect/mysql/data_types.py  | 11 +++++++++++
 pysqlsync/dialect/oracle/data_types.py |  9 +++++++++
 3 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/dialect/mssql/data_types.py b/pysqlsync/dialect/mssql/data_types.py
index ee259e2..90e64bf 100644
--- a/pysqlsync/dialect/mssql/data_types.py
+++ b/pysqlsync/dialect/mssql/data_types.py
@@ -1,5 +1,5 @@
 import enum
-from typing import Optional
+from typing import Any, Optional
 
 import pyodbc
 
@@ -40,6 +40,14 @@ class MSSQLVariableCharacterType(SqlVariableCharacterType):
         super().__init__(limit)
         self.encoding = encoding
 
+    def parse_meta(self, meta: Any) -> None:
+        super().parse_meta(meta)
+
+        # character types with an explicit limit may take up to 8000 bytes
+        max_limit = 4000 if self.encoding is MSSQLEncoding.UTF16 else 8000
+        if self.limit is not None and self.limit > max_limit:
+            self.limit = None
+
     def __str__(self) -> str:
         if self.encoding is MSSQLEncoding.UTF16:
             chartype = "nvarchar"
diff --git a/pysqlsync/dialect/mysql/data_types.py b/pysqlsync/dialect/mysql/data_types.py
index ec9eb48..74c6b19 100644
--- a/pysqlsync/dialect/mysql/data_types.py
+++ b/pysqlsync/dialect/mysql/data_types.py
@@ -1,4 +1,5 @@
 import re
+from typing import Any
 
 from pysqlsync.model import data_types
 from pysqlsync.model.data_types import (
@@ -46,6 +47,16 @@ class MySQLDateTimeType(SqlTimestampType):
 
 
 class MySQLVariableCharacterType(SqlVariableCharacterType):
+    def parse_meta(self, meta: Any) -> None:
+        super().parse_meta(meta)
+
+        # a row may take up to 65535 bytes, and a character up to 4 bytes; larger types have a fixed capacity
+        if self.limit is not None and self.limit > 16383:
+            if self.limit < 16777216:
+                self.limit = 16777215
+            elif self.limit < 4294967296:
+                self.limit = 4294967295
+
     def __str__(self) -> str:
         if self.limit is None:
             return "mediumtext"
diff --git a/pysqlsync/dialect/oracle/data_types.py b/pysqlsync/dialect/oracle/data_types.py
index edf671e..ea3ce8a 100644
--- a/pysqlsync/dialect/oracle/data_types.py
+++ b/pysqlsync/dialect/oracle/data_types.py
@@ -1,3 +1,5 @@
+from typing import Any
+
 import oracledb
 
 from pysqlsync.model.data_types import (
@@ -43,6 +45,13 @@ class OracleTimeType(SqlTimeType):
 
 
 class OracleVariableCharacterType(SqlVariableCharacterType):
+    def parse_meta(self, meta: Any) -> None:
+        super().parse_meta(meta)
+
+        # large objects have no limit
+        if self.limit is not None and self.limit > 4000:
+            self.limit = None
+
     def __str__(self) -> str:
         if self.limit is not None and self.limit <= 4000:
             return f"varchar2({self.limit})"
-- 
2.43.0


From 08893e12bdb3f0e32134263208debb3702b3a55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:39 +0000
Subject: [PATCH 76/78] fix: element types of PostgreSQL array columns are
 discovered without parameters

---
 pysqlsync/dialect/postgresql/discovery.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/dialect/postgresql/discovery.py b/pysqlsync/dialect/postgresql/discovery.py
index 2b65724..6577f6e 100644
--- a/pysqlsync/dialect/postgresql/discovery.py
+++ b/pysqlsync/dialect/postgresql/discovery.py
@@ -237,7 +237,7 @@ class PostgreSQLExplorer(Explorer):
             data_type = self.discovery.sql_data_type_from_spec(
                 type_name=mem.type_name,
                 type_schema=mem.type_schema,
-                type_def=mem.type_def,
+                type_def=mem.type_def.removesuffix("[]"),  # element type of an array
             )
             if mem.is_array:
                 data_type = SqlArrayType(data_type)
@@ -295,7 +295,7 @@ class PostgreSQLExplorer(Explorer):
             data_type = self.discovery.sql_data_type_from_spec(
                 type_name=col.type_name,
                 type_schema=col.type_schema,
-                type_def=col.type_def,
+                type_def=col.type_def.removesuffix("[]"),  # element type of an array
             )
             if col.is_array:
                 data_type = SqlArrayType(data_type)
-- 
2.43.0


From 761eb61292fe9e1b9fc2c6883c18040cf5b3625d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:39 +0000
Subject: [PATCH 77/78] fix: recognize time zone variants in PostgreSQL's own
 spelling

---
 pysqlsync/formation/data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pysqlsync/formation/data_types.py b/pysqlsync/formation/data_types.py
index 57ce55d..de4c160 100644
--- a/pysqlsync/formation/data_types.py
+++ b/pysqlsync/formation/data_types.py
@@ -64,7 +64,7 @@ class SqlDiscovery:
             return SqlFloatType()
         elif name in ["timestamp", "timestamp without time zone"]:
             return SqlTimestampType(None, False)
-        elif name == "timestamp with time zone":
+        elif name in ["timestamp with time zone", "timestamptz"]:
             return SqlTimestampType(None, True)
         elif name == "datetime":
             return SqlTimestampType()
@@ -72,7 +72,7 @@ class SqlDiscovery:
             return SqlDateType()
         elif name in ["time", "time without time zone"]:
             return SqlTimeType(None, False)
-        elif name == "time with time zone":
+        elif name in ["time with time zone", "timetz"]:
             return SqlTimeType(None, True)
         elif name in ["char", "character"]:
             return SqlFixedCharacterType()
-- 
2.43.0


From deeca4da55d4a73c74f8056ff8776257ba3c529a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:42:03 +0000
Subject: [PATCH 78/78] fix: create the type of an ordinary enumeration with a
 single member

---
 pysqlsync/formation/py_to_sql.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pysqlsync/formation/py_to_sql.py b/pysqlsync/formation/py_to_sql.py
index 530a766..4e8bf1a 100644
--- a/pysqlsync/formation/py_to_sql.py
+++ b/pysqlsync/formation/py_to_sql.py
@@ -1018,11 +1018,19 @@ class DataclassConverter:
         # collect all enumeration types in alphabetical order
         enums: dict[str, list[EnumType]] = {}
         if self.options.enum_mode is EnumMode.TYPE:
+            extensible_types = {
+                unwrap_extensible_enum_type(field.type, obj)
+                for obj in referenced_types
+                if is_entity_type(obj)
+                for field in dataclass_fields_as_required(
+                    obj, lambda t: is_extensible_enum_type(t, obj)
+                )
+            }
             enum_types = [obj for obj in referenced_types if is_type_enum(obj)]
             enum_types.sort(key=lambda e: e.__name__)
             for enum_type in enum_types:
                 enum_values = [str(e.value) for e in enum_type]  # type: ignore
-                if len(enum_values) < 2:
+                if len(enum_values) < 2 and enum_type in extensible_types:
                     # enumerations with too few members expand into extensible enumeration tables
                     continue
 
-- 
2.43.0

