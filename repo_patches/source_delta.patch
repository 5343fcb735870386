From 97a06b0844491a62bf6cd3129c51e8ee629440df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 01/30] fix: store the right node of a three node MAKE pattern

---
 wiggle_query_language/clauses/make/make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/make/make.py b/wiggle_query_language/clauses/make/make.py
index a183a23..8c827bd 100644
--- a/wiggle_query_language/clauses/make/make.py
+++ b/wiggle_query_language/clauses/make/make.py
@@ -43,7 +43,7 @@ def make_nodes(make_pre: MakePre) -> list[Node]:
         nodes.append(make_node(make_pre.middle_node))
 
     if make_pre.right_node:
-        nodes.append(make_node(make_pre.left_node))
+        nodes.append(make_node(make_pre.right_node))
 
     return nodes
 
-- 
2.43.0


From eaea1e2c81c15aee08d650ad6e716fc59e331755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 02/30] fix: rewind the indexes file even when there are no
 relationships to add

---
 .../graph/database/indexes/node_relationships_index.py         | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wiggle_query_language/graph/database/indexes/node_relationships_index.py b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
index 108a7be..c1b72b3 100644
--- a/wiggle_query_language/graph/database/indexes/node_relationships_index.py
+++ b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
@@ -39,10 +39,9 @@ def add_items_to_node_relationships_index(
             else:
                 rel_indexes_dict[node_wn] = list(new_rels_wn_set)
 
-            file_handle.seek(0)
-
         indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = rel_indexes_dict
 
+        file_handle.seek(0)
         dump(indexes_dict, file_handle, indent=4)
         file_handle.truncate()
 
-- 
2.43.0


From 9210e76cf417e2c3e57fde30189f31480759c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 03/30] fix: run a query that has a MAKE but no FIND, check a
 lone REPORT before writing

---
 wiggle_shell/core/query/query.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/wiggle_shell/core/query/query.py b/wiggle_shell/core/query/query.py
index 53b93c9..f17a762 100644
--- a/wiggle_shell/core/query/query.py
+++ b/wiggle_shell/core/query/query.py
@@ -35,11 +35,18 @@ def parse_query_string(query_string: str) -> ParsedQuery:
     find_parsed = parse_find_statement_from_query_string(query_string)
     criteria_parsed = None
 
-    find_query_handles = find_parsed.parsed_pattern.pattern_handles
+    find_query_handles = None
+    if find_parsed:
+        find_query_handles = find_parsed.parsed_pattern.pattern_handles
     report_parsed = parse_report_statement_from_query_string(
         query_string, find_handles=find_query_handles
     )
 
+    if report_parsed and not find_parsed:
+        raise NotAValidQueryError("A REPORT must be used in conjunction with a FIND\n")
+    if not make_parsed and not find_parsed:
+        raise NotAValidQueryError("Query must contain a MAKE or a FIND\n")
+
     query_parsed = ParsedQuery(
         make_parsed=make_parsed,
         find_parsed=find_parsed,
@@ -65,8 +72,6 @@ def execute_query(parsed_query: ParsedQuery, gdbms_file_path: GDBMSFilePath) ->
             report(
                 parsed_report=query_report, found=found, gdbms_file_path=gdbms_file_path
             )
-    else:
-        raise Exception("You must provide a FIND with a RETURN! FUBAR")
 
     return True
 
-- 
2.43.0


From a227be1383e3d6207c6a7448aa12e28f8577d929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 04/30] fix: build the right node of a FIND from what is
 written for it

---
 .../clauses/find/transform/find_pre.py                 | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/wiggle_query_language/clauses/find/transform/find_pre.py b/wiggle_query_language/clauses/find/transform/find_pre.py
index 6edd793..20afbfe 100644
--- a/wiggle_query_language/clauses/find/transform/find_pre.py
+++ b/wiggle_query_language/clauses/find/transform/find_pre.py
@@ -94,14 +94,10 @@ def process_parsed_find(
         find_pre.node_labels.add(middle_label)
 
     # Right Node
-    if parsed_pattern.middle_node:
-        right_handle = parsed_pattern.middle_node_handle
-        right_props_dict = get_property_dict(parsed_pattern.left_node_props)
+    if parsed_pattern.right_node:
+        right_handle = parsed_pattern.right_node_handle
+        right_props_dict = get_property_dict(parsed_pattern.right_node_props)
         right_label = parsed_pattern.right_node_label
-        if parsed_criteria:
-            right_props_dict.update(
-                parsed_criteria.criteria_handle_props.get(right_handle, None)
-            )
 
         right = FindNodePre(
             node_handle=right_handle,
-- 
2.43.0


From a8273968203bce63c9945f4e9b81bb3c411a18a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 05/30] fix: a FIND whose relationship names are in the index
 is not short circuited

---
 .../clauses/find/short_circuits/find_short_circuits.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py b/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
index ddedb46..d01201b 100644
--- a/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
+++ b/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
@@ -26,7 +26,7 @@ def find_short_circuit(
     if not node_label_is_in_index(find_pre.node_labels, node_label_index):
         return False
 
-    if relationship_name_is_in_index(
+    if find_pre.relationship_names and not relationship_name_is_in_index(
         find_pre.relationship_names, relationship_name_index
     ):
         return False
-- 
2.43.0


From 959fde5144b975f518c827adfef1ed2862776f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:57 +0000
Subject: [PATCH 06/30] fix: end each statement at its own semicolon

---
 .../parsing_helpers/extract_statements.py     | 23 +++++++++++++++----
 .../regexes/patterns/clause_helpers.py        |  2 +-
 .../clauses/regexes/report/report_patterns.py |  2 +-
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
index 25c9e0b..c6e7097 100644
--- a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
+++ b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
@@ -1,3 +1,4 @@
+from re import findall
 from typing import Optional
 
 from models.wql import Clause
@@ -15,6 +16,17 @@ from wiggle_query_language.clauses.regexes.report.report_patterns import (
 )
 
 
+def split_statements(query_string: str) -> list[str]:
+    """
+    Splits the query body into its statements, each ends at its own semicolon.
+    :param query_string: The raw query.
+    :return: A list of the statements, any trailing text has no semicolon.
+    """
+    statements = [x.strip() for x in findall(r"[^;]*;|[^;]+", query_string)]
+
+    return [x for x in statements if x]
+
+
 def extract_all_statements(query_string: str, clause: Clause) -> Optional[list[str]]:
     """
     Extracts the MAKE statement from the query body.
@@ -32,9 +44,12 @@ def extract_all_statements(query_string: str, clause: Clause) -> Optional[list[s
         case _:
             raise Exception()
 
-    if make_matches := [x.group() for x in clause_all_regex.finditer(query_string)]:
-        return make_matches
+    make_matches = []
 
-    check_clause_spelling(query_string, clause)
+    for statement in split_statements(query_string):
+        if match := clause_all_regex.match(statement):
+            make_matches.append(match.group())
+        else:
+            check_clause_spelling(statement, clause)
 
-    return None
+    return make_matches or None
diff --git a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
index 9a993e7..abd4d18 100644
--- a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
@@ -7,7 +7,7 @@ def get_clause_all_regex(clause: str) -> str:
     :param clause: The WQL clause.
     :return: A regex expression.
     """
-    return rf"(?P<clause_stmt_all>({clause.upper()}|{clause.lower()})\s*\(.+\);)"
+    return rf"(?P<clause_stmt_all>({clause.upper()}|{clause.lower()})\s*\([^;]+\)\s*;)"
 
 
 def get_clause_permutations(clause: str) -> str:
diff --git a/wiggle_query_language/clauses/regexes/report/report_patterns.py b/wiggle_query_language/clauses/regexes/report/report_patterns.py
index 97018fd..d0c3f4b 100644
--- a/wiggle_query_language/clauses/regexes/report/report_patterns.py
+++ b/wiggle_query_language/clauses/regexes/report/report_patterns.py
@@ -8,7 +8,7 @@ CLAUSE = "REPORT"
 
 # REPORT .*;
 REPORT_STATEMENT_ALL_REGEX = compile(
-    pattern=rf"(?P<report_stmt_all>({CLAUSE.upper()}|{CLAUSE.lower()}).+;)",
+    pattern=rf"(?P<report_stmt_all>({CLAUSE.upper()}|{CLAUSE.lower()})\b[^;]+;)",
     flags=IGNORECASE,
 )
 
-- 
2.43.0


From 0fd8cc630d7b35065b085abfe5282deea8bd1e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 07/30] fix: look for a misspelt clause in every statement, and
 only at its start

---
 .../clauses/regexes/patterns/clause_helpers.py                  | 2 +-
 wiggle_query_language/clauses/regexes/report/report_patterns.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
index abd4d18..d4d0fa0 100644
--- a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
@@ -29,7 +29,7 @@ def get_clause_permutations_regex(clause: str) -> str:
     all_permutations_joined = get_clause_permutations(clause)
 
     clause_permutations_regex = (
-        rf"\s?(?P<clause_syntax_error>{all_permutations_joined})\s?\("
+        rf"^\s*(?P<clause_syntax_error>{all_permutations_joined})\s*\("
     )
 
     return clause_permutations_regex
diff --git a/wiggle_query_language/clauses/regexes/report/report_patterns.py b/wiggle_query_language/clauses/regexes/report/report_patterns.py
index d0c3f4b..783aaf0 100644
--- a/wiggle_query_language/clauses/regexes/report/report_patterns.py
+++ b/wiggle_query_language/clauses/regexes/report/report_patterns.py
@@ -14,6 +14,6 @@ REPORT_STATEMENT_ALL_REGEX = compile(
 
 # TROPER foo;
 REPORT_STATEMENT_CHECK_CLAUSE_SYNTAX_REGEX = compile(
-    pattern=rf"(?P<report_stmt_all>({get_clause_permutations(CLAUSE)}).+;)",
+    pattern=rf"^\s*(?P<report_stmt_all>({get_clause_permutations(CLAUSE)})\b[^;]*;)",
     flags=IGNORECASE,
 )
-- 
2.43.0


From 5849891682c605327de89158085c8091d115d258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 08/30] fix: reject a query with a statement that is unknown or
 not terminated

---
 .../parsing_helpers/extract_statements.py     |  9 ++++++--
 wiggle_shell/core/query/query.py              | 22 ++++++++++++-------
 2 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
index c6e7097..e7ce903 100644
--- a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
+++ b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
@@ -1,6 +1,7 @@
-from re import findall
+from re import IGNORECASE, findall, match as re_match
 from typing import Optional
 
+from exceptions.wql.parsing import ClauseSyntaxError
 from models.wql import Clause
 from wiggle_query_language.clauses.parsing_helpers.parse_statement_checks import (
     check_clause_spelling,
@@ -24,7 +25,7 @@ def split_statements(query_string: str) -> list[str]:
     """
     statements = [x.strip() for x in findall(r"[^;]*;|[^;]+", query_string)]
 
-    return [x for x in statements if x]
+    return [x for x in statements if x and x != ";"]
 
 
 def extract_all_statements(query_string: str, clause: Clause) -> Optional[list[str]]:
@@ -49,6 +50,10 @@ def extract_all_statements(query_string: str, clause: Clause) -> Optional[list[s
     for statement in split_statements(query_string):
         if match := clause_all_regex.match(statement):
             make_matches.append(match.group())
+        elif re_match(rf"{clause.value}\b", statement, flags=IGNORECASE):
+            raise ClauseSyntaxError(
+                f"{clause.value} statement is not valid: ---> {statement} <---"
+            )
         else:
             check_clause_spelling(statement, clause)
 
diff --git a/wiggle_shell/core/query/query.py b/wiggle_shell/core/query/query.py
index f17a762..8c0f87b 100644
--- a/wiggle_shell/core/query/query.py
+++ b/wiggle_shell/core/query/query.py
@@ -1,5 +1,6 @@
 import logging
 from pathlib import Path
+from re import match
 
 from exceptions.wiggleshell.query import NotAValidQueryError
 from wiggle_graph_logger.graph_logger import graph_logger
@@ -14,6 +15,9 @@ from wiggle_query_language.clauses.make import (
     make,
     parse_make_statement_from_query_string,
 )
+from wiggle_query_language.clauses.parsing_helpers.extract_statements import (
+    split_statements,
+)
 from wiggle_query_language.clauses.report import (
     report,
     parse_report_statement_from_query_string,
@@ -78,21 +82,23 @@ def execute_query(parsed_query: ParsedQuery, gdbms_file_path: GDBMSFilePath) ->
 
 def valid_query(query_string) -> bool:
     valid_query_set = {"make", "find", "adjust", "criteria", "report", "using"}
-    query_string_set = set(query_string.lower().split(" "))
 
-    return bool(valid_query_set.intersection(query_string_set))
+    for statement in split_statements(query_string):
+        first_word = match(r"\w*", statement).group().lower()
+        if first_word not in valid_query_set or not statement.endswith(";"):
+            return False
+
+    return True
 
 
 def query(query_string: str, gdbms_file_path: GDBMSFilePath) -> bool:
-    # todo remove \n and split on :
-    # query_string.replace('\n', '').split(';')
-    if not valid_query(query_string) and False:
+    raw_query = parse_query_string(query_string)
+
+    if not valid_query(query_string):
         raise NotAValidQueryError(
-            "Query must contain MAKE, FIND, ADJUST, CRITERIA, REPORT, USING\n"
+            "Each statement must be a MAKE, FIND, ADJUST, CRITERIA, REPORT or USING and end with a ;\n"
         )
 
-    raw_query = parse_query_string(query_string)
-
     execute_query(raw_query, gdbms_file_path)
 
     return True
-- 
2.43.0


From 4181f80d589cd383925b7212a1645e2d6eb405f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 09/30] fix: accept a clause keyword in any letter case

---
 models/wql/parsing/parsed_query.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/models/wql/parsing/parsed_query.py b/models/wql/parsing/parsed_query.py
index 64de6cf..ee7e143 100644
--- a/models/wql/parsing/parsed_query.py
+++ b/models/wql/parsing/parsed_query.py
@@ -87,13 +87,13 @@ class ParsedPattern(BaseModel):
 
 
 class ParsedMake(BaseModel):
-    raw_statement: str = Field(regex=MAKE_STATEMENT_ALL_REGEX.pattern)
+    raw_statement: str = Field(regex=f"(?i){MAKE_STATEMENT_ALL_REGEX.pattern}")
     clause: Clause = Clause.MAKE
     parsed_pattern_list: list[ParsedPattern]
 
 
 class ParsedFind(BaseModel):
-    raw_statement: str = Field(regex=FIND_STATEMENT_ALL_REGEX.pattern)
+    raw_statement: str = Field(regex=f"(?i){FIND_STATEMENT_ALL_REGEX.pattern}")
     clause: Clause = Clause.FIND
     parsed_pattern: ParsedPattern
     parsed_pattern_handles: set[str] = Field(default=set())
@@ -118,7 +118,7 @@ class ParsedCriteria(BaseModel):
 
 
 class ParsedReport(BaseModel):
-    raw_statement: str = Field(regex=REPORT_STATEMENT_ALL_REGEX.pattern)
+    raw_statement: str = Field(regex=f"(?i){REPORT_STATEMENT_ALL_REGEX.pattern}")
     clause: Clause = Clause.REPORT
     extracted_report: str
 
-- 
2.43.0


From a8016b57a6d97d0c437e236b3f5bdcb41dd75bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:49 +0000
Subject: [PATCH 10/30] fix: white space after an arrow does not turn it around

---
 .../clauses/transform_helpers/relationships.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/transform_helpers/relationships.py b/wiggle_query_language/clauses/transform_helpers/relationships.py
index 7c7416b..a84e7e4 100644
--- a/wiggle_query_language/clauses/transform_helpers/relationships.py
+++ b/wiggle_query_language/clauses/transform_helpers/relationships.py
@@ -12,4 +12,4 @@ def relationship_is_left_to_right(parsed_relationship_pattern: str) -> bool:
             f"Non directed relationship found: {parsed_relationship_pattern}"
         )
 
-    return True if parsed_relationship_pattern[-1] == ">" else False
+    return True if parsed_relationship_pattern.rstrip()[-1] == ">" else False
-- 
2.43.0


From e7ae878663f7d71144caff7abb967233afa452aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:52 +0000
Subject: [PATCH 11/30] fix: check the relationships of every statement

---
 .../clauses/parsing_helpers/parse_statement_checks.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index 45930ec..3d81f39 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -114,7 +114,7 @@ def check_relationships(stmt_matches: list[str]) -> bool:
 
     for stmt in stmt_matches:
         if not (rels_matches := RELATIONSHIP_DIR_CHECK_REGEX.findall(stmt)):
-            return True
+            continue
         for rel in rels_matches:
             rel_pattern: str = rel[0]
             rel_name: str = rel[1]
-- 
2.43.0


From f8ab22967388c272169c698f21f70b24f1048392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:08 +0000
Subject: [PATCH 12/30] fix: keep what is inside the quotes of a string
 property as it is written

---
 .../clauses/parsing_helpers/parse_properties.py    | 14 +++++++++++++-
 .../clauses/regexes/patterns/properties.py         |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 9487cde..cd05504 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -50,6 +50,18 @@ def parse_properties(properties_string: str) -> dict:
     return primitive_property_dictionary
 
 
+def remove_quotes(value: str) -> str:
+    """
+    Removes the quotes around a value, what is inside the quotes is left as is.
+    :param value: The extracted property value.
+    :return: The value without its quotes.
+    """
+    if len(value) > 1 and value[0] == value[-1] and value[0] in {'"', "'"}:
+        return value[1:-1]
+
+    return value
+
+
 def handle_extracted_property(
     make_property: WiggleGraphPropertyPre,
 ) -> WG_ALLOWED_TYPES:
@@ -60,7 +72,7 @@ def handle_extracted_property(
     """
     extracted_property = make_property.yield_extracted_property()
 
-    striped_value = extracted_property.property_value.strip('"').strip("'").strip()
+    striped_value = remove_quotes(extracted_property.property_value.strip())
 
     match extracted_property.property_type:
         case PropertyType.NONE_TYPE:
diff --git a/wiggle_query_language/clauses/regexes/patterns/properties.py b/wiggle_query_language/clauses/regexes/patterns/properties.py
index 4ad1774..c33ddf9 100644
--- a/wiggle_query_language/clauses/regexes/patterns/properties.py
+++ b/wiggle_query_language/clauses/regexes/patterns/properties.py
@@ -7,7 +7,7 @@ ALL_PROPERTIES_KEY_VALUE_REGEX = compile(
     pattern=(
         r"(?P<property_name>\w+)\s*:\s*(?P<property_value>(?P<none_type>null)|(?P<bool_type>true|false)|"
         r"(?P<float_type>\d+\.\d+)|(?P<int_type>[0-9]+)|(?P<list_type>\[[\w,\s'\"\.@\+]+\])|"
-        r"(?P<string_type>[\w+\'\"@\.\s]+))"
+        r"(?P<string_type>\"[^\"]*\"|'[^']*'|[\w+@\.\s]+))"
     ),
     flags=IGNORECASE,
 )
-- 
2.43.0


From 2b8e14e57d7902e3e0fddbc4744f33bbe4db8818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:43 +0000
Subject: [PATCH 13/30] fix: store the elements of a list property as they are
 written

---
 .../parsing_helpers/parse_properties.py       | 29 ++++++++++++-------
 .../clauses/regexes/patterns/properties.py    | 12 ++++++++
 2 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index cd05504..d741ec4 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -1,4 +1,3 @@
-from ast import literal_eval
 from typing import Optional
 
 from exceptions.wql.parsing import WiggleGraphIllegalPropertyValue
@@ -6,6 +5,8 @@ from wiggle_graph_logger.graph_logger import graph_logger
 from models.wql import WG_ALLOWED_TYPES, PropertyType, WiggleGraphPropertyPre
 from wiggle_query_language.clauses.regexes.patterns.properties import (
     ALL_PROPERTIES_KEY_VALUE_REGEX,
+    LIST_ELEMENT_REGEX,
+    LIST_VALUE_REGEX,
 )
 
 
@@ -177,16 +178,24 @@ def handle_list_property(value_in: str) -> list[WG_ALLOWED_TYPES]:
     :param value_in: The extracted property value.
     :return: A Python list.
     """
-    # params validation happens in check_node_rel_properties
-    value = (
-        value_in.replace("true", "True")
-        .replace("false", "False")
-        .replace("null", "None")
-    )
-    try:
-        found_list = literal_eval(value)
-    except SyntaxError:
+    if not LIST_VALUE_REGEX.fullmatch(value_in.strip()):
         raise WiggleGraphIllegalPropertyValue(f"{value_in} contained an Error.")
+
+    found_list = []
+    for element in LIST_ELEMENT_REGEX.findall(value_in):
+        match element:
+            case "true":
+                found_list.append(True)
+            case "false":
+                found_list.append(False)
+            case "null":
+                found_list.append(None)
+            case _ if element[0] in {'"', "'"}:
+                found_list.append(remove_quotes(element))
+            case _ if "." in element:
+                found_list.append(handle_float_property(element))
+            case _:
+                found_list.append(handle_int_property(element))
     graph_logger.debug(f"{value_in} was determined to be a list: {found_list}")
     return found_list
 
diff --git a/wiggle_query_language/clauses/regexes/patterns/properties.py b/wiggle_query_language/clauses/regexes/patterns/properties.py
index c33ddf9..036c1f2 100644
--- a/wiggle_query_language/clauses/regexes/patterns/properties.py
+++ b/wiggle_query_language/clauses/regexes/patterns/properties.py
@@ -20,6 +20,18 @@ CHECK_PROPERTIES_SYNTAX_REGEX = compile(
 )
 
 
+# "2_4", '2', 3.14, 1, true, false, null
+LIST_ELEMENT_PATTERN = (
+    r"(?:\"[^\"]*\"|'[^']*'|\b\d+\.\d+\b|\b\d+\b|\btrue\b|\bfalse\b|\bnull\b)"
+)
+LIST_ELEMENT_REGEX = compile(pattern=LIST_ELEMENT_PATTERN)
+
+# The whole list: elements separated by commas
+LIST_VALUE_REGEX = compile(
+    pattern=rf"\[\s*(?:{LIST_ELEMENT_PATTERN}\s*(?:,\s*{LIST_ELEMENT_PATTERN}\s*)*)?\]"
+)
+
+
 # [1, '2', "2_4", "3 4", 3.14]
 PROPERTIES_LIST_VALUE_REGEX = compile(
     pattern=rf"(?P<list_value>\[[\w,\s'\"\.{EXTRA_ALLOWED_CHARS}]+])", flags=IGNORECASE
-- 
2.43.0


From 6bf300b41019bcce0590261fe8748bcba11ffb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 14/30] fix: reject properties that cannot be read as a whole

---
 .../parsing_helpers/parse_properties.py       | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index d741ec4..e283bd5 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -1,3 +1,4 @@
+from re import fullmatch
 from typing import Optional
 
 from exceptions.wql.parsing import WiggleGraphIllegalPropertyValue
@@ -25,12 +26,30 @@ def get_property_dict(properties_string: str) -> Optional[dict]:
     return property_dictionary
 
 
+def check_all_text_is_properties(properties_string: str) -> bool:
+    """
+    Checks that there is nothing but properties in the properties string.
+    :param properties_string: The raw params string.
+    :return: True or raises and exception.
+    """
+    text_left = ALL_PROPERTIES_KEY_VALUE_REGEX.sub("", properties_string)
+
+    if not fullmatch(r"\s*{[\s,]*}\s*", text_left):
+        raise WiggleGraphIllegalPropertyValue(
+            f"Error for setting property in {properties_string} could not read all of it"
+        )
+
+    return True
+
+
 def parse_properties(properties_string: str) -> dict:
     """
     Parses the properties_string to WiggleGraph types.
     :param properties_string: The raw params string.
     :return: A dictionary ready for export.
     """
+    check_all_text_is_properties(properties_string)
+
     primitive_property_dictionary = dict()
     if props_primitive := ALL_PROPERTIES_KEY_VALUE_REGEX.finditer(properties_string):
         for match in props_primitive:
@@ -44,6 +63,11 @@ def parse_properties(properties_string: str) -> dict:
             except WiggleGraphIllegalPropertyValue as e:
                 raise e
 
+            if make_primitive_property.property_name in primitive_property_dictionary:
+                raise WiggleGraphIllegalPropertyValue(
+                    f"{make_primitive_property.property_name} is set twice in {properties_string}"
+                )
+
             primitive_property_dictionary[
                 make_primitive_property.property_name
             ] = value_parsed
-- 
2.43.0


From 7ab5ce038c0c45ccf76697fc0a2bbd95be0bb98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:23 +0000
Subject: [PATCH 15/30] fix: white space inside empty curly brackets is allowed

---
 .../clauses/parsing_helpers/parse_statement_checks.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index 3d81f39..91e0817 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -90,7 +90,8 @@ def check_node_rel_properties(stmt_matches: list[str]) -> True:
 
             # remove the list from the params
             params_sans_list = PROPERTIES_LIST_VALUE_REGEX.sub("", param_match)
-            check_property_syntax(params_sans_list)
+            if params_sans_list.strip("{} \t\r\n"):
+                check_property_syntax(params_sans_list)
 
             # check lists
             if params_lists := PROPERTIES_LIST_VALUE_REGEX.findall(param_match):
-- 
2.43.0


From a06926189d2b73ece7ad6132135117d819b95ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:16 +0000
Subject: [PATCH 16/30] fix: reject a MAKE or FIND that cannot be read as a
 whole

---
 .../find/parse_find/parse_find_statement.py   | 10 ++---
 .../make/parse_make/parse_make_statement.py   | 10 ++---
 .../parsing_helpers/extract_patterns.py       | 43 +++++++++++++++++++
 3 files changed, 51 insertions(+), 12 deletions(-)
 create mode 100644 wiggle_query_language/clauses/parsing_helpers/extract_patterns.py

diff --git a/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py b/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py
index b9ee7c6..22fec35 100644
--- a/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py
+++ b/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py
@@ -2,15 +2,15 @@ from typing import Optional
 
 from exceptions.wql.clauses import MultipleClauseStatementsError
 from models.wql import Clause, ParsedFind, ParsedPattern
+from wiggle_query_language.clauses.parsing_helpers.extract_patterns import (
+    extract_patterns,
+)
 from wiggle_query_language.clauses.parsing_helpers.extract_statements import (
     extract_all_statements,
 )
 from wiggle_query_language.clauses.parsing_helpers.parse_statement_checks import (
     validate_statement,
 )
-from wiggle_query_language.clauses.regexes.patterns.patterns import (
-    NODES_RELS_PATTERN_REGEX,
-)
 
 
 def build_parsed_find(statement: str) -> ParsedFind:
@@ -19,9 +19,7 @@ def build_parsed_find(statement: str) -> ParsedFind:
     :param statement: The raw FIND statement.
     :return: A ParsedFind Object.
     """
-    parsed_pattern_dict = [
-        x.groupdict() for x in NODES_RELS_PATTERN_REGEX.finditer(statement) if x.group()
-    ]
+    parsed_pattern_dict = extract_patterns(statement, Clause.FIND)
     parsed_pattern = ParsedPattern(**parsed_pattern_dict[0])
 
     parsed_find = ParsedFind(
diff --git a/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py b/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py
index 4f2bd0d..ad32fa8 100644
--- a/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py
+++ b/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py
@@ -1,15 +1,15 @@
 from typing import Optional
 
 from models.wql import Clause, ParsedMake
+from wiggle_query_language.clauses.parsing_helpers.extract_patterns import (
+    extract_patterns,
+)
 from wiggle_query_language.clauses.parsing_helpers.extract_statements import (
     extract_all_statements,
 )
 from wiggle_query_language.clauses.parsing_helpers.parse_statement_checks import (
     validate_statement,
 )
-from wiggle_query_language.clauses.regexes.patterns.patterns import (
-    NODES_RELS_PATTERN_REGEX,
-)
 
 
 def build_parsed_make(statement: str) -> ParsedMake:
@@ -18,9 +18,7 @@ def build_parsed_make(statement: str) -> ParsedMake:
     :param statement: The raw make statement.
     :return: A ParsedMake Object.
     """
-    parsed_pattern_dict = [
-        x.groupdict() for x in NODES_RELS_PATTERN_REGEX.finditer(statement) if x.group()
-    ]
+    parsed_pattern_dict = extract_patterns(statement, Clause.MAKE)
 
     parsed_make = ParsedMake(
         raw_statement=statement, parsed_pattern_list=parsed_pattern_dict
diff --git a/wiggle_query_language/clauses/parsing_helpers/extract_patterns.py b/wiggle_query_language/clauses/parsing_helpers/extract_patterns.py
new file mode 100644
index 0000000..44ba77e
--- /dev/null
+++ b/wiggle_query_language/clauses/parsing_helpers/extract_patterns.py
@@ -0,0 +1,43 @@
+from re import IGNORECASE, fullmatch
+
+from exceptions.wql.parsing import ClauseSyntaxError
+from models.wql import Clause
+from wiggle_query_language.clauses.regexes.patterns.patterns import (
+    NODES_RELS_PATTERN_REGEX,
+)
+
+
+def extract_patterns(statement: str, clause: Clause) -> list[dict]:
+    """
+    Extracts the patterns of a MAKE/FIND statement, all of the statement must be read.
+    :param statement: The raw statement.
+    :param clause: The WQL clause.
+    :return: A list of the patterns.
+    """
+    text_left = NODES_RELS_PATTERN_REGEX.sub("", statement)
+    if not fullmatch(rf"\s*{clause.value}[\s,]*;\s*", text_left, flags=IGNORECASE):
+        raise ClauseSyntaxError(
+            f"Could not read all of the {clause.value} statement: ---> {statement} <---"
+        )
+
+    patterns = [
+        x.groupdict() for x in NODES_RELS_PATTERN_REGEX.finditer(statement) if x.group()
+    ]
+    # Each relationship must have a node on both of its sides
+    for pattern in patterns:
+        if not pattern["left_node"]:
+            raise ClauseSyntaxError(
+                f"A relationship is missing its left node: ---> {statement} <---"
+            )
+        if pattern["left_middle_rel"] and not pattern["middle_node"]:
+            raise ClauseSyntaxError(
+                f"A relationship is missing its right node: ---> {statement} <---"
+            )
+        if pattern["middle_right_rel"] and not (
+            pattern["middle_node"] and pattern["right_node"]
+        ):
+            raise ClauseSyntaxError(
+                f"A relationship is missing a node: ---> {statement} <---"
+            )
+
+    return patterns
-- 
2.43.0


From c234eaf1a0d89da90236c08de71f497ebbf600bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:19 +0000
Subject: [PATCH 17/30] fix: reject a FIND with illegal properties before the
 MAKE of the same query writes

---
 wiggle_shell/core/query/query.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wiggle_shell/core/query/query.py b/wiggle_shell/core/query/query.py
index 8c0f87b..f0ba6a5 100644
--- a/wiggle_shell/core/query/query.py
+++ b/wiggle_shell/core/query/query.py
@@ -11,6 +11,7 @@ from wiggle_query_language.clauses.find import (
     find,
     parse_find_statement_from_query_string,
 )
+from wiggle_query_language.clauses.find.transform.find_pre import process_parsed_find
 from wiggle_query_language.clauses.make import (
     make,
     parse_make_statement_from_query_string,
@@ -62,6 +63,13 @@ def parse_query_string(query_string: str) -> ParsedQuery:
 
 
 def execute_query(parsed_query: ParsedQuery, gdbms_file_path: GDBMSFilePath) -> bool:
+    # A FIND with an error must be rejected before the MAKE writes anything
+    if parsed_query.find_parsed:
+        process_parsed_find(
+            parsed_find=parsed_query.find_parsed,
+            parsed_criteria=parsed_query.criteria_parsed,
+        )
+
     if query_make := parsed_query.make_parsed:
         make(parsed_make_list=query_make, gdbms_file_path=gdbms_file_path)
 
-- 
2.43.0


From e6c77a243f40ad67842378d13da9ba75185cf06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 18/30] fix: a REPORT may only use handles of the FIND, and
 need not use them all

---
 .../find/parse_find/parse_find_statement.py   |  8 +++---
 .../parse_report/parse_report_statement.py    | 25 ++++++++++++++-----
 wiggle_shell/core/query/query.py              |  2 +-
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py b/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py
index 22fec35..a74cfbf 100644
--- a/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py
+++ b/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py
@@ -20,12 +20,14 @@ def build_parsed_find(statement: str) -> ParsedFind:
     :return: A ParsedFind Object.
     """
     parsed_pattern_dict = extract_patterns(statement, Clause.FIND)
-    parsed_pattern = ParsedPattern(**parsed_pattern_dict[0])
+    parsed_patterns = [ParsedPattern(**x) for x in parsed_pattern_dict]
 
     parsed_find = ParsedFind(
         raw_statement=statement,
-        parsed_pattern=parsed_pattern,
-        parsed_pattern_handles=parsed_pattern.pattern_handles,
+        parsed_pattern=parsed_patterns[0],
+        parsed_pattern_handles=set().union(
+            *[x.pattern_handles for x in parsed_patterns]
+        ),
     )
 
     return parsed_find
diff --git a/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py b/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py
index d171f6d..736f9e4 100644
--- a/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py
+++ b/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py
@@ -1,6 +1,8 @@
+from re import IGNORECASE, fullmatch, sub
 from typing import Optional
 
 from exceptions.wql.clauses import MultipleClauseStatementsError
+from exceptions.wql.parsing import ClauseSyntaxError
 from exceptions.wql.report import FindReportHandleMissmatch
 from models.wql import ParsedReport, Clause
 from wiggle_query_language.clauses.parsing_helpers.extract_statements import (
@@ -9,12 +11,23 @@ from wiggle_query_language.clauses.parsing_helpers.extract_statements import (
 
 
 def check_find_report_handles(find_handles: set[str], extracted_report: str) -> True:
-    if find_handles:
-        for find_handle in find_handles:
-            if find_handle not in extracted_report:
-                raise FindReportHandleMissmatch(
-                    f"FIND handle {find_handle} was not found not in the ---> {extracted_report} <---"
-                )
+    report_items = sub(r"^\s*report\b|;", "", extracted_report, flags=IGNORECASE)
+
+    for report_item in report_items.split(","):
+        item = report_item.strip()
+        if item == "*":
+            continue
+        # foo, foo.bar, wn(foo)
+        match = fullmatch(r"(\w+)(\s*\.\s*\w+)?|\w+\s*\(\s*(\w+)\s*\)", item)
+        if not match:
+            raise ClauseSyntaxError(
+                f"{item} was not recognised in the ---> {extracted_report} <---"
+            )
+        report_handle = match.group(1) or match.group(3)
+        if report_handle not in (find_handles or set()):
+            raise FindReportHandleMissmatch(
+                f"REPORT handle {report_handle} was not found in the FIND ---> {extracted_report} <---"
+            )
 
     return True
 
diff --git a/wiggle_shell/core/query/query.py b/wiggle_shell/core/query/query.py
index f0ba6a5..ff0ea1a 100644
--- a/wiggle_shell/core/query/query.py
+++ b/wiggle_shell/core/query/query.py
@@ -42,7 +42,7 @@ def parse_query_string(query_string: str) -> ParsedQuery:
 
     find_query_handles = None
     if find_parsed:
-        find_query_handles = find_parsed.parsed_pattern.pattern_handles
+        find_query_handles = find_parsed.parsed_pattern_handles
     report_parsed = parse_report_statement_from_query_string(
         query_string, find_handles=find_query_handles
     )
-- 
2.43.0


From ec32b547b9e1aa4d6bfaca374d86240de3a5d076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 19/30] fix: set created_at when the node or relationship is
 made

---
 models/wql/data/wiggle_metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/wql/data/wiggle_metadata.py b/models/wql/data/wiggle_metadata.py
index 67e3eba..09e3498 100644
--- a/models/wql/data/wiggle_metadata.py
+++ b/models/wql/data/wiggle_metadata.py
@@ -1,10 +1,10 @@
 from datetime import datetime
 from typing import Optional
 
-from pydantic import BaseModel
+from pydantic import BaseModel, Field
 
 
 class WiggleGraphMetalData(BaseModel):
     wn: int
-    created_at: float = datetime.now().timestamp()
+    created_at: float = Field(default_factory=lambda: datetime.now().timestamp())
     updated_at: Optional[float] = None
-- 
2.43.0


From 0335828dd26fdd292cfb695ab9982bdcede1263c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:49 +0000
Subject: [PATCH 20/30] fix: deleting a database removes only its own files

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index c4d0e89..cf68e98 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -1,5 +1,4 @@
 import os
-from glob import glob
 from pathlib import Path
 from string import ascii_uppercase
 from typing import Optional
@@ -172,10 +171,8 @@ def delete_gdbms(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -> int:
     if not db_path.is_dir():
         raise Exception()
 
-    files = glob(f"{db_path}/*")
-    if files:
-        for file in files:
-            os.remove(file)
+    for file in db_path.iterdir():
+        os.remove(file)
 
     db_path.rmdir()
 
-- 
2.43.0


From a5f6cff832c34387ed427493e048ff1632624072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:31 +0000
Subject: [PATCH 21/30] fix: refuse a database name that is not the name of a
 folder in the database folder

---
 .../core/select_gdbms/select_gdbms.py         | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index cf68e98..56d6347 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -19,6 +19,19 @@ from wiggle_shell.core.select_gdbms.select_wiggle_number_file import (
 )
 
 
+def get_gdbms_path(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -> Path:
+    """
+    Gets the folder of a DBMS, which is always directly inside the DBMS folder.
+    :param gdbms_name: The name of the DBMS.
+    :param path_to_dbms_dir: The directory of the DBMS folder.
+    :return: The path to the folder of the DBMS.
+    """
+    if gdbms_name in {"", ".", ".."} or {"/", os.sep, "\0"}.intersection(gdbms_name):
+        raise ValueError(f"{gdbms_name!r} cannot be used as the name of a database")
+
+    return path_to_dbms_dir.joinpath(gdbms_name)
+
+
 def list_existing_dbms(
     skips: Optional[set[str]] = None, path_to_dbms_dir: Path = DBMS_FOLDER
 ) -> list[str]:
@@ -93,6 +106,10 @@ def get_new_gdbms_file_paths(
     """
 
     try:
+        gdbms_path = get_gdbms_path(new_gdbms_name, path_to_dbms_dir)
+        if gdbms_path.is_dir() and any(gdbms_path.iterdir()):
+            raise ValueError(f"{new_gdbms_name} already exists")
+
         # todo cancel operation
         db_path = create_new_database(new_gdbms_name, path_to_dbms_dir)
         indexes_path = create_new_indexes_file(new_gdbms_name, path_to_dbms_dir)
@@ -166,7 +183,7 @@ def delete_gdbms(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -> int:
     :return: An integer.
     """
 
-    db_path = path_to_dbms_dir.joinpath(f"{gdbms_name}/")
+    db_path = get_gdbms_path(gdbms_name, path_to_dbms_dir)
 
     if not db_path.is_dir():
         raise Exception()
-- 
2.43.0


From df41176c6e79256c80f91e67ca1ef46cc2659617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 22/30] fix: select a database from the given folder, also
 before the folder exists

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index 56d6347..91ce61a 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -44,6 +44,9 @@ def list_existing_dbms(
 
     if not skips:
         skips = set()
+    if not path_to_dbms_dir.is_dir():
+        return []
+
     existing_databases = [
         x.name for x in path_to_dbms_dir.iterdir() if x.is_dir() and x.name not in skips
     ]
@@ -133,7 +136,7 @@ def get_existing_gdbms(path_to_gdbms_dir: Path = DBMS_FOLDER) -> GDBMSFilePath:
     """
     # todo test for this and break up
     while True:
-        choices = get_and_display_available_dbms()
+        choices = get_and_display_available_dbms(path_to_gdbms_dir)
 
         if not choices:
             print("There are no databases, please create a new database.")
-- 
2.43.0


From 867f2229c7bae3180f1b12a751dab709b8cf06a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 23/30] fix: run queries that contain the word help

---
 wiggle_shell/wiggleshell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_shell/wiggleshell.py b/wiggle_shell/wiggleshell.py
index 0a149d6..83dcc58 100644
--- a/wiggle_shell/wiggleshell.py
+++ b/wiggle_shell/wiggleshell.py
@@ -31,7 +31,7 @@ def start_wiggle_shell() -> None:
             print("Good Bye!")
             break
 
-        if "help" in query_string.lower():
+        if query_string.strip().lower() == "help":
             print("A helpful guide is on the way!\n")
             continue
 
-- 
2.43.0


From 87b6186468c3acb56385cdb30063c2b6fefde43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:35 +0000
Subject: [PATCH 24/30] fix: replace the files of a database as a whole, never
 write into them

---
 .../graph/database/database.py                | 34 +++++++++---------
 .../graph/database/indexes/index_helpers.py   | 25 +++++++------
 .../indexes/node_relationships_index.py       | 36 +++++++++----------
 .../graph/state/wiggle_number.py              |  4 +--
 .../graph/state/write_file.py                 | 24 +++++++++++++
 5 files changed, 71 insertions(+), 52 deletions(-)
 create mode 100644 wiggle_query_language/graph/state/write_file.py

diff --git a/wiggle_query_language/graph/database/database.py b/wiggle_query_language/graph/database/database.py
index 4ffe09b..4c6e077 100644
--- a/wiggle_query_language/graph/database/database.py
+++ b/wiggle_query_language/graph/database/database.py
@@ -1,4 +1,4 @@
-from json import dump, load
+from json import dumps, load
 from json.decoder import JSONDecodeError
 from pathlib import Path
 from typing import Any
@@ -6,6 +6,7 @@ from typing import Any
 from exceptions.wql.database import NodeExistsError
 from wiggle_graph_logger.graph_logger import graph_logger
 from testing import DATABASE_TEST_FILE_PATH
+from wiggle_query_language.graph.state.write_file import write_file
 
 DATABASE_SHAPE = dict[str, dict[str, Any]]
 
@@ -38,19 +39,19 @@ def add_item_to_database(
     :return: A bool.
     """
 
-    with open(database_file_path, "r+") as file_handle:
+    with open(database_file_path, "r") as file_handle:
         database = load(file_handle)
-        graph_logger.info("writing to db")
-        for wiggle_number_to_add, node in items_to_add.items():
-            if wiggle_number_to_add in database:
-                raise NodeExistsError(
-                    message=f"Node {wiggle_number_to_add} already exists did you mean to update"
-                )
-            else:
-                database[wiggle_number_to_add] = node
-
-        file_handle.seek(0)
-        dump(database, file_handle, indent=4)
+
+    graph_logger.info("writing to db")
+    for wiggle_number_to_add, node in items_to_add.items():
+        if wiggle_number_to_add in database:
+            raise NodeExistsError(
+                message=f"Node {wiggle_number_to_add} already exists did you mean to update"
+            )
+        else:
+            database[wiggle_number_to_add] = node
+
+    write_file(database_file_path, dumps(database, indent=4))
 
     graph_logger.info(
         f"Successfully added {len(items_to_add)} records to the database."
@@ -68,11 +69,8 @@ def wipe_database(database_file_path: Path, im_sure: bool = False) -> bool:
     """
     if im_sure:
         graph_logger.info("Dropping database")
-        with open(database_file_path, "w") as file_handle:
-            database = dict()
-            file_handle.seek(0)
-            dump(database, file_handle, indent=4)
-            file_handle.truncate()
+        database = dict()
+        write_file(database_file_path, dumps(database, indent=4))
 
         graph_logger.info("Database successfully dropped.")
         return True
diff --git a/wiggle_query_language/graph/database/indexes/index_helpers.py b/wiggle_query_language/graph/database/indexes/index_helpers.py
index d24b988..839c0f4 100644
--- a/wiggle_query_language/graph/database/indexes/index_helpers.py
+++ b/wiggle_query_language/graph/database/indexes/index_helpers.py
@@ -1,8 +1,9 @@
-from json import dump, load
+from json import dumps, load
 from json.decoder import JSONDecodeError
 from pathlib import Path
 
 from wiggle_graph_logger.graph_logger import graph_logger
+from wiggle_query_language.graph.state.write_file import write_file
 
 
 def add_items_set_to_index_by_name(
@@ -15,14 +16,13 @@ def add_items_set_to_index_by_name(
     :param index_name: The name of the index.
     :return: A bool.
     """
-    with open(indexes_file_path, "r+") as file_handle:
+    with open(indexes_file_path, "r") as file_handle:
         indexes_dict = load(file_handle)
-        node_label_indexes = set(indexes_dict[index_name])
-        updated_index = node_label_indexes.union(items_to_add)
-        file_handle.seek(0)
-        indexes_dict[index_name] = list(updated_index)
-        dump(indexes_dict, file_handle, indent=4)
-        file_handle.truncate()
+
+    node_label_indexes = set(indexes_dict[index_name])
+    updated_index = node_label_indexes.union(items_to_add)
+    indexes_dict[index_name] = list(updated_index)
+    write_file(indexes_file_path, dumps(indexes_dict, indent=4))
 
     return True
 
@@ -62,12 +62,11 @@ def wipe_index_set_by_name(
     """
     if im_sure:
         graph_logger.info(f"Dropping {index_name} indexes")
-        with open(indexes_file_path, "r+") as file_handle:
+        with open(indexes_file_path, "r") as file_handle:
             indexes_dict = load(file_handle)
-            indexes_dict[index_name] = []
-            file_handle.seek(0)
-            dump(indexes_dict, file_handle, indent=4)
-            file_handle.truncate()
+
+        indexes_dict[index_name] = []
+        write_file(indexes_file_path, dumps(indexes_dict, indent=4))
 
         graph_logger.info(f"{index_name} successfully dropped.")
         return True
diff --git a/wiggle_query_language/graph/database/indexes/node_relationships_index.py b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
index c1b72b3..972ed50 100644
--- a/wiggle_query_language/graph/database/indexes/node_relationships_index.py
+++ b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
@@ -1,10 +1,11 @@
-from json import dump, load
+from json import dumps, load
 from json.decoder import JSONDecodeError
 from pathlib import Path
 from typing import Optional
 
 from wiggle_graph_logger.graph_logger import graph_logger
 from wiggle_query_language.graph.database.indexes import NODE_RELATIONSHIPS_INDEX_NAME
+from wiggle_query_language.graph.state.write_file import write_file
 
 
 def json_to_dict(
@@ -27,23 +28,21 @@ def add_items_to_node_relationships_index(
     :return: A bool.
     """
 
-    with open(indexes_file_path, "r+") as file_handle:
+    with open(indexes_file_path, "r") as file_handle:
         indexes_dict = load(file_handle)
-        rel_indexes_dict = indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME]
 
-        for node_wn, new_rels_wn_set in items_to_add.items():
-            if node_wn in rel_indexes_dict:
-                existing_rels = set(rel_indexes_dict[node_wn])
-                new_set = existing_rels.union(new_rels_wn_set)
-                rel_indexes_dict[node_wn] = list(new_set)
-            else:
-                rel_indexes_dict[node_wn] = list(new_rels_wn_set)
+    rel_indexes_dict = indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME]
 
-        indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = rel_indexes_dict
+    for node_wn, new_rels_wn_set in items_to_add.items():
+        if node_wn in rel_indexes_dict:
+            existing_rels = set(rel_indexes_dict[node_wn])
+            new_set = existing_rels.union(new_rels_wn_set)
+            rel_indexes_dict[node_wn] = list(new_set)
+        else:
+            rel_indexes_dict[node_wn] = list(new_rels_wn_set)
 
-        file_handle.seek(0)
-        dump(indexes_dict, file_handle, indent=4)
-        file_handle.truncate()
+    indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = rel_indexes_dict
+    write_file(indexes_file_path, dumps(indexes_dict, indent=4))
 
     return True
 
@@ -85,12 +84,11 @@ def wipe_node_relationships_index(
     """
     if im_sure:
         graph_logger.info("Dropping relationship indexes")
-        with open(indexes_file_path, "r+") as file_handle:
+        with open(indexes_file_path, "r") as file_handle:
             indexes_dict = load(file_handle)
-            indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = {}
-            file_handle.seek(0)
-            dump(indexes_dict, file_handle, indent=4)
-            file_handle.truncate()
+
+        indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = {}
+        write_file(indexes_file_path, dumps(indexes_dict, indent=4))
 
         graph_logger.info("Relationship indexes successfully dropped.")
         return True
diff --git a/wiggle_query_language/graph/state/wiggle_number.py b/wiggle_query_language/graph/state/wiggle_number.py
index 5a99305..6d30c9f 100644
--- a/wiggle_query_language/graph/state/wiggle_number.py
+++ b/wiggle_query_language/graph/state/wiggle_number.py
@@ -2,6 +2,7 @@ from pathlib import Path
 
 from wiggle_graph_logger.graph_logger import graph_logger
 from testing import WIGGLE_NUMBER_TEST_FILE_PATH
+from wiggle_query_language.graph.state.write_file import write_file
 
 
 def get_current_wiggle_number(file_path: Path) -> int:
@@ -35,8 +36,7 @@ def update_wiggle_number(file_path: Path, new_wiggle_number: int) -> int:
     """
 
     graph_logger.debug("Updating state for WiggleNumber")
-    with open(file_path, "w") as file_handle:
-        file_handle.write(str(new_wiggle_number))
+    write_file(file_path, str(new_wiggle_number))
     graph_logger.debug("Successfully updated state for WiggleNumber")
     return new_wiggle_number
 
diff --git a/wiggle_query_language/graph/state/write_file.py b/wiggle_query_language/graph/state/write_file.py
new file mode 100644
index 0000000..2616213
--- /dev/null
+++ b/wiggle_query_language/graph/state/write_file.py
@@ -0,0 +1,24 @@
+from os import replace
+from pathlib import Path
+
+TEMPORARY_FILE_NAME = ".wiggle_graph.tmp"
+
+
+def write_file(file_path: Path, text: str) -> bool:
+    """
+    Writes a file as a whole, if that fails or is interrupted the old file is left as it was.
+    :param file_path: The file path to the file.
+    :param text: The new content of the file.
+    :return: A bool.
+    """
+    temporary_file_path = file_path.with_name(TEMPORARY_FILE_NAME)
+
+    try:
+        with open(temporary_file_path, "w") as file_handle:
+            file_handle.write(text)
+        replace(temporary_file_path, file_path)
+    except BaseException:
+        temporary_file_path.unlink(missing_ok=True)
+        raise
+
+    return True
-- 
2.43.0


From 69ae3baa603a83920280e18f02c6c0720c07f2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:39 +0000
Subject: [PATCH 25/30] fix: write the nodes of a MAKE last, after the number
 and the indexes

---
 wiggle_query_language/clauses/make/make.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/wiggle_query_language/clauses/make/make.py b/wiggle_query_language/clauses/make/make.py
index 8c827bd..3f6ce3c 100644
--- a/wiggle_query_language/clauses/make/make.py
+++ b/wiggle_query_language/clauses/make/make.py
@@ -171,11 +171,14 @@ def make(parsed_make_list: list[ParsedMake], gdbms_file_path: GDBMSFilePath) ->
     nodes_list = [make_nodes(emit_nodes) for emit_nodes in emit_nodes_list]
     nodes_list_flat = [item for sublist in nodes_list for item in sublist]
 
-    # Commit if only not errors
-    add_nodes_to_graph(
-        nodes_list=nodes_list_flat,
-        gdbms_file_path=gdbms_file_path,
+    # The nodes are written last, if anything before that fails then the numbers are
+    # not used again, and the indexes never miss anything that is on the graph.
+    # Update WiggleNumber
+    update_wiggle_number(
+        new_wiggle_number=current_wiggle_number,
+        file_path=gdbms_file_path.wiggle_number_file_path,
     )
+
     # Add Indexes
     add_indexes(
         nodes_list=nodes_list_flat,
@@ -183,10 +186,10 @@ def make(parsed_make_list: list[ParsedMake], gdbms_file_path: GDBMSFilePath) ->
         gdbms_file_path=gdbms_file_path,
     )
 
-    # Update WiggleNumber if no errors
-    update_wiggle_number(
-        new_wiggle_number=current_wiggle_number,
-        file_path=gdbms_file_path.wiggle_number_file_path,
+    # Commit
+    add_nodes_to_graph(
+        nodes_list=nodes_list_flat,
+        gdbms_file_path=gdbms_file_path,
     )
 
     return True
-- 
2.43.0


From 9da3650c62ee56ddb3b65a79073a6958c04354b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:34 +0000
Subject: [PATCH 26/30] fix: properties are separated by commas and are inside
 the curly brackets

---
 .../clauses/parsing_helpers/parse_properties.py            | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index e283bd5..48cd537 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -28,13 +28,14 @@ def get_property_dict(properties_string: str) -> Optional[dict]:
 
 def check_all_text_is_properties(properties_string: str) -> bool:
     """
-    Checks that there is nothing but properties in the properties string.
+    Checks that there is nothing but properties, separated by commas, in the properties string.
     :param properties_string: The raw params string.
     :return: True or raises and exception.
     """
-    text_left = ALL_PROPERTIES_KEY_VALUE_REGEX.sub("", properties_string)
+    # A ; ends a statement so it is never part of the properties
+    text_left = ALL_PROPERTIES_KEY_VALUE_REGEX.sub(";", properties_string)
 
-    if not fullmatch(r"\s*{[\s,]*}\s*", text_left):
+    if not fullmatch(r"\s*{\s*(?:;\s*(?:,\s*;\s*)*)?}\s*", text_left):
         raise WiggleGraphIllegalPropertyValue(
             f"Error for setting property in {properties_string} could not read all of it"
         )
-- 
2.43.0


From 51848deb72715dfc0e2b82dffde5c83199e64145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:15 +0000
Subject: [PATCH 27/30] fix: one MAKE at a time writes to a database, also from
 different processes

---
 .../graph/state/lock_database.py              | 22 +++++++++++++++++++
 wiggle_shell/core/query/query.py              |  5 ++++-
 2 files changed, 26 insertions(+), 1 deletion(-)
 create mode 100644 wiggle_query_language/graph/state/lock_database.py

diff --git a/wiggle_query_language/graph/state/lock_database.py b/wiggle_query_language/graph/state/lock_database.py
new file mode 100644
index 0000000..9f52f6f
--- /dev/null
+++ b/wiggle_query_language/graph/state/lock_database.py
@@ -0,0 +1,22 @@
+from contextlib import contextmanager
+from fcntl import LOCK_EX, flock
+from os import O_RDONLY, close, open
+from typing import Iterator
+
+from models.wigish import GDBMSFilePath
+
+
+@contextmanager
+def lock_database(gdbms_file_path: GDBMSFilePath) -> Iterator[None]:
+    """
+    Lets one query at a time write to a database, also when they come from different processes.
+    The lock ends with the process that has it.
+    :param gdbms_file_path: The path to the DBMS.
+    :return: None.
+    """
+    directory = open(gdbms_file_path.database_file_path.parent, O_RDONLY)
+    try:
+        flock(directory, LOCK_EX)
+        yield
+    finally:
+        close(directory)
diff --git a/wiggle_shell/core/query/query.py b/wiggle_shell/core/query/query.py
index ff0ea1a..517193f 100644
--- a/wiggle_shell/core/query/query.py
+++ b/wiggle_shell/core/query/query.py
@@ -23,6 +23,7 @@ from wiggle_query_language.clauses.report import (
     report,
     parse_report_statement_from_query_string,
 )
+from wiggle_query_language.graph.state.lock_database import lock_database
 
 #  todo docstrings
 
@@ -71,7 +72,9 @@ def execute_query(parsed_query: ParsedQuery, gdbms_file_path: GDBMSFilePath) ->
         )
 
     if query_make := parsed_query.make_parsed:
-        make(parsed_make_list=query_make, gdbms_file_path=gdbms_file_path)
+        # A MAKE reads what it adds to, nothing else may write in the meantime
+        with lock_database(gdbms_file_path):
+            make(parsed_make_list=query_make, gdbms_file_path=gdbms_file_path)
 
     if query_find := parsed_query.find_parsed:
         found = find(
-- 
2.43.0


From d48aa1272335342e9ca59b3f065314603ef9b001 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:26:12 +0000
Subject: [PATCH 28/30] fix: an interrupted creation of a database leaves no
 file half-written

---
 wiggle_shell/core/select_gdbms/select_database_file.py      | 6 ++----
 wiggle_shell/core/select_gdbms/select_index_file.py         | 6 ++----
 wiggle_shell/core/select_gdbms/select_wiggle_number_file.py | 6 ++----
 3 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/wiggle_shell/core/select_gdbms/select_database_file.py b/wiggle_shell/core/select_gdbms/select_database_file.py
index 5b868b1..df23dd3 100644
--- a/wiggle_shell/core/select_gdbms/select_database_file.py
+++ b/wiggle_shell/core/select_gdbms/select_database_file.py
@@ -1,6 +1,7 @@
 from json import dumps
 from pathlib import Path
 
+from wiggle_query_language.graph.state.write_file import write_file
 from wiggle_shell import DBMS_FOLDER
 
 
@@ -20,12 +21,9 @@ def create_new_database(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -
     if new_database_file_path.is_file():
         raise ValueError("A Database file already exists")
 
-    new_database_file_path.touch()
-
     new_db_dict = dict()
 
-    with open(new_database_file_path, "w") as file_handle:
-        file_handle.write(dumps(new_db_dict))
+    write_file(new_database_file_path, dumps(new_db_dict))
 
     return new_database_file_path
 
diff --git a/wiggle_shell/core/select_gdbms/select_index_file.py b/wiggle_shell/core/select_gdbms/select_index_file.py
index 462e898..85b419e 100644
--- a/wiggle_shell/core/select_gdbms/select_index_file.py
+++ b/wiggle_shell/core/select_gdbms/select_index_file.py
@@ -1,6 +1,7 @@
 from json import dumps
 from pathlib import Path
 
+from wiggle_query_language.graph.state.write_file import write_file
 from wiggle_shell import DBMS_FOLDER
 
 
@@ -22,16 +23,13 @@ def create_new_indexes_file(
     if new_indexes_file_path.is_file():
         raise ValueError("An Indexes file already exists")
 
-    new_indexes_file_path.touch()
-
     new_index_dict = {
         "node_relationships": {},
         "node_labels": [],
         "relationship_names": [],
     }
 
-    with open(new_indexes_file_path, "w") as file_handle:
-        file_handle.write(dumps(new_index_dict))
+    write_file(new_indexes_file_path, dumps(new_index_dict))
 
     return new_indexes_file_path
 
diff --git a/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py b/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
index 2dc51eb..06b39d9 100644
--- a/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
+++ b/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
@@ -1,6 +1,7 @@
 from pathlib import Path
 
 from project_root import get_project_root
+from wiggle_query_language.graph.state.write_file import write_file
 
 DBMS_FOLDER = Path(f"{get_project_root()}/dbms/")
 INPUT_PROMPT_SPACING = " " * 5
@@ -22,10 +23,7 @@ def create_new_wiggle_number_file(
     if new_wn_state_file_path.is_file():
         raise ValueError("A WiggleNUmber file already exists")
 
-    new_wn_state_file_path.touch()
-
-    with open(new_wn_state_file_path, "w") as file:
-        file.write("0")
+    write_file(new_wn_state_file_path, "0")
 
     return new_wn_state_file_path
 
-- 
2.43.0


From 840fe8cb6cd3673d92ea6ba4d11c652dfe2fd84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:21 +0000
Subject: [PATCH 29/30] fix: create and delete databases one at a time, also
 from different processes

---
 .../graph/state/lock_database.py              | 37 +++++++++++++------
 .../core/select_gdbms/select_gdbms.py         | 24 +++++++-----
 2 files changed, 40 insertions(+), 21 deletions(-)

diff --git a/wiggle_query_language/graph/state/lock_database.py b/wiggle_query_language/graph/state/lock_database.py
index 9f52f6f..6295529 100644
--- a/wiggle_query_language/graph/state/lock_database.py
+++ b/wiggle_query_language/graph/state/lock_database.py
@@ -1,22 +1,37 @@
 from contextlib import contextmanager
 from fcntl import LOCK_EX, flock
-from os import O_RDONLY, close, open
-from typing import Iterator
+from os import O_RDONLY, close, fstat, open, stat
+from os.path import samestat
+from pathlib import Path
+from typing import ContextManager, Iterator
 
 from models.wigish import GDBMSFilePath
 
 
 @contextmanager
-def lock_database(gdbms_file_path: GDBMSFilePath) -> Iterator[None]:
+def lock_folder(folder: Path) -> Iterator[None]:
     """
-    Lets one query at a time write to a database, also when they come from different processes.
+    Lets one process at a time change what is in a folder.
     The lock ends with the process that has it.
-    :param gdbms_file_path: The path to the DBMS.
+    :param folder: The folder.
     :return: None.
     """
-    directory = open(gdbms_file_path.database_file_path.parent, O_RDONLY)
-    try:
-        flock(directory, LOCK_EX)
-        yield
-    finally:
-        close(directory)
+    while True:
+        directory = open(folder, O_RDONLY)
+        try:
+            flock(directory, LOCK_EX)
+            # While waiting the folder may have been deleted and made again
+            if samestat(fstat(directory), stat(folder)):
+                yield
+                return
+        finally:
+            close(directory)
+
+
+def lock_database(gdbms_file_path: GDBMSFilePath) -> ContextManager[None]:
+    """
+    Lets one query at a time write to a database, also when they come from different processes.
+    :param gdbms_file_path: The path to the DBMS.
+    :return: A context manager.
+    """
+    return lock_folder(gdbms_file_path.database_file_path.parent)
diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index 91ce61a..5f15480 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -4,6 +4,7 @@ from string import ascii_uppercase
 from typing import Optional
 
 from models.wigish import GDBMSFilePath
+from wiggle_query_language.graph.state.lock_database import lock_folder
 from wiggle_shell import DBMS_FOLDER, INPUT_PROMPT_SPACING
 from wiggle_shell.core.select_gdbms.select_database_file import (
     create_new_database,
@@ -110,13 +111,15 @@ def get_new_gdbms_file_paths(
 
     try:
         gdbms_path = get_gdbms_path(new_gdbms_name, path_to_dbms_dir)
-        if gdbms_path.is_dir() and any(gdbms_path.iterdir()):
-            raise ValueError(f"{new_gdbms_name} already exists")
-
-        # todo cancel operation
-        db_path = create_new_database(new_gdbms_name, path_to_dbms_dir)
-        indexes_path = create_new_indexes_file(new_gdbms_name, path_to_dbms_dir)
-        wn_path = create_new_wiggle_number_file(new_gdbms_name, path_to_dbms_dir)
+        path_to_dbms_dir.mkdir(parents=True, exist_ok=True)
+        with lock_folder(path_to_dbms_dir):
+            if gdbms_path.is_dir() and any(gdbms_path.iterdir()):
+                raise ValueError(f"{new_gdbms_name} already exists")
+
+            # todo cancel operation
+            db_path = create_new_database(new_gdbms_name, path_to_dbms_dir)
+            indexes_path = create_new_indexes_file(new_gdbms_name, path_to_dbms_dir)
+            wn_path = create_new_wiggle_number_file(new_gdbms_name, path_to_dbms_dir)
         print(f"Using {new_gdbms_name}")
         return GDBMSFilePath(
             database_file_path=db_path,
@@ -191,10 +194,11 @@ def delete_gdbms(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -> int:
     if not db_path.is_dir():
         raise Exception()
 
-    for file in db_path.iterdir():
-        os.remove(file)
+    with lock_folder(path_to_dbms_dir), lock_folder(db_path):
+        for file in db_path.iterdir():
+            os.remove(file)
 
-    db_path.rmdir()
+        db_path.rmdir()
 
     return 0
 
-- 
2.43.0


From 92fc001bd02820177cb69714a885f9993e5f915e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:26 +0000
Subject: [PATCH 30/30] fix: criteria for a handle without written properties
 are taken into the search request

---
 wiggle_query_language/clauses/find/transform/find_pre.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/find/transform/find_pre.py b/wiggle_query_language/clauses/find/transform/find_pre.py
index 20afbfe..4f18dbc 100644
--- a/wiggle_query_language/clauses/find/transform/find_pre.py
+++ b/wiggle_query_language/clauses/find/transform/find_pre.py
@@ -31,7 +31,11 @@ def add_criteria_yes_no_props(
 
     if criteria := criteria.criteria_handle_props.get(handle, None):
         if props_dict_yes := criteria.props_dict_yes_match:
-            find_pre_model.props_dict_yes.update(props_dict_yes)
+            # Without any written properties there is no dict to update
+            find_pre_model.props_dict_yes = {
+                **(find_pre_model.props_dict_yes or {}),
+                **props_dict_yes,
+            }
         # no
         if props_dict_no := criteria.props_dict_no_match:
             find_pre_model.props_dict_no.update(props_dict_no)
-- 
2.43.0

