From 8d6b749b236f6c71dc80006e3c70872fca25aa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 01/36] fix: AST nodes compare equal to themselves

---
 src/mizugaki/ast/common/sort_element.cpp                    | 2 +-
 src/mizugaki/ast/common/target_element.cpp                  | 2 +-
 src/mizugaki/ast/query/binary_expression.cpp                | 2 +-
 src/mizugaki/ast/query/corresponding_clause.cpp             | 2 +-
 src/mizugaki/ast/query/group_by_clause.cpp                  | 2 +-
 src/mizugaki/ast/query/grouping_column.cpp                  | 2 +-
 src/mizugaki/ast/query/query.cpp                            | 2 +-
 src/mizugaki/ast/query/select_asterisk.cpp                  | 2 +-
 src/mizugaki/ast/query/select_column.cpp                    | 2 +-
 src/mizugaki/ast/query/table_reference.cpp                  | 2 +-
 src/mizugaki/ast/query/table_value_constructor.cpp          | 2 +-
 src/mizugaki/ast/query/with_element.cpp                     | 2 +-
 src/mizugaki/ast/query/with_expression.cpp                  | 2 +-
 src/mizugaki/ast/scalar/between_predicate.cpp               | 2 +-
 src/mizugaki/ast/scalar/binary_expression.cpp               | 2 +-
 src/mizugaki/ast/scalar/builtin_function_invocation.cpp     | 2 +-
 src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp | 2 +-
 src/mizugaki/ast/scalar/case_expression.cpp                 | 2 +-
 src/mizugaki/ast/scalar/case_when_clause.cpp                | 2 +-
 src/mizugaki/ast/scalar/cast_expression.cpp                 | 2 +-
 src/mizugaki/ast/scalar/comparison_predicate.cpp            | 2 +-
 src/mizugaki/ast/scalar/current_of_cursor.cpp               | 2 +-
 src/mizugaki/ast/scalar/extract_expression.cpp              | 2 +-
 src/mizugaki/ast/scalar/field_reference.cpp                 | 2 +-
 src/mizugaki/ast/scalar/function_invocation.cpp             | 2 +-
 src/mizugaki/ast/scalar/host_parameter_reference.cpp        | 2 +-
 src/mizugaki/ast/scalar/in_predicate.cpp                    | 2 +-
 src/mizugaki/ast/scalar/literal_expression.cpp              | 2 +-
 src/mizugaki/ast/scalar/method_invocation.cpp               | 2 +-
 src/mizugaki/ast/scalar/new_invocation.cpp                  | 2 +-
 src/mizugaki/ast/scalar/pattern_match_predicate.cpp         | 2 +-
 src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp | 2 +-
 src/mizugaki/ast/scalar/static_method_invocation.cpp        | 2 +-
 src/mizugaki/ast/scalar/subquery.cpp                        | 2 +-
 src/mizugaki/ast/scalar/table_predicate.cpp                 | 2 +-
 src/mizugaki/ast/scalar/trim_expression.cpp                 | 2 +-
 src/mizugaki/ast/scalar/unary_expression.cpp                | 2 +-
 src/mizugaki/ast/scalar/value_constructor.cpp               | 2 +-
 src/mizugaki/ast/scalar/variable_reference.cpp              | 2 +-
 src/mizugaki/ast/statement/column_constraint_definition.cpp | 2 +-
 src/mizugaki/ast/statement/privilege_action.cpp             | 2 +-
 src/mizugaki/ast/statement/privilege_object.cpp             | 2 +-
 src/mizugaki/ast/statement/privilege_user.cpp               | 2 +-
 src/mizugaki/ast/statement/set_element.cpp                  | 2 +-
 src/mizugaki/ast/statement/storage_parameter.cpp            | 2 +-
 src/mizugaki/ast/table/join_columns.cpp                     | 2 +-
 src/mizugaki/ast/table/join_condition.cpp                   | 2 +-
 src/mizugaki/ast/type/field_definition.cpp                  | 2 +-
 src/mizugaki/ast/type/row.cpp                               | 2 +-
 src/mizugaki/ast/type/user_defined.cpp                      | 2 +-
 50 files changed, 50 insertions(+), 50 deletions(-)

diff --git a/src/mizugaki/ast/common/sort_element.cpp b/src/mizugaki/ast/common/sort_element.cpp
index 4c4a8fa..dd25228 100644
--- a/src/mizugaki/ast/common/sort_element.cpp
+++ b/src/mizugaki/ast/common/sort_element.cpp
@@ -140,7 +140,7 @@ std::optional<sort_element::null_location_type> const& sort_element::null_locati
 
 bool operator==(sort_element const& a, sort_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.key_, *b.key_)
         && eq(*a.collation_, *b.collation_)
diff --git a/src/mizugaki/ast/common/target_element.cpp b/src/mizugaki/ast/common/target_element.cpp
index 4e78f26..a9e387d 100644
--- a/src/mizugaki/ast/common/target_element.cpp
+++ b/src/mizugaki/ast/common/target_element.cpp
@@ -51,7 +51,7 @@ std::unique_ptr<name::simple> const& target_element::indicator() const noexcept
 
 bool operator==(target_element const& a, target_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.target_, *b.target_)
             && eq(*a.indicator_, *b.indicator_);
diff --git a/src/mizugaki/ast/query/binary_expression.cpp b/src/mizugaki/ast/query/binary_expression.cpp
index bb64049..e99ddec 100644
--- a/src/mizugaki/ast/query/binary_expression.cpp
+++ b/src/mizugaki/ast/query/binary_expression.cpp
@@ -147,7 +147,7 @@ std::optional<binary_expression::corresponding_type> const& binary_expression::c
 
 bool operator==(binary_expression const& a, binary_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/query/corresponding_clause.cpp b/src/mizugaki/ast/query/corresponding_clause.cpp
index b951795..4d733a1 100644
--- a/src/mizugaki/ast/query/corresponding_clause.cpp
+++ b/src/mizugaki/ast/query/corresponding_clause.cpp
@@ -51,7 +51,7 @@ std::vector<std::unique_ptr<name::simple>> const& corresponding_clause::column_n
 
 bool operator==(corresponding_clause const& a, corresponding_clause const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.column_names_, *b.column_names_);
 }
diff --git a/src/mizugaki/ast/query/group_by_clause.cpp b/src/mizugaki/ast/query/group_by_clause.cpp
index 8fba22e..b1f97fc 100644
--- a/src/mizugaki/ast/query/group_by_clause.cpp
+++ b/src/mizugaki/ast/query/group_by_clause.cpp
@@ -50,7 +50,7 @@ std::vector<std::unique_ptr<group_by_clause::element_type>> const& group_by_clau
 
 bool operator==(group_by_clause const& a, group_by_clause const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.elements_, *b.elements_);
 }
diff --git a/src/mizugaki/ast/query/grouping_column.cpp b/src/mizugaki/ast/query/grouping_column.cpp
index 8022dce..d9148ee 100644
--- a/src/mizugaki/ast/query/grouping_column.cpp
+++ b/src/mizugaki/ast/query/grouping_column.cpp
@@ -94,7 +94,7 @@ std::unique_ptr<name::name> const& grouping_column::collation() const noexcept {
 
 bool operator==(grouping_column const& a, grouping_column const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.column_, b.column_)
             && eq(a.collation_, b.collation_);
diff --git a/src/mizugaki/ast/query/query.cpp b/src/mizugaki/ast/query/query.cpp
index 8a01ca6..2d978b9 100644
--- a/src/mizugaki/ast/query/query.cpp
+++ b/src/mizugaki/ast/query/query.cpp
@@ -186,7 +186,7 @@ std::optional<query::quantifier_type> const& query::quantifier() const noexcept
 
 bool operator==(query const& a, query const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_)
             && eq(a.from_, b.from_)
diff --git a/src/mizugaki/ast/query/select_asterisk.cpp b/src/mizugaki/ast/query/select_asterisk.cpp
index d69e0b3..a5ce134 100644
--- a/src/mizugaki/ast/query/select_asterisk.cpp
+++ b/src/mizugaki/ast/query/select_asterisk.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<scalar::expression> const& select_asterisk::qualifier() const no
 
 bool operator==(select_asterisk const& a, select_asterisk const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.qualifier_, b.qualifier_);
 }
diff --git a/src/mizugaki/ast/query/select_column.cpp b/src/mizugaki/ast/query/select_column.cpp
index 492ef8c..e5a5ca9 100644
--- a/src/mizugaki/ast/query/select_column.cpp
+++ b/src/mizugaki/ast/query/select_column.cpp
@@ -77,7 +77,7 @@ std::unique_ptr<name::simple> const& select_column::name() const noexcept {
 
 bool operator==(select_column const& a, select_column const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.value_, b.value_)
             && eq(a.name_, b.name_);
diff --git a/src/mizugaki/ast/query/table_reference.cpp b/src/mizugaki/ast/query/table_reference.cpp
index 6046c39..7cbad8e 100644
--- a/src/mizugaki/ast/query/table_reference.cpp
+++ b/src/mizugaki/ast/query/table_reference.cpp
@@ -63,7 +63,7 @@ std::unique_ptr<name::name> const& table_reference::name() const noexcept {
 
 bool operator==(table_reference const& a, table_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/query/table_value_constructor.cpp b/src/mizugaki/ast/query/table_value_constructor.cpp
index 42389fb..d7933db 100644
--- a/src/mizugaki/ast/query/table_value_constructor.cpp
+++ b/src/mizugaki/ast/query/table_value_constructor.cpp
@@ -62,7 +62,7 @@ std::vector<std::unique_ptr<scalar::expression>> const& table_value_constructor:
 
 bool operator==(table_value_constructor const& a, table_value_constructor const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_);
 }
diff --git a/src/mizugaki/ast/query/with_element.cpp b/src/mizugaki/ast/query/with_element.cpp
index 70e8d86..bf1a26a 100644
--- a/src/mizugaki/ast/query/with_element.cpp
+++ b/src/mizugaki/ast/query/with_element.cpp
@@ -92,7 +92,7 @@ std::vector<std::unique_ptr<name::simple>> const& with_element::column_names() c
 
 bool operator==(with_element const& a, with_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
             && eq(*a.expression_, *b.expression_)
diff --git a/src/mizugaki/ast/query/with_expression.cpp b/src/mizugaki/ast/query/with_expression.cpp
index ac31a18..5aeb7a4 100644
--- a/src/mizugaki/ast/query/with_expression.cpp
+++ b/src/mizugaki/ast/query/with_expression.cpp
@@ -104,7 +104,7 @@ with_expression::bool_type const& with_expression::is_recursive() const noexcept
 
 bool operator==(with_expression const& a, with_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_)
             && eq(a.expression_, b.expression_)
diff --git a/src/mizugaki/ast/scalar/between_predicate.cpp b/src/mizugaki/ast/scalar/between_predicate.cpp
index 9bac591..a53e283 100644
--- a/src/mizugaki/ast/scalar/between_predicate.cpp
+++ b/src/mizugaki/ast/scalar/between_predicate.cpp
@@ -120,7 +120,7 @@ between_predicate::bool_type const& between_predicate::is_not() const noexcept {
 
 bool operator==(between_predicate const& a, between_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.target_, b.target_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/binary_expression.cpp b/src/mizugaki/ast/scalar/binary_expression.cpp
index 55dc4f0..38061f2 100644
--- a/src/mizugaki/ast/scalar/binary_expression.cpp
+++ b/src/mizugaki/ast/scalar/binary_expression.cpp
@@ -90,7 +90,7 @@ expression::operand_type const& binary_expression::right() const noexcept {
 
 bool operator==(binary_expression const& a, binary_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/builtin_function_invocation.cpp b/src/mizugaki/ast/scalar/builtin_function_invocation.cpp
index c7c34a1..21a19ba 100644
--- a/src/mizugaki/ast/scalar/builtin_function_invocation.cpp
+++ b/src/mizugaki/ast/scalar/builtin_function_invocation.cpp
@@ -77,7 +77,7 @@ std::vector<expression::operand_type> const& builtin_function_invocation::argume
 
 bool operator==(builtin_function_invocation const& a, builtin_function_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.function_, b.function_)
             && eq(a.arguments_, b.arguments_);
diff --git a/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp b/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp
index 0af9940..b3ed382 100644
--- a/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp
+++ b/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp
@@ -90,7 +90,7 @@ std::vector<expression::operand_type> const& builtin_set_function_invocation::ar
 
 bool operator==(builtin_set_function_invocation const& a, builtin_set_function_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.function_, b.function_)
             && eq(a.quantifier_, b.quantifier_)
diff --git a/src/mizugaki/ast/scalar/case_expression.cpp b/src/mizugaki/ast/scalar/case_expression.cpp
index 0fa33f3..2f87a0f 100644
--- a/src/mizugaki/ast/scalar/case_expression.cpp
+++ b/src/mizugaki/ast/scalar/case_expression.cpp
@@ -107,7 +107,7 @@ expression::operand_type const& case_expression::default_result() const noexcept
 
 bool operator==(case_expression const& a, case_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operand_, b.operand_)
             && eq(a.when_clauses_, b.when_clauses_)
diff --git a/src/mizugaki/ast/scalar/case_when_clause.cpp b/src/mizugaki/ast/scalar/case_when_clause.cpp
index 50fe752..4bc9a5f 100644
--- a/src/mizugaki/ast/scalar/case_when_clause.cpp
+++ b/src/mizugaki/ast/scalar/case_when_clause.cpp
@@ -64,7 +64,7 @@ expression::operand_type const& case_when_clause::result() const noexcept {
 
 bool operator==(case_when_clause const& a, case_when_clause const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.when_, *b.when_)
             && eq(*a.result_, *b.result_);
diff --git a/src/mizugaki/ast/scalar/cast_expression.cpp b/src/mizugaki/ast/scalar/cast_expression.cpp
index cadc5b0..36ec4fb 100644
--- a/src/mizugaki/ast/scalar/cast_expression.cpp
+++ b/src/mizugaki/ast/scalar/cast_expression.cpp
@@ -92,7 +92,7 @@ std::unique_ptr<type::type> const& cast_expression::type() const noexcept {
 
 bool operator==(cast_expression const& a, cast_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.operand_, b.operand_)
diff --git a/src/mizugaki/ast/scalar/comparison_predicate.cpp b/src/mizugaki/ast/scalar/comparison_predicate.cpp
index d86fb0e..6f82526 100644
--- a/src/mizugaki/ast/scalar/comparison_predicate.cpp
+++ b/src/mizugaki/ast/scalar/comparison_predicate.cpp
@@ -90,7 +90,7 @@ expression::operand_type const& comparison_predicate::right() const noexcept {
 
 bool operator==(comparison_predicate const& a, comparison_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/current_of_cursor.cpp b/src/mizugaki/ast/scalar/current_of_cursor.cpp
index 7121cc1..297081a 100644
--- a/src/mizugaki/ast/scalar/current_of_cursor.cpp
+++ b/src/mizugaki/ast/scalar/current_of_cursor.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::name> const& current_of_cursor::name() const noexcept {
 
 bool operator==(current_of_cursor const& a, current_of_cursor const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/scalar/extract_expression.cpp b/src/mizugaki/ast/scalar/extract_expression.cpp
index 75ee965..9df2687 100644
--- a/src/mizugaki/ast/scalar/extract_expression.cpp
+++ b/src/mizugaki/ast/scalar/extract_expression.cpp
@@ -114,7 +114,7 @@ expression::operand_type const& extract_expression::operand() const noexcept {
 
 bool operator==(extract_expression const& a, extract_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.field_, b.field_)
         && eq(a.subsecond_digits_, b.subsecond_digits_)
diff --git a/src/mizugaki/ast/scalar/field_reference.cpp b/src/mizugaki/ast/scalar/field_reference.cpp
index 44ec9a4..ae7e42f 100644
--- a/src/mizugaki/ast/scalar/field_reference.cpp
+++ b/src/mizugaki/ast/scalar/field_reference.cpp
@@ -92,7 +92,7 @@ std::unique_ptr<name::simple> const& field_reference::name() const noexcept {
 
 bool operator==(field_reference const& a, field_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.value_, b.value_)
diff --git a/src/mizugaki/ast/scalar/function_invocation.cpp b/src/mizugaki/ast/scalar/function_invocation.cpp
index 0a244cc..d4ba50c 100644
--- a/src/mizugaki/ast/scalar/function_invocation.cpp
+++ b/src/mizugaki/ast/scalar/function_invocation.cpp
@@ -80,7 +80,7 @@ std::vector<expression::operand_type> const& function_invocation::arguments() co
 
 bool operator==(function_invocation const& a, function_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_)
             && eq(a.arguments_, b.arguments_);
diff --git a/src/mizugaki/ast/scalar/host_parameter_reference.cpp b/src/mizugaki/ast/scalar/host_parameter_reference.cpp
index 98cd768..0fa7e67 100644
--- a/src/mizugaki/ast/scalar/host_parameter_reference.cpp
+++ b/src/mizugaki/ast/scalar/host_parameter_reference.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::simple> const& host_parameter_reference::name() const noex
 
 bool operator==(host_parameter_reference const& a, host_parameter_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/scalar/in_predicate.cpp b/src/mizugaki/ast/scalar/in_predicate.cpp
index 3c83697..4eea60f 100644
--- a/src/mizugaki/ast/scalar/in_predicate.cpp
+++ b/src/mizugaki/ast/scalar/in_predicate.cpp
@@ -90,7 +90,7 @@ in_predicate::bool_type const& in_predicate::is_not() const noexcept {
 
 bool operator==(in_predicate const& a, in_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.left_, b.left_)
             && eq(a.right_, b.right_)
diff --git a/src/mizugaki/ast/scalar/literal_expression.cpp b/src/mizugaki/ast/scalar/literal_expression.cpp
index af83788..60668b9 100644
--- a/src/mizugaki/ast/scalar/literal_expression.cpp
+++ b/src/mizugaki/ast/scalar/literal_expression.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<literal::literal> const& literal_expression::value() const noexc
 
 bool operator==(literal_expression const& a, literal_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.value_, b.value_);
 }
diff --git a/src/mizugaki/ast/scalar/method_invocation.cpp b/src/mizugaki/ast/scalar/method_invocation.cpp
index 60203bd..3bc6eb9 100644
--- a/src/mizugaki/ast/scalar/method_invocation.cpp
+++ b/src/mizugaki/ast/scalar/method_invocation.cpp
@@ -107,7 +107,7 @@ std::vector<expression::operand_type> const& method_invocation::arguments() cons
 
 bool operator==(method_invocation const& a, method_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.value_, b.value_)
diff --git a/src/mizugaki/ast/scalar/new_invocation.cpp b/src/mizugaki/ast/scalar/new_invocation.cpp
index 951c379..36c12d6 100644
--- a/src/mizugaki/ast/scalar/new_invocation.cpp
+++ b/src/mizugaki/ast/scalar/new_invocation.cpp
@@ -79,7 +79,7 @@ std::vector<expression::operand_type> const& new_invocation::arguments() const n
 
 bool operator==(new_invocation const& a, new_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.type_, b.type_)
             && eq(a.arguments_, b.arguments_);
diff --git a/src/mizugaki/ast/scalar/pattern_match_predicate.cpp b/src/mizugaki/ast/scalar/pattern_match_predicate.cpp
index cf475c3..10d88b0 100644
--- a/src/mizugaki/ast/scalar/pattern_match_predicate.cpp
+++ b/src/mizugaki/ast/scalar/pattern_match_predicate.cpp
@@ -119,7 +119,7 @@ pattern_match_predicate::bool_type const& pattern_match_predicate::is_not() cons
 
 bool operator==(pattern_match_predicate const& a, pattern_match_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.match_value_, b.match_value_)
diff --git a/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp b/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp
index 07dc504..65f4079 100644
--- a/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp
+++ b/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp
@@ -104,7 +104,7 @@ std::unique_ptr<query::expression> const& quantified_comparison_predicate::right
 
 bool operator==(quantified_comparison_predicate const& a, quantified_comparison_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/static_method_invocation.cpp b/src/mizugaki/ast/scalar/static_method_invocation.cpp
index 88a89ac..3533f2b 100644
--- a/src/mizugaki/ast/scalar/static_method_invocation.cpp
+++ b/src/mizugaki/ast/scalar/static_method_invocation.cpp
@@ -93,7 +93,7 @@ std::vector<expression::operand_type> const& static_method_invocation::arguments
 
 bool operator==(static_method_invocation const& a, static_method_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.type_, b.type_)
             && eq(a.name_, b.name_)
diff --git a/src/mizugaki/ast/scalar/subquery.cpp b/src/mizugaki/ast/scalar/subquery.cpp
index 7b17d24..31a443b 100644
--- a/src/mizugaki/ast/scalar/subquery.cpp
+++ b/src/mizugaki/ast/scalar/subquery.cpp
@@ -76,7 +76,7 @@ subquery::context_kind_type const& subquery::context_kind() const noexcept {
 
 bool operator==(subquery const& a, subquery const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.query_, b.query_) && a.context_kind_ == b.context_kind_;
 }
diff --git a/src/mizugaki/ast/scalar/table_predicate.cpp b/src/mizugaki/ast/scalar/table_predicate.cpp
index 02a3348..ab6c8f1 100644
--- a/src/mizugaki/ast/scalar/table_predicate.cpp
+++ b/src/mizugaki/ast/scalar/table_predicate.cpp
@@ -76,7 +76,7 @@ std::unique_ptr<query::expression> const& table_predicate::operand() const noexc
 
 bool operator==(table_predicate const& a, table_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.operand_, b.operand_);
diff --git a/src/mizugaki/ast/scalar/trim_expression.cpp b/src/mizugaki/ast/scalar/trim_expression.cpp
index f953adb..beda913 100644
--- a/src/mizugaki/ast/scalar/trim_expression.cpp
+++ b/src/mizugaki/ast/scalar/trim_expression.cpp
@@ -91,7 +91,7 @@ expression::operand_type const& trim_expression::source() const noexcept {
 
 bool operator==(trim_expression const& a, trim_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.specification_, b.specification_)
             && eq(a.character_, b.character_)
diff --git a/src/mizugaki/ast/scalar/unary_expression.cpp b/src/mizugaki/ast/scalar/unary_expression.cpp
index 79ffe1d..b0ffd6b 100644
--- a/src/mizugaki/ast/scalar/unary_expression.cpp
+++ b/src/mizugaki/ast/scalar/unary_expression.cpp
@@ -76,7 +76,7 @@ expression::operand_type const& unary_expression::operand() const noexcept {
 
 bool operator==(unary_expression const& a, unary_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.operand_, b.operand_);
diff --git a/src/mizugaki/ast/scalar/value_constructor.cpp b/src/mizugaki/ast/scalar/value_constructor.cpp
index 240dde1..b747232 100644
--- a/src/mizugaki/ast/scalar/value_constructor.cpp
+++ b/src/mizugaki/ast/scalar/value_constructor.cpp
@@ -86,7 +86,7 @@ std::vector<expression::operand_type> const& value_constructor::elements() const
 
 bool operator==(value_constructor const& a, value_constructor const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.elements_, b.elements_);
diff --git a/src/mizugaki/ast/scalar/variable_reference.cpp b/src/mizugaki/ast/scalar/variable_reference.cpp
index 6bac267..c2d715b 100644
--- a/src/mizugaki/ast/scalar/variable_reference.cpp
+++ b/src/mizugaki/ast/scalar/variable_reference.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::name> const& variable_reference::name() const noexcept {
 
 bool operator==(variable_reference const& a, variable_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/statement/column_constraint_definition.cpp b/src/mizugaki/ast/statement/column_constraint_definition.cpp
index af808c1..5893394 100644
--- a/src/mizugaki/ast/statement/column_constraint_definition.cpp
+++ b/src/mizugaki/ast/statement/column_constraint_definition.cpp
@@ -63,7 +63,7 @@ std::unique_ptr<constraint> const& column_constraint_definition::body() const no
 
 bool operator==(column_constraint_definition const& a, column_constraint_definition const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
             && eq(*a.body_, *b.body_);
diff --git a/src/mizugaki/ast/statement/privilege_action.cpp b/src/mizugaki/ast/statement/privilege_action.cpp
index fd0bfd5..38aecb4 100644
--- a/src/mizugaki/ast/statement/privilege_action.cpp
+++ b/src/mizugaki/ast/statement/privilege_action.cpp
@@ -40,7 +40,7 @@ privilege_action::action_kind_type const& privilege_action::action_kind() const
 
 bool operator==(privilege_action const& a, privilege_action const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.action_kind_, *b.action_kind_);
 }
diff --git a/src/mizugaki/ast/statement/privilege_object.cpp b/src/mizugaki/ast/statement/privilege_object.cpp
index 9bcaeb6..53bd8fb 100644
--- a/src/mizugaki/ast/statement/privilege_object.cpp
+++ b/src/mizugaki/ast/statement/privilege_object.cpp
@@ -75,7 +75,7 @@ std::unique_ptr<name::name> const& privilege_object::object_name() const noexcep
 
 bool operator==(privilege_object const& a, privilege_object const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.object_kind_, b.object_kind_)
             && eq(*a.object_name_, *b.object_name_);
diff --git a/src/mizugaki/ast/statement/privilege_user.cpp b/src/mizugaki/ast/statement/privilege_user.cpp
index 457afcc..6ad3b76 100644
--- a/src/mizugaki/ast/statement/privilege_user.cpp
+++ b/src/mizugaki/ast/statement/privilege_user.cpp
@@ -75,7 +75,7 @@ std::unique_ptr<name::simple> const& privilege_user::authorization_identifier()
 
 bool operator==(privilege_user const& a, privilege_user const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     if (!eq(a.user_kind_, b.user_kind_)) {
         return false;
diff --git a/src/mizugaki/ast/statement/set_element.cpp b/src/mizugaki/ast/statement/set_element.cpp
index 2c6bea2..291f46a 100644
--- a/src/mizugaki/ast/statement/set_element.cpp
+++ b/src/mizugaki/ast/statement/set_element.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<scalar::expression> const& set_element::value() const noexcept {
 
 bool operator==(set_element const& a, set_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.target_, *b.target_)
             && eq(*a.value_, *b.value_);
diff --git a/src/mizugaki/ast/statement/storage_parameter.cpp b/src/mizugaki/ast/statement/storage_parameter.cpp
index 78c03aa..6daef82 100644
--- a/src/mizugaki/ast/statement/storage_parameter.cpp
+++ b/src/mizugaki/ast/statement/storage_parameter.cpp
@@ -63,7 +63,7 @@ std::unique_ptr<scalar::expression> const& storage_parameter::value() const noex
 
 bool operator==(storage_parameter const& a, storage_parameter const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
             && eq(*a.value_, *b.value_);
diff --git a/src/mizugaki/ast/table/join_columns.cpp b/src/mizugaki/ast/table/join_columns.cpp
index 83841ee..c10cc28 100644
--- a/src/mizugaki/ast/table/join_columns.cpp
+++ b/src/mizugaki/ast/table/join_columns.cpp
@@ -64,7 +64,7 @@ std::vector<std::unique_ptr<name::simple>> const& join_columns::columns() const
 
 bool operator==(join_columns const& a, join_columns const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.columns_, b.columns_);
 }
diff --git a/src/mizugaki/ast/table/join_condition.cpp b/src/mizugaki/ast/table/join_condition.cpp
index 8f508b6..883289f 100644
--- a/src/mizugaki/ast/table/join_condition.cpp
+++ b/src/mizugaki/ast/table/join_condition.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<scalar::expression> const& join_condition::expression() const no
 
 bool operator==(join_condition const& a, join_condition const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.expression_, b.expression_);
 }
diff --git a/src/mizugaki/ast/type/field_definition.cpp b/src/mizugaki/ast/type/field_definition.cpp
index 30cbd05..01a7b4c 100644
--- a/src/mizugaki/ast/type/field_definition.cpp
+++ b/src/mizugaki/ast/type/field_definition.cpp
@@ -77,7 +77,7 @@ std::unique_ptr<name::name> const& field_definition::collation() const noexcept
 
 bool operator==(field_definition const& a, field_definition const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
         && eq(*a.type_, *b.type_)
diff --git a/src/mizugaki/ast/type/row.cpp b/src/mizugaki/ast/type/row.cpp
index d29acd2..0e09e59 100644
--- a/src/mizugaki/ast/type/row.cpp
+++ b/src/mizugaki/ast/type/row.cpp
@@ -61,7 +61,7 @@ std::vector<field_definition> const& row::elements() const noexcept {
 
 bool operator==(row const& a, row const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_);
 }
diff --git a/src/mizugaki/ast/type/user_defined.cpp b/src/mizugaki/ast/type/user_defined.cpp
index 00dcd97..10ea1e0 100644
--- a/src/mizugaki/ast/type/user_defined.cpp
+++ b/src/mizugaki/ast/type/user_defined.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::name> const& user_defined::name() const noexcept {
 
 bool operator==(user_defined const& a, user_defined const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
-- 
2.43.0


From 3fdf837948b600da013106dafa23bf7dee93f9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:56 +0000
Subject: [PATCH 02/36] fix: keep the ONLY qualifier of table references, and
 compare it

---
 src/mizugaki/ast/table/table_reference.cpp | 2 +-
 src/mizugaki/parser/sql_parser.yy          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mizugaki/ast/table/table_reference.cpp b/src/mizugaki/ast/table/table_reference.cpp
index 10aa4f6..4e75d83 100644
--- a/src/mizugaki/ast/table/table_reference.cpp
+++ b/src/mizugaki/ast/table/table_reference.cpp
@@ -97,7 +97,7 @@ bool operator==(table_reference const& a, table_reference const& b) noexcept {
     }
     return eq(a.name_, b.name_)
             && eq(a.correlation_, b.correlation_)
-            && eq(a.is_only_, a.is_only_);
+            && eq(a.is_only_, b.is_only_);
 }
 
 bool operator!=(table_reference const& a, table_reference const& b) noexcept {
diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index 1052152..db55fa0 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -2970,10 +2970,10 @@ table_primary
                     $c,
                     @$);
         }
-    | ONLY "(" table_name[n] ")" correlation_clause_opt[c]
+    | ONLY[k] "(" table_name[n] ")" correlation_clause_opt[c]
         {
             $$ = driver.node<ast::table::table_reference>(
-                    regioned { false },
+                    regioned { true, @k },
                     $n,
                     $c,
                     @$);
-- 
2.43.0


From c43093c4ce56ca17b0a1cb8bcb28cf2d3214a426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 03/36] fix: scan BIT_AND and BIT_OR as their own tokens

---
 src/mizugaki/parser/sql_scanner.ll | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/parser/sql_scanner.ll b/src/mizugaki/parser/sql_scanner.ll
index b8cdba6..5538327 100644
--- a/src/mizugaki/parser/sql_scanner.ll
+++ b/src/mizugaki/parser/sql_scanner.ll
@@ -453,8 +453,8 @@ UTF8_CHAR {ASCII}|{UTF8_2}{U}|{UTF8_3}{U}{U}|{UTF8_4}{U}{U}{U}
 "PLACING" { TRACE_RETURN parser_type::make_PLACING(location()); }
 "TINYINT" { TRACE_RETURN parser_type::make_TINYINT(location()); }
 "BIGINT" { TRACE_RETURN parser_type::make_BIGINT(location()); }
-"BIT_AND" { TRACE_RETURN parser_type::make_BOOL_AND(location()); }
-"BIT_OR" { TRACE_RETURN parser_type::make_BOOL_OR(location()); }
+"BIT_AND" { TRACE_RETURN parser_type::make_BIT_AND(location()); }
+"BIT_OR" { TRACE_RETURN parser_type::make_BIT_OR(location()); }
 "BOOL_AND" { TRACE_RETURN parser_type::make_BOOL_AND(location()); }
 "BOOL_OR" { TRACE_RETURN parser_type::make_BOOL_OR(location()); }
 
-- 
2.43.0


From 6fbee517bc7ede72a0b715ad212a0b049bb64ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 04/36] fix: return the assigned object from clone_wrapper copy
 assignment

---
 include/mizugaki/ast/common/clone_wrapper.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mizugaki/ast/common/clone_wrapper.h b/include/mizugaki/ast/common/clone_wrapper.h
index d3a4611..a34421f 100644
--- a/include/mizugaki/ast/common/clone_wrapper.h
+++ b/include/mizugaki/ast/common/clone_wrapper.h
@@ -146,6 +146,7 @@ public:
      */
     clone_wrapper& operator=(clone_wrapper const& other) {
         element_ = other.clone();
+        return *this;
     }
 
     /**
-- 
2.43.0


From 51f7ef0557926d978c26789706db722a7ca96061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 05/36] fix: locate the TABLE keyword alone in privilege
 objects

---
 src/mizugaki/parser/sql_parser.yy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index db55fa0..bdd7c31 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -2242,10 +2242,10 @@ privilege_object
                     @$
             };
         }
-    | TABLE table_name[n]
+    | TABLE[k] table_name[n]
         {
             $$ = ast::statement::privilege_object {
-                    regioned { ast::statement::privilege_object_kind::table, @$ },
+                    regioned { ast::statement::privilege_object_kind::table, @k },
                     $n,
                     @$
             };
-- 
2.43.0


From bd16d20985c78369cda21b8d418f698a25c58a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 06/36] fix: count correlation names of UPDATE and DELETE as
 tree nodes

---
 src/mizugaki/parser/sql_tree_validator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mizugaki/parser/sql_tree_validator.cpp b/src/mizugaki/parser/sql_tree_validator.cpp
index c60d4ff..e5ae5a1 100644
--- a/src/mizugaki/parser/sql_tree_validator.cpp
+++ b/src/mizugaki/parser/sql_tree_validator.cpp
@@ -273,6 +273,7 @@ public:
 
     [[nodiscard]] bool operator()(ast::statement::update_statement const& element, std::size_t depth) {
         ACCEPT(element.table_name());
+        ACCEPT(element.alias_name());
         for (auto&& clause : element.elements()) { // NOLINT(*-use-anyofallof)
             ACCEPT(clause.target());
             ACCEPT(clause.value());
@@ -283,6 +284,7 @@ public:
 
     [[nodiscard]] bool operator()(ast::statement::delete_statement const& element, std::size_t depth) {
         ACCEPT(element.table_name());
+        ACCEPT(element.alias_name());
         ACCEPT(element.where());
         return true;
     }
-- 
2.43.0


From c3fb13231e2480d573db2bab9fa5f6628532aa8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:26 +0000
Subject: [PATCH 07/36] fix: locate the text of DATE literals

---
 src/mizugaki/parser/sql_parser.yy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index bdd7c31..3b876af 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -4281,7 +4281,7 @@ literal
         {
             $$ = driver.node<ast::literal::datetime>(
                     regioned { ast::literal::kind::date, @k },
-                    $t,
+                    regioned { $t, @t },
                     @$);
         }
     | TIME[k] with_or_without_time_zone_opt[z] CHARACTER_STRING_LITERAL[t]
-- 
2.43.0


From d25b96ce4ffc24ee40c6e45ed39756385ea9398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:24 +0000
Subject: [PATCH 08/36] fix: reject argument lists that start with a comma

---
 src/mizugaki/parser/sql_parser.yy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index 3b876af..8862129 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -4182,7 +4182,7 @@ sql_argument_list_opt
     ;
 
 sql_argument_list
-    : sql_argument_list_opt[L] ","[s] sql_argument[e]
+    : sql_argument_list[L] ","[s] sql_argument[e]
         {
             $$ = $L;
             $$.emplace_back($e);
-- 
2.43.0


From a11715b1190066fc06be8efb0dee7d1d8339ae8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 09/36] fix: reject sizes that are out of range

---
 src/mizugaki/parser/sql_driver.cpp | 11 ++++++-----
 src/mizugaki/parser/sql_driver.h   |  4 +++-
 src/mizugaki/parser/sql_parser.yy  | 10 +++++++++-
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/mizugaki/parser/sql_driver.cpp b/src/mizugaki/parser/sql_driver.cpp
index 647fa08..ed97f17 100644
--- a/src/mizugaki/parser/sql_driver.cpp
+++ b/src/mizugaki/parser/sql_driver.cpp
@@ -6,6 +6,7 @@
 
 #include <algorithm>
 #include <iterator>
+#include <limits>
 #include <string_view>
 
 #include <takatori/util/assertion.h>
@@ -294,14 +295,14 @@ sql_driver::node_ptr<ast::type::type> sql_driver::try_build_type(node_ptr<ast::s
     return {};
 }
 
-std::size_t sql_driver::to_size(ast::common::chars const& str) { // NOLINT: non-static for calling conv
+std::optional<std::size_t> sql_driver::to_size(ast::common::chars const& str) { // NOLINT: non-static for calling conv
     errno = 0;
     auto result = std::strtoull(str.data(), nullptr, 10);
-    if (errno == ERANGE) {
-        // FIXME: error
-        return 0;
+    // NOTE: the max value is reserved for the flexible size
+    if (errno == ERANGE || result >= std::numeric_limits<std::size_t>::max()) {
+        return std::nullopt;
     }
-    return result;
+    return static_cast<std::size_t>(result);
 }
 
 std::string_view sql_driver::image(location_type location) {
diff --git a/src/mizugaki/parser/sql_driver.h b/src/mizugaki/parser/sql_driver.h
index b9bac13..366e777 100644
--- a/src/mizugaki/parser/sql_driver.h
+++ b/src/mizugaki/parser/sql_driver.h
@@ -2,6 +2,8 @@
 
 #include <cstddef>
 
+#include <optional>
+
 #include <mizugaki/ast/common/vector.h>
 #include <mizugaki/ast/name/name.h>
 #include <mizugaki/ast/name/simple.h>
@@ -94,7 +96,7 @@ public:
         return result;
     }
 
-    [[nodiscard]] std::size_t to_size(ast::common::chars const& str);
+    [[nodiscard]] std::optional<std::size_t> to_size(ast::common::chars const& str);
 
     [[nodiscard]] bool check_regular_identifier(ast::common::chars const& str);
 
diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index 8862129..b5ddc5b 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -4668,7 +4668,15 @@ size_maybe_flexible
 size
     : UNSIGNED_INTEGER[t]
         {
-            $$ = { driver.to_size($t), @t };
+            auto value = driver.to_size($t);
+            if (!value) {
+                driver.error(
+                        sql_parser_code::invalid_token,
+                        @t,
+                        "size is out of range");
+                YYABORT;
+            }
+            $$ = { *value, @t };
         }
     ;
 
-- 
2.43.0


From b71f40b0047cbfeb1ab53c5b7902f074edf68927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 10/36] fix: do not report bytes out of ASCII as control
 characters

---
 src/mizugaki/parser/sql_parser.yy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index b5ddc5b..a7ebbcb 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -183,8 +183,8 @@
 
         // check erroneous token kind
         if (symbol == kind::S_ERROR) {
-            if (image.size() == 1 && image[0] < static_cast<char>(0x20)) {
-                auto c = static_cast<unsigned int>(image[0]);
+            if (image.size() == 1 && static_cast<unsigned char>(image[0]) < 0x20U) {
+                auto c = static_cast<unsigned int>(static_cast<unsigned char>(image[0]));
                 driver.error(
                         sql_parser_code::invalid_character,
                         location,
-- 
2.43.0


From cd205f0fcbff219b568ef30e640f8c742a5ef28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:54 +0000
Subject: [PATCH 11/36] fix: do not count the end of the document as a
 statement

---
 src/mizugaki/parser/sql_parser.yy | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index a7ebbcb..3acf27a 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -1065,7 +1065,12 @@ statement_list
         {
             $$ = $L;
             $$.emplace_back($s);
-            if (!driver.validate(@c, $$, element_kind::statement)) {
+            // NOTE: the last empty statement only represents the tail of the document
+            auto count = $$.size();
+            if ($$.back()->node_kind() == ast::statement::kind::empty_statement) {
+                --count;
+            }
+            if (!driver.validate_count(@c, count, element_kind::statement)) {
                 YYABORT;
             }
         }
-- 
2.43.0


From 0289cda55d4ca1dda0d3fea7de7307126d5bf59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 12/36] fix: count function names as tree nodes

---
 src/mizugaki/parser/sql_tree_validator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mizugaki/parser/sql_tree_validator.cpp b/src/mizugaki/parser/sql_tree_validator.cpp
index e5ae5a1..0203ad4 100644
--- a/src/mizugaki/parser/sql_tree_validator.cpp
+++ b/src/mizugaki/parser/sql_tree_validator.cpp
@@ -674,6 +674,7 @@ public:
     }
 
     [[nodiscard]] bool operator()(ast::scalar::function_invocation const& element, std::size_t depth) {
+        ACCEPT(element.name());
         ACCEPT(element.arguments()); // NOLINT(*-simplify-boolean-expr)
         return true;
     }
-- 
2.43.0


From 0a816845921d9aabaf021aba161eebc4a3ddd2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 13/36] fix: count operands of APPLY as tree nodes

---
 src/mizugaki/parser/sql_tree_validator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mizugaki/parser/sql_tree_validator.cpp b/src/mizugaki/parser/sql_tree_validator.cpp
index 0203ad4..77ba579 100644
--- a/src/mizugaki/parser/sql_tree_validator.cpp
+++ b/src/mizugaki/parser/sql_tree_validator.cpp
@@ -550,6 +550,7 @@ public:
     }
 
     [[nodiscard]] bool operator()(ast::table::apply const& element, std::size_t depth) {
+        ACCEPT(element.operand());
         ACCEPT(element.name());
         ACCEPT(element.arguments());
         ACCEPT(element.correlation().correlation_name());
-- 
2.43.0


From 5fea170f5681d862aea159dd73d23b040fcd9fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 14/36] fix: print the operand of APPLY

---
 src/mizugaki/ast/table/apply.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mizugaki/ast/table/apply.cpp b/src/mizugaki/ast/table/apply.cpp
index 3c644a6..64ef738 100644
--- a/src/mizugaki/ast/table/apply.cpp
+++ b/src/mizugaki/ast/table/apply.cpp
@@ -126,6 +126,7 @@ void apply::serialize(takatori::serializer::object_acceptor& acceptor) const {
     using namespace common::serializers;
     using namespace std::string_view_literals;
     auto obj = struct_block(acceptor, *this);
+    property(acceptor, "operand"sv, operand_);
     property(acceptor, "operator_kind"sv, operator_kind_);
     property(acceptor, "name"sv, name_);
     property(acceptor, "arguments"sv, arguments_);
-- 
2.43.0


From a01bcb3f25f1348e1b533c3192904548437f6d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:33 +0000
Subject: [PATCH 15/36] fix: compare the operand of APPLY

---
 src/mizugaki/ast/table/apply.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mizugaki/ast/table/apply.cpp b/src/mizugaki/ast/table/apply.cpp
index 64ef738..64c1394 100644
--- a/src/mizugaki/ast/table/apply.cpp
+++ b/src/mizugaki/ast/table/apply.cpp
@@ -138,7 +138,8 @@ bool operator==(apply const& a, apply const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
         return true;
     }
-    return eq(a.operator_kind_, b.operator_kind_)
+    return eq(a.operand_, b.operand_)
+            && eq(a.operator_kind_, b.operator_kind_)
             && eq(a.name_, b.name_)
             && eq(a.arguments_, b.arguments_)
             && eq(a.correlation_, b.correlation_);
-- 
2.43.0


From df54bc9a9db141a47d253f5853560627634d6788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:40 +0000
Subject: [PATCH 16/36] fix: keep the region of TRUNCATE TABLE statements in
 copies

---
 src/mizugaki/ast/statement/truncate_table_statement.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mizugaki/ast/statement/truncate_table_statement.cpp b/src/mizugaki/ast/statement/truncate_table_statement.cpp
index b64e990..445538c 100644
--- a/src/mizugaki/ast/statement/truncate_table_statement.cpp
+++ b/src/mizugaki/ast/statement/truncate_table_statement.cpp
@@ -37,6 +37,7 @@ truncate_table_statement::truncate_table_statement(takatori::util::clone_tag_t,
     truncate_table_statement {
             clone_unique(other.name_),
             other.identity_column_option_,
+            other.region(),
     }
 {}
 
@@ -44,6 +45,7 @@ truncate_table_statement::truncate_table_statement(takatori::util::clone_tag_t,
     truncate_table_statement {
             std::move(other.name_),
             other.identity_column_option_,
+            other.region(),
     }
 {}
 
-- 
2.43.0


From 514f67d5fa8f442ba404431f98ce6e6447e61967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:18 +0000
Subject: [PATCH 17/36] fix: reject the statement where an unsupported option
 has been reported

---
 src/mizugaki/analyzer/details/analyze_literal.cpp           | 1 +
 src/mizugaki/analyzer/details/analyze_query_expression.cpp  | 1 +
 src/mizugaki/analyzer/details/analyze_scalar_expression.cpp | 1 +
 src/mizugaki/analyzer/details/analyze_statement.cpp         | 4 ++++
 4 files changed, 7 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_literal.cpp b/src/mizugaki/analyzer/details/analyze_literal.cpp
index 44a7463..f6d24f7 100644
--- a/src/mizugaki/analyzer/details/analyze_literal.cpp
+++ b/src/mizugaki/analyzer/details/analyze_literal.cpp
@@ -255,6 +255,7 @@ private:
                             << "(" << v.number_class(context) << ")"
                             << string_builder::to_string,
                     value.region());
+            return {};
         }
         ::takatori::decimal::triple triple { v };
         if (triple.exponent() == 0) {
diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index b1307dd..e0f199e 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -253,6 +253,7 @@ public:
                             sql_analyzer_code::unsupported_feature,
                             "NULLS FIRST/LAST in ORDER BY is not yet supported",
                             spec.region());
+                    return {};
                 }
                 auto result = analyze_scalar_expression(context_, *spec.key(), scope);
                 if (!result) {
diff --git a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
index c3d1980..e81df80 100644
--- a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
@@ -239,6 +239,7 @@ public:
                             << expr.operator_kind()
                             << string_builder::to_string,
                     expr.operator_kind().region());
+            return {};
         }
         auto operand = process(*expr.operand(), {});
         if (!operand) {
diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 902366d..9fd8155 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -409,6 +409,7 @@ public:
                                 sql_analyzer_code::malformed_syntax,
                                 "multiple insert options are not supported",
                                 option.region());
+                        return {};
                     }
                     saw = true;
                     result = to::insert_skip;
@@ -419,6 +420,7 @@ public:
                                 sql_analyzer_code::malformed_syntax,
                                 "multiple insert options are not supported",
                                 option.region());
+                        return {};
                     }
                     saw = true;
                     result = to::insert_overwrite;
@@ -1235,6 +1237,7 @@ public:
                     sql_analyzer_code::malformed_syntax,
                     "index parameters are not supported yet",
                     constraint.parameters().at(0).name()->region());
+            return {};
         }
 
         query_scope scope {};
@@ -1351,6 +1354,7 @@ public:
                     sql_analyzer_code::unsupported_feature,
                     "index parameters are not supported yet",
                     stmt.parameters().at(0).name()->region());
+            return {};
         }
 
         // check existing
-- 
2.43.0


From 4f79f5c3b86c2a59a20047c6c97f3bd365385738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:35 +0000
Subject: [PATCH 18/36] fix: aggregate the whole input where HAVING has no
 aggregations

---
 .../analyzer/details/set_function_processor.cpp    | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/mizugaki/analyzer/details/set_function_processor.cpp b/src/mizugaki/analyzer/details/set_function_processor.cpp
index 0d8ee67..75ebb8c 100644
--- a/src/mizugaki/analyzer/details/set_function_processor.cpp
+++ b/src/mizugaki/analyzer/details/set_function_processor.cpp
@@ -338,14 +338,14 @@ optional_ptr<output_port_type> set_function_processor::install(output_port_type&
         current = arguments_->output();
         arguments_.reset();
     }
-    if (aggregations_) {
-        if (!context_.resolve(*aggregations_)) {
-            return {};
-        }
-        aggregations_->input().connect_to(*current);
-        current = aggregations_->output();
-        aggregations_.reset();
+    // NOTE: aggregate even if there are neither group keys nor aggregations (e.g. only with HAVING clause)
+    auto&& aggregations = aggregations_store();
+    if (!context_.resolve(aggregations)) {
+        return {};
     }
+    aggregations.input().connect_to(*current);
+    current = aggregations.output();
+    aggregations_.reset();
     if (next) {
         current->connect_to(*next);
     }
-- 
2.43.0


From cde5926b767eab0a62d48706f44ab57a8634275f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:19 +0000
Subject: [PATCH 19/36] fix: apply the grouping rule to the columns of
 asterisks

---
 .../analyzer/details/analyze_query_expression.cpp      | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index e0f199e..cdc6333 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -336,6 +336,16 @@ public:
                     set_functions.add_aggregated(column.variable());
                 }
             }
+            // NOTE: columns come from '*' are not in the project operator
+            for (auto&& column : info.columns()) {
+                if (!set_functions.is_grouping(column.variable()) && !set_functions.is_aggregated(column.variable())) {
+                    context_.report(
+                            sql_analyzer_code::invalid_aggregation_column,
+                            "column must be aggregated",
+                            expr.elements().front()->region() | expr.elements().back()->region());
+                    return {};
+                }
+            }
             if (auto project = sort_columns) {
                 for (auto&& column : project->columns()) {
                     if (!set_functions.process(column.ownership_value())) {
-- 
2.43.0


From 2786bfcc74357d62e41ad4d8522d2428b1dde9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:19 +0000
Subject: [PATCH 20/36] fix: join conditions and APPLY arguments only see their
 own operands

---
 .../analyzer/details/analyze_name.cpp         |  2 +-
 .../details/analyze_query_expression.cpp      | 32 ++++++++++++++++++-
 src/mizugaki/analyzer/details/query_scope.cpp | 21 ++++++++++++
 src/mizugaki/analyzer/details/query_scope.h   | 30 +++++++++++++++++
 4 files changed, 83 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_name.cpp b/src/mizugaki/analyzer/details/analyze_name.cpp
index f0aaab2..155e777 100644
--- a/src/mizugaki/analyzer/details/analyze_name.cpp
+++ b/src/mizugaki/analyzer/details/analyze_name.cpp
@@ -824,7 +824,7 @@ private:
             ast::name::simple const& name) {
         ast::common::chars buffer;
         std::optional<descriptor::variable> found {};
-        for (auto&& r : scope.references()) {
+        for (auto&& r : scope.visible_references()) {
             for (auto v = r.find(to_identifier(name, buffer, name_kind::variable)); !v.is_absent(); v = r.next(*v)) {
                 if (v.is_ambiguous()) {
                     report_column_ambiguous(name);
diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index cdc6333..c393a68 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -1014,6 +1014,7 @@ public:
     [[nodiscard]] optional_ptr<output_port> operator()( // NOLINT(*-cognitive-complexity)
             ast::table::apply const& expr,
             query_scope& scope) {
+        auto begin = scope.create_pivot();
         auto operand = dispatch(*expr.operand(), scope);
         if (!operand) {
             return {};
@@ -1028,6 +1029,8 @@ public:
         std::vector<std::shared_ptr<::takatori::type::data const>> argument_types {};
         argument_types.reserve(expr.arguments().size());
         for (auto&& arg : expr.arguments()) {
+            // NOTE: arguments can only see the operand
+            visible_range range { scope, begin };
             auto value = analyze_scalar_expression(context_, *arg, scope);
             if (!value) {
                 return {};
@@ -1347,7 +1350,7 @@ public:
             auto&& id = normalize_identifier(context_, *name, name_kind::variable);
             auto&& rels = scope.references();
             optional_ptr<tdescriptor::variable const> left {};
-            for (query_scope::position_type i = 0, n = pivot; i < n; ++i) {
+            for (query_scope::position_type i = scope.visible_begin(), n = pivot; i < n; ++i) {
                 auto&& rel = rels[i];
                 for (auto&& column = rel.find(id); column; column = rel.next(*column)) {
                     // FIXME: check existing
@@ -1442,6 +1445,30 @@ public:
     }
 
 private:
+    // restricts visible relations in the scope, and then restore it
+    class visible_range {
+    public:
+        visible_range(query_scope& scope, query_scope::position_type begin) noexcept :
+            scope_ { scope },
+            origin_ { scope.visible_begin() }
+        {
+            scope_.visible_begin() = begin;
+        }
+
+        ~visible_range() {
+            scope_.visible_begin() = origin_;
+        }
+
+        visible_range(visible_range const&) = delete;
+        visible_range& operator=(visible_range const&) = delete;
+        visible_range(visible_range&&) = delete;
+        visible_range& operator=(visible_range&&) = delete;
+
+    private:
+        query_scope& scope_;
+        query_scope::position_type origin_;
+    };
+
     analyzer_context& context_;
     ::takatori::relation::graph_type& graph_;
 
@@ -1632,6 +1659,7 @@ private:
             ast::table::join const& expr,
             query_scope& scope,
             bool transpose = false) {
+        auto begin = scope.create_pivot();
         auto left = dispatch(*expr.left(), scope);
         if (!left) {
             return {};
@@ -1659,6 +1687,8 @@ private:
                 return {};
             }
         } else if (expr.specification()) {
+            // NOTE: join specification can only see the both join operands
+            visible_range range { scope, begin };
             condition = ast::table::dispatch(*this, *expr.specification(), scope, pivot);
             if (!condition) {
                 return {};
diff --git a/src/mizugaki/analyzer/details/query_scope.cpp b/src/mizugaki/analyzer/details/query_scope.cpp
index 381b61d..4fa255d 100644
--- a/src/mizugaki/analyzer/details/query_scope.cpp
+++ b/src/mizugaki/analyzer/details/query_scope.cpp
@@ -111,6 +111,14 @@ query_scope::const_result_type query_scope::find(::yugawara::storage::relation c
 }
 
 std::optional<query_scope::position_type> query_scope::find_internal(std::string_view identifier) const {
+    if (visible_begin_ > 0) {
+        return find_visible([&](relation_info const& relation) {
+            if (auto&& id = relation.identifier(); !id.empty()) {
+                return id == identifier;
+            }
+            return relation.declaration() && relation.declaration()->simple_name() == identifier;
+        });
+    }
     auto&& map = name_map_;
     if (auto it = map.find(identifier); it != map.end()) {
         return it.value();
@@ -119,6 +127,11 @@ std::optional<query_scope::position_type> query_scope::find_internal(std::string
 }
 
 std::optional<query_scope::position_type> query_scope::find_internal(::yugawara::storage::relation const& relation) const {
+    if (visible_begin_ > 0) {
+        return find_visible([&](relation_info const& info) {
+            return info.identifier().empty() && info.declaration().get() == std::addressof(relation);
+        });
+    }
     auto&& map = reference_map_;
     if (auto it = map.find(std::addressof(relation)); it != map.end()) {
         return it.value();
@@ -130,6 +143,14 @@ query_scope::position_type query_scope::create_pivot() const noexcept {
     return relations_.size();
 }
 
+sequence_view<relation_info const> query_scope::visible_references() const noexcept {
+    return { relations_.data() + visible_begin_, relations_.data() + relations_.size() };
+}
+
+query_scope::position_type& query_scope::visible_begin() noexcept {
+    return visible_begin_;
+}
+
 bool query_scope::add(std::string name, std::shared_ptr<query_info const> query) { // NOLINT(performance-unnecessary-value-param)
     auto [it, added] = query_map_.try_emplace(std::move(name), std::move(query));
     (void) it;
diff --git a/src/mizugaki/analyzer/details/query_scope.h b/src/mizugaki/analyzer/details/query_scope.h
index 369fbbe..a8701fd 100644
--- a/src/mizugaki/analyzer/details/query_scope.h
+++ b/src/mizugaki/analyzer/details/query_scope.h
@@ -57,6 +57,21 @@ public:
 
     [[nodiscard]] position_type create_pivot() const noexcept;
 
+    /**
+     * @brief returns the relations which are currently visible in this scope.
+     * @return the visible relations
+     * @see visible_begin()
+     */
+    [[nodiscard]] ::takatori::util::sequence_view<relation_info const> visible_references() const noexcept;
+
+    /**
+     * @brief returns the position of the first visible relation in this scope.
+     * @details the relations before this position are not visible by their names,
+     *      so that individual joins only see their own operands.
+     * @return the position, or 0 if all relations are visible
+     */
+    [[nodiscard]] position_type& visible_begin() noexcept;
+
     /**
      * @brief adds a query info with the given name.
      * @param name the query name
@@ -110,6 +125,7 @@ private:
 
     ::takatori::util::optional_ptr<query_scope> parent_ {};
     std::vector<relation_info> relations_ {};
+    position_type visible_begin_ { 0 };
     ::tsl::hopscotch_map<std::string, position_type, std::hash<std::string_view>, std::equal_to<>> name_map_ {};
     ::tsl::hopscotch_map<yugawara::storage::relation const*, position_type> reference_map_ {};
     ::tsl::hopscotch_map<
@@ -121,6 +137,20 @@ private:
     query_scope_feature_set features_ {};
     std::vector<std::tuple<::takatori::descriptor::variable, ::takatori::descriptor::variable>> parameters_ {};
 
+    template<class Predicate>
+    [[nodiscard]] std::optional<position_type> find_visible(Predicate&& predicate) const {
+        std::optional<position_type> found {};
+        for (position_type i = visible_begin_, n = relations_.size(); i < n; ++i) {
+            if (predicate(relations_[i])) {
+                if (found) {
+                    return ambiguous;
+                }
+                found = i;
+            }
+        }
+        return found;
+    }
+
     [[nodiscard]] std::optional<position_type> find_internal(std::string_view identifier) const;
     [[nodiscard]] std::optional<position_type> find_internal(::yugawara::storage::relation const& relation) const;
 };
-- 
2.43.0


From 7b53d87006ab09bfa250bce291467ddf8499512a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:42 +0000
Subject: [PATCH 21/36] fix: the USING columns of RIGHT and FULL OUTER JOIN
 come from the operand which is present

---
 .../details/analyze_query_expression.cpp      | 52 ++++++++++++++++---
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index c393a68..c07eab6 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -13,6 +13,7 @@
 #include <takatori/scalar/variable_reference.h>
 #include <takatori/scalar/binary.h>
 #include <takatori/scalar/compare.h>
+#include <takatori/scalar/coalesce.h>
 
 #include <takatori/relation/scan.h>
 #include <takatori/relation/values.h>
@@ -1322,10 +1323,16 @@ public:
 
     // join specification
 
+    struct join_column_pair {
+        column_info& left;
+        tdescriptor::variable right;
+    };
+
     [[nodiscard]] std::unique_ptr<tscalar::expression> operator()(
             ast::table::join_condition const& elem,
             query_scope& scope,
-            query_scope::position_type) {
+            query_scope::position_type,
+            std::vector<join_column_pair>&) {
         auto r = analyze_scalar_expression(context_, *elem.expression(), scope);
         if (!r) {
             return {};
@@ -1343,13 +1350,14 @@ public:
     [[nodiscard]] std::unique_ptr<tscalar::expression> operator()( // NOLINT(*-function-cognitive-complexity)
             ast::table::join_columns const& elem,
             query_scope& scope,
-            query_scope::position_type pivot) {
+            query_scope::position_type pivot,
+            std::vector<join_column_pair>& pairs) {
         std::unique_ptr<tscalar::expression> result {};
 
         for (auto&& name : elem.columns()) {
             auto&& id = normalize_identifier(context_, *name, name_kind::variable);
             auto&& rels = scope.references();
-            optional_ptr<tdescriptor::variable const> left {};
+            optional_ptr<column_info> left {};
             for (query_scope::position_type i = scope.visible_begin(), n = pivot; i < n; ++i) {
                 auto&& rel = rels[i];
                 for (auto&& column = rel.find(id); column; column = rel.next(*column)) {
@@ -1366,7 +1374,7 @@ public:
                                 name->region());
                         return {};
                     }
-                    left = column->variable();
+                    left = *column;
                 }
             }
             if (!left) {
@@ -1416,10 +1424,11 @@ public:
                     tscalar::comparison_operator::equal,
                     context_.create<tscalar::variable_reference>(
                             name->region(),
-                            *left),
+                            left->variable()),
                     context_.create<tscalar::variable_reference>(
                             name->region(),
                             *right));
+            pairs.push_back({ *left, *right });
             if (!result) {
                 result = std::move(term);
             } else {
@@ -1674,6 +1683,7 @@ private:
         }
 
         std::unique_ptr<tscalar::expression> condition {};
+        std::vector<join_column_pair> pairs {};
         if (natural) {
             if (expr.specification()) {
                 context_.report(
@@ -1689,7 +1699,7 @@ private:
         } else if (expr.specification()) {
             // NOTE: join specification can only see the both join operands
             visible_range range { scope, begin };
-            condition = ast::table::dispatch(*this, *expr.specification(), scope, pivot);
+            condition = ast::table::dispatch(*this, *expr.specification(), scope, pivot, pairs);
             if (!condition) {
                 return {};
             }
@@ -1704,7 +1714,35 @@ private:
         }
         op.left().connect_to(*left);
         op.right().connect_to(*right);
-        return op.output();
+        if (pairs.empty() || (join_type != trelation::join_kind::full_outer && !transpose)) {
+            return op.output();
+        }
+        if (transpose) {
+            // NOTE: the left operand may be absent in RIGHT OUTER JOIN
+            for (auto&& pair : pairs) {
+                pair.left.variable() = pair.right;
+            }
+            return op.output();
+        }
+
+        // NOTE: either operand may be absent in FULL OUTER JOIN
+        auto&& project = graph_.emplace<trelation::project>(std::vector<trelation::project::column> {});
+        for (auto&& pair : pairs) {
+            auto variable = factory_.stream_variable(pair.left.variable());
+            auto alternatives = create_ref_vector<tscalar::expression>(2);
+            alternatives.push_back(context_.create<tscalar::variable_reference>(expr.region(), pair.left.variable()));
+            alternatives.push_back(context_.create<tscalar::variable_reference>(expr.region(), pair.right));
+            project.columns().emplace_back(
+                    variable,
+                    context_.create<tscalar::coalesce>(expr.region(), std::move(alternatives)));
+            pair.left.variable() = std::move(variable);
+        }
+        project.region() = context_.convert(expr.region());
+        if (!context_.resolve(project)) {
+            return {};
+        }
+        project.input().connect_to(op.output());
+        return project.output();
     }
 
     [[nodiscard]] std::unique_ptr<tscalar::expression> collect_natural_join_columns(
-- 
2.43.0


From 370933dce2cb4faf8f18a7945ede476bd19978d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:58 +0000
Subject: [PATCH 22/36] fix: reject aggregate functions in VALUES, SET clauses
 and APPLY arguments

---
 .../analyzer/details/analyze_query_expression.cpp  | 14 ++++++++++++++
 .../analyzer/details/analyze_statement.cpp         |  7 +++++++
 2 files changed, 21 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index c07eab6..a20d2eb 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -469,6 +469,13 @@ public:
                         return {};
                     }
                     // FIXME: can appear agg func if this is in a sub-query
+                    if (elem.saw_aggregate()) {
+                        context_.report(
+                                sql_analyzer_code::unsupported_feature,
+                                "aggregated function in VALUES is not yet supported",
+                                elem_expr->region());
+                        return {};
+                    }
                     row.push_back(elem.release());
                     ++index;
                 }
@@ -1036,6 +1043,13 @@ public:
             if (!value) {
                 return {};
             }
+            if (value.saw_aggregate()) {
+                context_.report(
+                        sql_analyzer_code::unsupported_feature,
+                        "aggregated function in APPLY arguments is not yet supported",
+                        arg->region());
+                return {};
+            }
             auto type = context_.resolve(*value);
             if (!type) {
                 return {};
diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 9fd8155..d874361 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -527,6 +527,13 @@ public:
             if (!value) {
                 return {};
             }
+            if (value.saw_aggregate()) {
+                context_.report(
+                        sql_analyzer_code::unsupported_feature,
+                        "aggregated function in SET clause is not yet supported",
+                        element.value()->region());
+                return {};
+            }
 
             projections.emplace_back(variable, value.release());
 
-- 
2.43.0


From b864affc41530f4f7b3a77257088dc5971b3b4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:06 +0000
Subject: [PATCH 23/36] fix: locate every diagnostic of the analyzer inside the
 statement

---
 src/mizugaki/analyzer/details/analyze_scalar_expression.cpp | 2 +-
 src/mizugaki/analyzer/details/analyzer_context.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
index e81df80..9cd9315 100644
--- a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
@@ -238,7 +238,7 @@ public:
                             << "unsupported cast type: "
                             << expr.operator_kind()
                             << string_builder::to_string,
-                    expr.operator_kind().region());
+                    expr.region());
             return {};
         }
         auto operand = process(*expr.operand(), {});
diff --git a/src/mizugaki/analyzer/details/analyzer_context.cpp b/src/mizugaki/analyzer/details/analyzer_context.cpp
index c420766..656b36c 100644
--- a/src/mizugaki/analyzer/details/analyzer_context.cpp
+++ b/src/mizugaki/analyzer/details/analyzer_context.cpp
@@ -152,7 +152,7 @@ sql_analyzer_code analyzer_context::convert_code(
 }
 
 ::takatori::document::region analyzer_context::convert(ast::node_region region) const {
-    if (source_) {
+    if (source_ && region) {
         return diagnostic_type::location_type {
                 *source_,
                 region.begin,
-- 
2.43.0


From eec9dcb824c102063c6cc1e1e92f2045ca8c6494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:39 +0000
Subject: [PATCH 24/36] fix: accept HAVING conditions which are just an
 aggregation

---
 .../analyzer/details/analyze_query_expression.cpp    | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index a20d2eb..49c350d 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -170,6 +170,7 @@ public:
         }
 
         // HAVING ...
+        optional_ptr<trelation::filter> having_filter {};
         if (expr.having()) {
             set_functions.activate();
             auto predicate = analyze_scalar_expression(context_, *expr.having(), scope);
@@ -179,12 +180,14 @@ public:
             auto&& filter = graph_.insert(context_.create<trelation::filter>(
                     expr.having()->region(),
                     predicate.release()));
-            if (!set_functions.process(filter.ownership_condition())) {
+            if (!context_.resolve(filter)) {
                 return {};
             }
-            if (!context_.resolve(filter)) {
+            // NOTE: the condition may just be an aggregation, which is not yet resolved here
+            if (!set_functions.process(filter.ownership_condition())) {
                 return {};
             }
+            having_filter = filter;
             filter.input().connect_to(*output);
             output = filter.output();
         }
@@ -359,6 +362,11 @@ public:
             if (!aggregate_output) {
                 return {};
             }
+            if (auto filter = having_filter) {
+                if (!context_.resolve(*filter)) {
+                    return {};
+                }
+            }
             if (auto project = select_columns) {
                 if (!context_.resolve(*project)) {
                     return {};
-- 
2.43.0


From c19b4f6429a571e93af70f12c03db1ce5ae57cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:32 +0000
Subject: [PATCH 25/36] fix: hidden columns do not count as columns of a table
 reference

---
 src/mizugaki/analyzer/details/analyze_query_expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index 49c350d..f9261b3 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -1882,7 +1882,7 @@ analyze_query_expression_result analyze_query_expression(
         bool system = column.features().contains(::yugawara::storage::column_feature::synthesized);
         bool hidden = column.features().contains(::yugawara::storage::column_feature::hidden);
         // keep the system columns
-        if (system && !include_system_columns) {
+        if ((system || hidden) && !include_system_columns) {
             continue;
         }
         auto variable = escape_columns ?
-- 
2.43.0


From 80bb5fd2cb44a2391bf21c6f74ce715a87ce3df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:32 +0000
Subject: [PATCH 26/36] fix: UPDATE SET does not find hidden columns

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index d874361..fca8e29 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -490,7 +490,7 @@ public:
 
             auto identifier = normalize_identifier(context_, element.target()->last_name(), name_kind::variable);
             auto column = info.find(identifier);
-            if (!column || !column->declaration()) {
+            if (!column || !column->declaration() || !column->exported()) {
                 context_.report(
                         sql_analyzer_code::column_not_found,
                         string_builder {}
-- 
2.43.0


From c269a5377d0e61d55fa8b18d7441f2d5a09c690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:32 +0000
Subject: [PATCH 27/36] fix: DECIMAL with an unusable default precision is
 reported at the type

---
 src/mizugaki/analyzer/details/analyze_type.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_type.cpp b/src/mizugaki/analyzer/details/analyze_type.cpp
index 7832d29..a3ad1e8 100644
--- a/src/mizugaki/analyzer/details/analyze_type.cpp
+++ b/src/mizugaki/analyzer/details/analyze_type.cpp
@@ -212,7 +212,7 @@ public:
             context_.report(
                     sql_analyzer_code::invalid_type_length,
                     "decimal type precision must not be zero",
-                    type.precision().value().region()); // NOLINT(bugprone-unchecked-optional-access) - checked because it is non-default value
+                    type.precision() ? type.precision()->region() : type.region());
             return {};
         }
         if (precision && precision > options().max_decimal_precision()) {
@@ -222,7 +222,7 @@ public:
                             << "too large decimal precision: " << precision.value()
                             << " (max precision is " << options().max_decimal_precision() << ")"
                             << string_builder::to_string,
-                    type.precision()->region()); // NOLINT(bugprone-unchecked-optional-access) - checked because it is non-default value
+                    type.precision() ? type.precision()->region() : type.region());
             return {};
         }
         if (scale && scale.value() > precision.value_or(options().max_decimal_precision())) {
-- 
2.43.0


From 336df77567f91b7009b7d5ef2367f2a38076bbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:47 +0000
Subject: [PATCH 28/36] fix: the smallest 64-bit integer literal is negated
 without overflow

---
 src/mizugaki/analyzer/details/analyze_literal.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_literal.cpp b/src/mizugaki/analyzer/details/analyze_literal.cpp
index f6d24f7..cda0d9d 100644
--- a/src/mizugaki/analyzer/details/analyze_literal.cpp
+++ b/src/mizugaki/analyzer/details/analyze_literal.cpp
@@ -266,10 +266,11 @@ private:
             if (triple.coefficient_high() == 0
                 && ((triple.coefficient_low() <= positive_max)
                     || (triple.sign() < 0 && triple.coefficient_low() <= negative_max))) {
-                integer = static_cast<std::int64_t>(triple.coefficient_low());
+                auto coefficient = static_cast<std::uint64_t>(triple.coefficient_low());
                 if (triple.sign() < 0) {
-                    integer = -*integer;
+                    coefficient = std::uint64_t { 0 } - coefficient;
                 }
+                integer = static_cast<std::int64_t>(coefficient);
             }
             if (integer) {
                 if (context_.options()->prefer_small_integer_literals()) {
-- 
2.43.0


From b0929b587bbea58d7fd1582965bdf99c0adf2ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:58 +0000
Subject: [PATCH 29/36] fix: overload resolution picks the most specific
 function in any order of declaration

---
 .../details/analyze_scalar_expression.cpp     | 55 ++++++++++++-------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
index 9cd9315..6baa9b5 100644
--- a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
@@ -1545,31 +1545,44 @@ public:
             analyzer_context& context,
             std::vector<std::shared_ptr<TDecl>> const& candidates,
             ast::node_region region) {
-        std::size_t left_idx = 0;
-        for (std::size_t right_idx = 1, n = candidates.size(); right_idx < n; ++right_idx) {
+        // find the candidate which is more specific than every other one
+        std::size_t first_rival_idx = 0;
+        for (std::size_t left_idx = 0, n = candidates.size(); left_idx < n; ++left_idx) {
             auto const* left = candidates[left_idx].get();
-            auto const* right = candidates[right_idx].get();
-            auto forward_applicable = is_applicable(left->shared_parameter_types(), right->shared_parameter_types());
-            auto reverse_applicable = is_applicable(right->shared_parameter_types(), left->shared_parameter_types());
-            if (forward_applicable == reverse_applicable) {
-                string_builder builder {};
-                builder << "ambiguous function overload: "
-                        << left->name()
-                        << " - ";
-                append_string(builder, left->shared_parameter_types());
-                builder << " and ";
-                append_string(builder, right->shared_parameter_types());
-                context.report(
-                        sql_analyzer_code::function_ambiguous,
-                        builder << string_builder::to_string,
-                        region);
-                return {};
+            bool most_specific = true;
+            for (std::size_t right_idx = 0; right_idx < n; ++right_idx) {
+                if (left_idx == right_idx) {
+                    continue;
+                }
+                auto const* right = candidates[right_idx].get();
+                auto forward_applicable = is_applicable(left->shared_parameter_types(), right->shared_parameter_types());
+                auto reverse_applicable = is_applicable(right->shared_parameter_types(), left->shared_parameter_types());
+                if (!forward_applicable || reverse_applicable) {
+                    most_specific = false;
+                    if (left_idx == 0) {
+                        first_rival_idx = right_idx;
+                    }
+                    break;
+                }
             }
-            if (reverse_applicable) {
-                left_idx = right_idx;
+            if (most_specific) {
+                return candidates[left_idx];
             }
         }
-        return candidates[left_idx];
+        auto const* left = candidates.front().get();
+        auto const* right = candidates[first_rival_idx].get();
+        string_builder builder {};
+        builder << "ambiguous function overload: "
+                << left->name()
+                << " - ";
+        append_string(builder, left->shared_parameter_types());
+        builder << " and ";
+        append_string(builder, right->shared_parameter_types());
+        context.report(
+                sql_analyzer_code::function_ambiguous,
+                builder << string_builder::to_string,
+                region);
+        return {};
     }
 
     template<class TDecl, class TNode>
-- 
2.43.0


From 4e2fd2895d156c8fd61a7d2ae621cc1f979461fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:32 +0000
Subject: [PATCH 30/36] fix: UPDATE and DELETE of a table without primary key
 columns are rejected

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index fca8e29..86152d2 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -474,6 +474,9 @@ public:
         }
 
         auto write_keys = build_write_keys(info, stmt.table_name()->region());
+        if (write_keys.empty()) {
+            return {}; // error
+        }
 
         ::tsl::hopscotch_set<::yugawara::storage::column const*> saw_columns { stmt.elements().size() };
         auto projections = create_vector<trelation::project::column>(stmt.elements().size());
@@ -584,6 +587,9 @@ public:
         }
 
         auto write_keys = build_write_keys(info, stmt.table_name()->region());
+        if (write_keys.empty()) {
+            return {}; // error
+        }
 
         auto&& op_write = graph->insert(context_.create<trelation::write>(
                 stmt.table_name()->region(),
-- 
2.43.0


From dbbe055bff9458af955ecc0f0365e341327fa703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:42 +0000
Subject: [PATCH 31/36] fix: the correlation name of APPLY is normalized like
 other relation names

---
 src/mizugaki/analyzer/details/analyze_query_expression.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index f9261b3..e3d0565 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -1135,7 +1135,10 @@ public:
             return {};
         }
 
-        relation_info info { {}, correlation.correlation_name()->identifier() };
+        relation_info info {
+                {},
+                normalize_identifier(context_, *correlation.correlation_name(), name_kind::relation),
+        };
         ::tsl::hopscotch_set<std::string> saw_column_names {};
         saw_column_names.reserve(table_type.columns().size());
         for (std::size_t index = 0; index < table_type.columns().size(); ++index) {
-- 
2.43.0


From a7c95fc85ddab8a42f7864b75a0c8bafccc47051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:42 +0000
Subject: [PATCH 32/36] fix: schema-qualified columns of outer queries are
 found in subqueries

---
 src/mizugaki/analyzer/details/analyze_name.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_name.cpp b/src/mizugaki/analyzer/details/analyze_name.cpp
index 155e777..b5971e5 100644
--- a/src/mizugaki/analyzer/details/analyze_name.cpp
+++ b/src/mizugaki/analyzer/details/analyze_name.cpp
@@ -627,7 +627,7 @@ private:
             if (targets.contains(symbol_kind::relation_info)) {
                 auto r = find_relation_info_in_schema(scope, **q, qualified_name.last_name());
                 if (auto&& v = r.found()) {
-                    return scoped_relation_info { *v };
+                    return *v;
                 }
                 if (r.is_error()) {
                     return saw_error;
@@ -791,13 +791,15 @@ private:
             schema_decl const& schema,
             ast::name::simple const& name) {
         if (auto decl = find_relation_decl_in_schema(schema, name); decl.found()) {
-            auto r = scope.find(*decl.found());
-            if (r.is_found()) {
-                return { scoped_relation_info { *r } };
-            }
-            if (r.is_ambiguous()) {
-                report_relation_ambiguous(name);
-                return find_symbol_result<scoped_relation_info>::error;
+            for (optional_ptr current { scope }; current; current = current->parent()) {
+                auto r = current->find(*decl.found());
+                if (r.is_found()) {
+                    return { scoped_relation_info { *r, *current } };
+                }
+                if (r.is_ambiguous()) {
+                    report_relation_ambiguous(name);
+                    return find_symbol_result<scoped_relation_info>::error;
+                }
             }
             // not found
         } else if (decl.is_error()) {
-- 
2.43.0


From 29bea81cf3058a4fdd6bbeba866e1ea912674b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:27 +0000
Subject: [PATCH 33/36] fix: a missing column of ALTER TABLE RENAME COLUMN is
 reported at its own name

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 86152d2..c434bfd 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -1550,7 +1550,7 @@ public:
                             << table->simple_name()
                             << "\""
                             << string_builder::to_string,
-                    action.replacement()->region());
+                    action.column_name()->region());
             return {};
         }
         if (find_column(*table, *action.replacement())) {
-- 
2.43.0


From a7ed657e5c212b782af262c47cc67cc197494c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:27 +0000
Subject: [PATCH 34/36] fix: CREATE TEMPORARY TABLE is rejected instead of
 defining a permanent table

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index c434bfd..502d613 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -703,6 +703,13 @@ public:
 
     [[nodiscard]] result_type operator()(ast::statement::table_definition const& stmt) { // NOLINT(*-function-cognitive-complexity)
         // check features
+        if (auto opt = find(stmt.options(), ast::statement::table_definition_option::temporary)) {
+            context_.report(
+                    sql_analyzer_code::unsupported_feature,
+                    "temporary table is not supported yet",
+                    opt->region());
+            return {};
+        }
         if (!stmt.parameters().empty()) {
             context_.report(
                     sql_analyzer_code::unsupported_feature,
-- 
2.43.0


From 398025847738230477922e4807f06113d989b30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:27 +0000
Subject: [PATCH 35/36] fix: COLLATE of grouping columns and index keys is
 rejected instead of being ignored

---
 .../analyzer/details/analyze_query_expression.cpp         | 7 +++++++
 src/mizugaki/analyzer/details/analyze_statement.cpp       | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index e3d0565..1aacdfc 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -1323,6 +1323,13 @@ public:
             ast::query::grouping_column const& elem,
             set_function_processor& processor,
             query_scope& scope) {
+        if (elem.collation()) {
+            context_.report(
+                    sql_analyzer_code::unsupported_feature,
+                    "collation in GROUP BY is not yet supported",
+                    elem.region());
+            return false;
+        }
         auto r = analyze_scalar_expression(context_, *elem.column(), scope);
         if (!r) {
             return {};
diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 502d613..c2b2aa8 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -1286,6 +1286,14 @@ public:
         ::tsl::hopscotch_set<::yugawara::storage::column const*> saw_columns { source_keys.size() };
         auto index_keys = create_vector<::yugawara::storage::index::key>(source_keys.size());
         for (auto&& key : source_keys) {
+            if (auto&& p = key.collation()) {
+                // FIXME: impl collation for indices
+                context_.report(
+                        sql_analyzer_code::unsupported_feature,
+                        "index key element with collation is not supported",
+                        p->region());
+                return {};
+            }
             if (auto&& p = key.null_location()) {
                 // FIXME: impl NULLS FIRST/LAST for indices
                 context_.report(
-- 
2.43.0


From 945b5a270907a4adc7369fad2fd9d534ce3cfc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:51 +0000
Subject: [PATCH 36/36] fix: queries of WITH are kept while the resolutions of
 their expressions are

The resolutions of expressions are identified by their addresses. The
query of a WITH element was disposed together with its scope, with the
resolutions left behind: another expression which came to be at such an
address took over its type.
---
 .../analyzer/details/analyze_query_expression.cpp    |  3 +++
 src/mizugaki/analyzer/details/analyzer_context.cpp   |  6 ++++++
 src/mizugaki/analyzer/details/analyzer_context.h     | 12 ++++++++++++
 3 files changed, 21 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index 1aacdfc..58a1757 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -815,6 +815,9 @@ public:
                 std::move(columns),
                 std::move(column_names));
 
+        // NOTE: the query has resolved expressions, but no one keeps it out of the scope
+        context_.retain(std::shared_ptr<trelation::graph_type const> { subquery, &subquery->query_graph() });
+
         auto inserted = scope.add(
                 normalize_identifier(context_, *element.name(), name_kind::relation),
                 std::move(subquery));
diff --git a/src/mizugaki/analyzer/details/analyzer_context.cpp b/src/mizugaki/analyzer/details/analyzer_context.cpp
index 656b36c..f90410c 100644
--- a/src/mizugaki/analyzer/details/analyzer_context.cpp
+++ b/src/mizugaki/analyzer/details/analyzer_context.cpp
@@ -40,6 +40,7 @@ finalizer analyzer_context::initialize(
     expression_analyzer_.clear_diagnostics();
     expression_analyzer_.variables().clear();
     expression_analyzer_.expressions().clear();
+    retained_.clear();
     expression_analyzer_.allow_unresolved(false);
 
     return f;
@@ -58,6 +59,7 @@ void analyzer_context::finalize() {
     expression_analyzer_.clear_diagnostics();
     expression_analyzer_.variables().clear();
     expression_analyzer_.expressions().clear();
+    retained_.clear();
 
     initialized_.store(false, std::memory_order_release);
 }
@@ -109,6 +111,10 @@ void analyzer_context::clear_expression_resolution(::takatori::scalar::expressio
     expression_analyzer_.expressions().unbind(expression);
 }
 
+void analyzer_context::retain(std::shared_ptr<::takatori::relation::graph_type const> graph) {
+    retained_.emplace_back(std::move(graph));
+}
+
 bool analyzer_context::is_resolved(takatori::descriptor::variable const& variable) const {
     auto&& resolution = expression_analyzer_.variables().find(variable);
     return resolution.is_resolved();
diff --git a/src/mizugaki/analyzer/details/analyzer_context.h b/src/mizugaki/analyzer/details/analyzer_context.h
index 82d578b..b148672 100644
--- a/src/mizugaki/analyzer/details/analyzer_context.h
+++ b/src/mizugaki/analyzer/details/analyzer_context.h
@@ -1,6 +1,8 @@
 #pragma once
 
 #include <atomic>
+#include <memory>
+#include <vector>
 
 #include <takatori/type/data.h>
 #include <takatori/value/data.h>
@@ -8,6 +10,7 @@
 #include <takatori/scalar/expression.h>
 
 #include <takatori/relation/expression.h>
+#include <takatori/relation/graph.h>
 
 #include <takatori/util/finalizer.h>
 
@@ -94,6 +97,14 @@ public:
 
     void clear_expression_resolution(::takatori::scalar::expression const& expression);
 
+    /**
+     * @brief keeps the given graph until the analysis finishes.
+     * @details expression resolutions are identified by the address of expressions, so that
+     *   the resolved expressions must not be disposed during the analysis unless their resolutions are cleared.
+     * @param graph the graph to keep
+     */
+    void retain(std::shared_ptr<::takatori::relation::graph_type const> graph);
+
     [[nodiscard]] ::takatori::document::region convert(ast::node_region region) const;
 
     template<class T>
@@ -141,6 +152,7 @@ private:
     ::yugawara::util::object_repository<::takatori::type::data> types_ {};
     ::yugawara::util::object_repository<::takatori::value::data> values_ {};
     ::yugawara::analyzer::expression_analyzer expression_analyzer_ {};
+    std::vector<std::shared_ptr<::takatori::relation::graph_type const>> retained_ {};
 
     void finalize();
 
-- 
2.43.0

