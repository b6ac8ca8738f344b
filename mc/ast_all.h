#pragma once
#include <mizugaki/ast/common/chars.h>
#include <mizugaki/ast/common/clone_wrapper.h>
#include <mizugaki/ast/common/namespace.h>
#include <mizugaki/ast/common/null_ordering_specification.h>
#include <mizugaki/ast/common/optional.h>
#include <mizugaki/ast/common/ordering_specification.h>
#include <mizugaki/ast/common/regioned.h>
#include <mizugaki/ast/common/rvalue_list.h>
#include <mizugaki/ast/common/sort_element.h>
#include <mizugaki/ast/common/target_element.h>
#include <mizugaki/ast/common/vector.h>
#include <mizugaki/ast/compilation_unit.h>
#include <mizugaki/ast/element.h>
#include <mizugaki/ast/literal/boolean.h>
#include <mizugaki/ast/literal/boolean_kind.h>
#include <mizugaki/ast/literal/datetime.h>
#include <mizugaki/ast/literal/dispatch.h>
#include <mizugaki/ast/literal/interval.h>
#include <mizugaki/ast/literal/kind.h>
#include <mizugaki/ast/literal/literal.h>
#include <mizugaki/ast/literal/namespace.h>
#include <mizugaki/ast/literal/numeric.h>
#include <mizugaki/ast/literal/sign.h>
#include <mizugaki/ast/literal/special.h>
#include <mizugaki/ast/literal/string.h>
#include <mizugaki/ast/name/dispatch.h>
#include <mizugaki/ast/name/identifier_kind.h>
#include <mizugaki/ast/name/kind.h>
#include <mizugaki/ast/name/name.h>
#include <mizugaki/ast/name/namespace.h>
#include <mizugaki/ast/name/qualified.h>
#include <mizugaki/ast/name/simple.h>
#include <mizugaki/ast/namespace.h>
#include <mizugaki/ast/node.h>
#include <mizugaki/ast/node_region.h>
#include <mizugaki/ast/query/binary_expression.h>
#include <mizugaki/ast/query/binary_operator.h>
#include <mizugaki/ast/query/corresponding_clause.h>
#include <mizugaki/ast/query/dispatch.h>
#include <mizugaki/ast/query/expression.h>
#include <mizugaki/ast/query/group_by_clause.h>
#include <mizugaki/ast/query/grouping_column.h>
#include <mizugaki/ast/query/grouping_element.h>
#include <mizugaki/ast/query/grouping_element_kind.h>
#include <mizugaki/ast/query/kind.h>
#include <mizugaki/ast/query/namespace.h>
#include <mizugaki/ast/query/query.h>
#include <mizugaki/ast/query/select_asterisk.h>
#include <mizugaki/ast/query/select_column.h>
#include <mizugaki/ast/query/select_element.h>
#include <mizugaki/ast/query/select_element_kind.h>
#include <mizugaki/ast/query/table_reference.h>
#include <mizugaki/ast/query/table_value_constructor.h>
#include <mizugaki/ast/query/with_element.h>
#include <mizugaki/ast/query/with_expression.h>
#include <mizugaki/ast/scalar/between_operator.h>
#include <mizugaki/ast/scalar/between_predicate.h>
#include <mizugaki/ast/scalar/binary_expression.h>
#include <mizugaki/ast/scalar/binary_operator.h>
#include <mizugaki/ast/scalar/builtin_function_invocation.h>
#include <mizugaki/ast/scalar/builtin_function_kind.h>
#include <mizugaki/ast/scalar/builtin_set_function_invocation.h>
#include <mizugaki/ast/scalar/builtin_set_function_kind.h>
#include <mizugaki/ast/scalar/case_expression.h>
#include <mizugaki/ast/scalar/case_when_clause.h>
#include <mizugaki/ast/scalar/cast_expression.h>
#include <mizugaki/ast/scalar/cast_operator.h>
#include <mizugaki/ast/scalar/comparison_operator.h>
#include <mizugaki/ast/scalar/comparison_predicate.h>
#include <mizugaki/ast/scalar/current_of_cursor.h>
#include <mizugaki/ast/scalar/dispatch.h>
#include <mizugaki/ast/scalar/expression.h>
#include <mizugaki/ast/scalar/expression_context_kind.h>
#include <mizugaki/ast/scalar/extract_expression.h>
#include <mizugaki/ast/scalar/extract_field_kind.h>
#include <mizugaki/ast/scalar/field_reference.h>
#include <mizugaki/ast/scalar/function_invocation.h>
#include <mizugaki/ast/scalar/host_parameter_reference.h>
#include <mizugaki/ast/scalar/in_predicate.h>
#include <mizugaki/ast/scalar/kind.h>
#include <mizugaki/ast/scalar/literal_expression.h>
#include <mizugaki/ast/scalar/method_invocation.h>
#include <mizugaki/ast/scalar/namespace.h>
#include <mizugaki/ast/scalar/new_invocation.h>
#include <mizugaki/ast/scalar/pattern_match_operator.h>
#include <mizugaki/ast/scalar/pattern_match_predicate.h>
#include <mizugaki/ast/scalar/placeholder_reference.h>
#include <mizugaki/ast/scalar/quantified_comparison_predicate.h>
#include <mizugaki/ast/scalar/quantifier.h>
#include <mizugaki/ast/scalar/reference_operator.h>
#include <mizugaki/ast/scalar/set_quantifier.h>
#include <mizugaki/ast/scalar/static_method_invocation.h>
#include <mizugaki/ast/scalar/subquery.h>
#include <mizugaki/ast/scalar/table_operator.h>
#include <mizugaki/ast/scalar/table_predicate.h>
#include <mizugaki/ast/scalar/trim_expression.h>
#include <mizugaki/ast/scalar/trim_specification.h>
#include <mizugaki/ast/scalar/unary_expression.h>
#include <mizugaki/ast/scalar/unary_operator.h>
#include <mizugaki/ast/scalar/value_constructor.h>
#include <mizugaki/ast/scalar/value_constructor_kind.h>
#include <mizugaki/ast/scalar/variable_reference.h>
#include <mizugaki/ast/statement/alter_index_action.h>
#include <mizugaki/ast/statement/alter_index_action_kind.h>
#include <mizugaki/ast/statement/alter_index_statement.h>
#include <mizugaki/ast/statement/alter_table_action.h>
#include <mizugaki/ast/statement/alter_table_action_kind.h>
#include <mizugaki/ast/statement/alter_table_statement.h>
#include <mizugaki/ast/statement/column_constraint_definition.h>
#include <mizugaki/ast/statement/column_definition.h>
#include <mizugaki/ast/statement/constraint.h>
#include <mizugaki/ast/statement/constraint_kind.h>
#include <mizugaki/ast/statement/delete_statement.h>
#include <mizugaki/ast/statement/dispatch.h>
#include <mizugaki/ast/statement/drop_statement.h>
#include <mizugaki/ast/statement/drop_statement_option.h>
#include <mizugaki/ast/statement/empty_statement.h>
#include <mizugaki/ast/statement/expression_constraint.h>
#include <mizugaki/ast/statement/grant_privilege_statement.h>
#include <mizugaki/ast/statement/identity_column_restart_option.h>
#include <mizugaki/ast/statement/identity_constraint.h>
#include <mizugaki/ast/statement/identity_generation_type.h>
#include <mizugaki/ast/statement/index_definition.h>
#include <mizugaki/ast/statement/index_definition_option.h>
#include <mizugaki/ast/statement/insert_statement.h>
#include <mizugaki/ast/statement/insert_statement_option.h>
#include <mizugaki/ast/statement/key_constraint.h>
#include <mizugaki/ast/statement/kind.h>
#include <mizugaki/ast/statement/namespace.h>
#include <mizugaki/ast/statement/privilege_action.h>
#include <mizugaki/ast/statement/privilege_action_kind.h>
#include <mizugaki/ast/statement/privilege_object.h>
#include <mizugaki/ast/statement/privilege_object_kind.h>
#include <mizugaki/ast/statement/privilege_user.h>
#include <mizugaki/ast/statement/privilege_user_kind.h>
#include <mizugaki/ast/statement/referential_action.h>
#include <mizugaki/ast/statement/referential_constraint.h>
#include <mizugaki/ast/statement/rename_column_action.h>
#include <mizugaki/ast/statement/rename_index_action.h>
#include <mizugaki/ast/statement/rename_table_action.h>
#include <mizugaki/ast/statement/revoke_privilege_statement.h>
#include <mizugaki/ast/statement/schema_definition.h>
#include <mizugaki/ast/statement/schema_definition_option.h>
#include <mizugaki/ast/statement/select_statement.h>
#include <mizugaki/ast/statement/sequence_definition.h>
#include <mizugaki/ast/statement/sequence_definition_option.h>
#include <mizugaki/ast/statement/set_element.h>
#include <mizugaki/ast/statement/simple_constraint.h>
#include <mizugaki/ast/statement/statement.h>
#include <mizugaki/ast/statement/storage_parameter.h>
#include <mizugaki/ast/statement/table_constraint_definition.h>
#include <mizugaki/ast/statement/table_definition.h>
#include <mizugaki/ast/statement/table_definition_option.h>
#include <mizugaki/ast/statement/table_element.h>
#include <mizugaki/ast/statement/table_element_kind.h>
#include <mizugaki/ast/statement/truncate_table_statement.h>
#include <mizugaki/ast/statement/update_statement.h>
#include <mizugaki/ast/statement/view_definition.h>
#include <mizugaki/ast/statement/view_definition_option.h>
#include <mizugaki/ast/table/apply.h>
#include <mizugaki/ast/table/apply_type.h>
#include <mizugaki/ast/table/correlation_clause.h>
#include <mizugaki/ast/table/dispatch.h>
#include <mizugaki/ast/table/expression.h>
#include <mizugaki/ast/table/join.h>
#include <mizugaki/ast/table/join_columns.h>
#include <mizugaki/ast/table/join_condition.h>
#include <mizugaki/ast/table/join_specification.h>
#include <mizugaki/ast/table/join_specification_kind.h>
#include <mizugaki/ast/table/join_type.h>
#include <mizugaki/ast/table/kind.h>
#include <mizugaki/ast/table/namespace.h>
#include <mizugaki/ast/table/subquery.h>
#include <mizugaki/ast/table/table_reference.h>
#include <mizugaki/ast/table/unnest.h>
#include <mizugaki/ast/type/binary_numeric.h>
#include <mizugaki/ast/type/bit_string.h>
#include <mizugaki/ast/type/character_string.h>
#include <mizugaki/ast/type/collection.h>
#include <mizugaki/ast/type/datetime.h>
#include <mizugaki/ast/type/decimal.h>
#include <mizugaki/ast/type/dispatch.h>
#include <mizugaki/ast/type/field_definition.h>
#include <mizugaki/ast/type/interval.h>
#include <mizugaki/ast/type/kind.h>
#include <mizugaki/ast/type/namespace.h>
#include <mizugaki/ast/type/octet_string.h>
#include <mizugaki/ast/type/row.h>
#include <mizugaki/ast/type/simple.h>
#include <mizugaki/ast/type/type.h>
#include <mizugaki/ast/type/user_defined.h>
