AST_NODE(::mizugaki::ast::literal::boolean, ::mizugaki::ast::literal::literal, S(value))
AST_NODE(::mizugaki::ast::literal::datetime, ::mizugaki::ast::literal::literal, S(value_kind) S(value))
AST_NODE(::mizugaki::ast::literal::default_, ::mizugaki::ast::literal::literal, )
AST_NODE(::mizugaki::ast::literal::empty, ::mizugaki::ast::literal::literal, )
AST_NODE(::mizugaki::ast::literal::interval, ::mizugaki::ast::literal::literal, S(sign) S(value))
AST_NODE(::mizugaki::ast::literal::null, ::mizugaki::ast::literal::literal, )
AST_NODE(::mizugaki::ast::literal::numeric, ::mizugaki::ast::literal::literal, S(value_kind) S(sign) S(unsigned_value))
AST_NODE(::mizugaki::ast::literal::string, ::mizugaki::ast::literal::literal, S(value_kind) S(value) S(concatenations))
AST_NODE(::mizugaki::ast::name::qualified, ::mizugaki::ast::name::name, S(qualifier) S(last))
AST_NODE(::mizugaki::ast::name::simple, ::mizugaki::ast::name::name, S(identifier) S(identifier_kind))
AST_NODE(::mizugaki::ast::query::binary_expression, ::mizugaki::ast::query::expression, S(operator_kind) S(left) S(right) S(quantifier) S(corresponding))
AST_NODE(::mizugaki::ast::query::grouping_column, ::mizugaki::ast::query::grouping_element, S(column) S(collation))
AST_NODE(::mizugaki::ast::query::query, ::mizugaki::ast::query::expression, S(elements) S(from) S(where) S(group_by) S(having) S(order_by) S(limit) S(quantifier))
AST_NODE(::mizugaki::ast::query::select_asterisk, ::mizugaki::ast::query::select_element, S(qualifier))
AST_NODE(::mizugaki::ast::query::select_column, ::mizugaki::ast::query::select_element, S(value) S(name))
AST_NODE(::mizugaki::ast::query::table_reference, ::mizugaki::ast::query::expression, S(name))
AST_NODE(::mizugaki::ast::query::table_value_constructor, ::mizugaki::ast::query::expression, S(elements))
AST_NODE(::mizugaki::ast::query::with_expression, ::mizugaki::ast::query::expression, S(elements) S(expression) S(is_recursive))
AST_NODE(::mizugaki::ast::scalar::between_predicate, ::mizugaki::ast::scalar::expression, S(target) S(left) S(right) S(operator_kind) S(is_not))
AST_NODE(::mizugaki::ast::scalar::binary_expression, ::mizugaki::ast::scalar::expression, S(operator_kind) S(left) S(right))
AST_NODE(::mizugaki::ast::scalar::builtin_function_invocation, ::mizugaki::ast::scalar::expression, S(function) S(arguments))
AST_NODE(::mizugaki::ast::scalar::builtin_set_function_invocation, ::mizugaki::ast::scalar::expression, S(function) S(quantifier) S(arguments))
AST_NODE(::mizugaki::ast::scalar::case_expression, ::mizugaki::ast::scalar::expression, S(operand) S(when_clauses) S(default_result))
AST_NODE(::mizugaki::ast::scalar::cast_expression, ::mizugaki::ast::scalar::expression, S(operator_kind) S(operand) S(type))
AST_NODE(::mizugaki::ast::scalar::comparison_predicate, ::mizugaki::ast::scalar::expression, S(operator_kind) S(left) S(right))
AST_NODE(::mizugaki::ast::scalar::current_of_cursor, ::mizugaki::ast::scalar::expression, S(name))
AST_NODE(::mizugaki::ast::scalar::extract_expression, ::mizugaki::ast::scalar::expression, S(field) S(subsecond_digits) S(operand))
AST_NODE(::mizugaki::ast::scalar::field_reference, ::mizugaki::ast::scalar::expression, S(operator_kind) S(value) S(name))
AST_NODE(::mizugaki::ast::scalar::function_invocation, ::mizugaki::ast::scalar::expression, S(name) S(arguments))
AST_NODE(::mizugaki::ast::scalar::host_parameter_reference, ::mizugaki::ast::scalar::expression, S(name))
AST_NODE(::mizugaki::ast::scalar::in_predicate, ::mizugaki::ast::scalar::expression, S(left) S(right) S(is_not))
AST_NODE(::mizugaki::ast::scalar::literal_expression, ::mizugaki::ast::scalar::expression, S(value))
AST_NODE(::mizugaki::ast::scalar::method_invocation, ::mizugaki::ast::scalar::expression, S(operator_kind) S(value) S(name) S(arguments))
AST_NODE(::mizugaki::ast::scalar::new_invocation, ::mizugaki::ast::scalar::expression, S(type) S(arguments))
AST_NODE(::mizugaki::ast::scalar::pattern_match_predicate, ::mizugaki::ast::scalar::expression, S(operator_kind) S(match_value) S(pattern) S(escape) S(is_not))
AST_NODE(::mizugaki::ast::scalar::placeholder_reference, ::mizugaki::ast::scalar::expression, S(index))
AST_NODE(::mizugaki::ast::scalar::quantified_comparison_predicate, ::mizugaki::ast::scalar::expression, S(operator_kind) S(quantifier) S(left) S(right))
AST_NODE(::mizugaki::ast::scalar::static_method_invocation, ::mizugaki::ast::scalar::expression, S(type) S(name) S(arguments))
AST_NODE(::mizugaki::ast::scalar::subquery, ::mizugaki::ast::scalar::expression, S(query) S(context_kind))
AST_NODE(::mizugaki::ast::scalar::table_predicate, ::mizugaki::ast::scalar::expression, S(operator_kind) S(operand))
AST_NODE(::mizugaki::ast::scalar::trim_expression, ::mizugaki::ast::scalar::expression, S(specification) S(character) S(source))
AST_NODE(::mizugaki::ast::scalar::unary_expression, ::mizugaki::ast::scalar::expression, S(operator_kind) S(operand))
AST_NODE(::mizugaki::ast::scalar::value_constructor, ::mizugaki::ast::scalar::expression, S(operator_kind) S(elements))
AST_NODE(::mizugaki::ast::scalar::variable_reference, ::mizugaki::ast::scalar::expression, S(name))
AST_NODE(::mizugaki::ast::statement::alter_index_statement, ::mizugaki::ast::statement::statement, S(if_exists) S(name) S(action))
AST_NODE(::mizugaki::ast::statement::alter_table_statement, ::mizugaki::ast::statement::statement, S(if_exists) S(name) S(action))
AST_NODE(::mizugaki::ast::statement::column_definition, ::mizugaki::ast::statement::table_element, S(name) S(type) S(constraints) S(description))
AST_NODE(::mizugaki::ast::statement::delete_statement, ::mizugaki::ast::statement::statement, S(table_name) S(alias_name) S(where))
AST_NODE(::mizugaki::ast::statement::drop_statement, ::mizugaki::ast::statement::statement, S(statement_kind) S(name) S(options))
AST_NODE(::mizugaki::ast::statement::empty_statement, ::mizugaki::ast::statement::statement, )
AST_NODE(::mizugaki::ast::statement::expression_constraint, ::mizugaki::ast::statement::constraint, S(constraint_kind) S(expression))
AST_NODE(::mizugaki::ast::statement::grant_privilege_statement, ::mizugaki::ast::statement::statement, S(actions) S(objects) S(users))
AST_NODE(::mizugaki::ast::statement::identity_constraint, ::mizugaki::ast::statement::constraint, S(generation) S(initial_value) S(increment_value) S(min_value) S(max_value) S(cycle))
AST_NODE(::mizugaki::ast::statement::index_definition, ::mizugaki::ast::statement::statement, S(name) S(table_name) S(keys) S(values) S(predicate) S(options) S(parameters) S(description))
AST_NODE(::mizugaki::ast::statement::insert_statement, ::mizugaki::ast::statement::statement, S(table_name) S(columns) S(expression) S(options))
AST_NODE(::mizugaki::ast::statement::key_constraint, ::mizugaki::ast::statement::constraint, S(constraint_kind) S(key) S(values) S(parameters))
AST_NODE(::mizugaki::ast::statement::referential_constraint, ::mizugaki::ast::statement::constraint, S(columns) S(target) S(target_columns) S(on_update) S(on_delete))
AST_NODE(::mizugaki::ast::statement::rename_column_action, ::mizugaki::ast::statement::alter_table_action, S(if_exists) S(column_name) S(replacement))
AST_NODE(::mizugaki::ast::statement::rename_index_action, ::mizugaki::ast::statement::alter_index_action, S(replacement))
AST_NODE(::mizugaki::ast::statement::rename_table_action, ::mizugaki::ast::statement::alter_table_action, S(replacement))
AST_NODE(::mizugaki::ast::statement::revoke_privilege_statement, ::mizugaki::ast::statement::statement, S(actions) S(objects) S(users))
AST_NODE(::mizugaki::ast::statement::schema_definition, ::mizugaki::ast::statement::statement, S(name) S(user_name) S(elements) S(options) S(description))
AST_NODE(::mizugaki::ast::statement::select_statement, ::mizugaki::ast::statement::statement, S(expression) S(targets))
AST_NODE(::mizugaki::ast::statement::sequence_definition, ::mizugaki::ast::statement::statement, S(name) S(type) S(initial_value) S(increment_value) S(min_value) S(max_value) S(options) S(description) S(owner))
AST_NODE(::mizugaki::ast::statement::simple_constraint, ::mizugaki::ast::statement::constraint, S(constraint_kind))
AST_NODE(::mizugaki::ast::statement::table_constraint_definition, ::mizugaki::ast::statement::table_element, S(name) S(body))
AST_NODE(::mizugaki::ast::statement::table_definition, ::mizugaki::ast::statement::statement, S(name) S(elements) S(options) S(parameters) S(description))
AST_NODE(::mizugaki::ast::statement::truncate_table_statement, ::mizugaki::ast::statement::statement, S(name) S(identity_column_option))
AST_NODE(::mizugaki::ast::statement::update_statement, ::mizugaki::ast::statement::statement, S(table_name) S(alias_name) S(elements) S(where))
AST_NODE(::mizugaki::ast::statement::view_definition, ::mizugaki::ast::statement::statement, S(name) S(columns) S(query) S(options) S(parameters) S(description))
AST_NODE(::mizugaki::ast::table::apply, ::mizugaki::ast::table::expression, S(operand) S(operator_kind) S(name) S(arguments) S(correlation))
AST_NODE(::mizugaki::ast::table::join, ::mizugaki::ast::table::expression, S(operator_kind) S(left) S(right) S(specification))
AST_NODE(::mizugaki::ast::table::join_columns, ::mizugaki::ast::table::join_specification, S(columns))
AST_NODE(::mizugaki::ast::table::join_condition, ::mizugaki::ast::table::join_specification, S(expression))
AST_NODE(::mizugaki::ast::table::subquery, ::mizugaki::ast::table::expression, S(expression) S(correlation) S(is_lateral))
AST_NODE(::mizugaki::ast::table::table_reference, ::mizugaki::ast::table::expression, S(name) S(correlation) S(is_only))
AST_NODE(::mizugaki::ast::table::unnest, ::mizugaki::ast::table::expression, S(expression) S(with_ordinality) S(correlation))
AST_NODE(::mizugaki::ast::type::binary_numeric, ::mizugaki::ast::type::type, S(type_kind) S(precision))
AST_NODE(::mizugaki::ast::type::bit_string, ::mizugaki::ast::type::type, S(type_kind) S(length))
AST_NODE(::mizugaki::ast::type::character_string, ::mizugaki::ast::type::type, S(type_kind) S(length))
AST_NODE(::mizugaki::ast::type::collection, ::mizugaki::ast::type::type, S(element) S(length))
AST_NODE(::mizugaki::ast::type::datetime, ::mizugaki::ast::type::type, S(type_kind) S(has_time_zone))
AST_NODE(::mizugaki::ast::type::decimal, ::mizugaki::ast::type::type, S(type_kind) S(precision) S(scale))
AST_NODE(::mizugaki::ast::type::interval, ::mizugaki::ast::type::type, )
AST_NODE(::mizugaki::ast::type::octet_string, ::mizugaki::ast::type::type, S(type_kind) S(length))
AST_NODE(::mizugaki::ast::type::row, ::mizugaki::ast::type::type, S(elements))
AST_NODE(::mizugaki::ast::type::simple, ::mizugaki::ast::type::type, )
AST_NODE(::mizugaki::ast::type::user_defined, ::mizugaki::ast::type::type, S(name))
AST_ELEMENT(::mizugaki::ast::common::sort_element, ::mizugaki::ast::common::element, S(key) S(collation) S(direction) S(null_location))
AST_ELEMENT(::mizugaki::ast::common::target_element, ::mizugaki::ast::common::element, S(target) S(indicator))
AST_ELEMENT(::mizugaki::ast::query::corresponding_clause, ::mizugaki::ast::query::element, S(column_names))
AST_ELEMENT(::mizugaki::ast::query::group_by_clause, ::mizugaki::ast::query::element, S(elements))
AST_ELEMENT(::mizugaki::ast::query::with_element, ::mizugaki::ast::query::element, S(name) S(expression) S(column_names))
AST_ELEMENT(::mizugaki::ast::scalar::case_when_clause, ::mizugaki::ast::scalar::element, S(when) S(result))
AST_ELEMENT(::mizugaki::ast::statement::column_constraint_definition, ::mizugaki::ast::statement::element, S(name) S(body))
AST_ELEMENT(::mizugaki::ast::statement::privilege_action, ::mizugaki::ast::statement::element, S(action_kind))
AST_ELEMENT(::mizugaki::ast::statement::privilege_object, ::mizugaki::ast::statement::element, S(object_kind) S(object_name))
AST_ELEMENT(::mizugaki::ast::statement::privilege_user, ::mizugaki::ast::statement::element, S(user_kind) S(authorization_identifier))
AST_ELEMENT(::mizugaki::ast::statement::set_element, ::mizugaki::ast::statement::element, S(target) S(value))
AST_ELEMENT(::mizugaki::ast::statement::storage_parameter, ::mizugaki::ast::statement::element, S(name) S(value))
AST_ELEMENT(::mizugaki::ast::table::correlation_clause, ::mizugaki::ast::table::element, S(correlation_name) S(column_names))
AST_ELEMENT(::mizugaki::ast::type::field_definition, ::mizugaki::ast::type::element, S(name) S(type) S(collation))
