{ using T = ::mizugaki::analyzer::sql_analyzer_code; Enum<T> e(w, "mizugaki::analyzer::sql_analyzer_code");
  e.add(T::unknown, "unknown");
  e.add(T::unsupported_feature, "unsupported_feature");
  e.add(T::malformed_syntax, "malformed_syntax");
  e.add(T::missing_context_of_default_value, "missing_context_of_default_value");
  e.add(T::missing_context_of_null, "missing_context_of_null");
  e.add(T::unsupported_decimal_value, "unsupported_decimal_value");
  e.add(T::malformed_approximate_number, "malformed_approximate_number");
  e.add(T::unsupported_approximate_number, "unsupported_approximate_number");
  e.add(T::malformed_quoted_string, "malformed_quoted_string");
  e.add(T::unsupported_string_value, "unsupported_string_value");
  e.add(T::flexible_length_is_not_supported, "flexible_length_is_not_supported");
  e.add(T::invalid_type_length, "invalid_type_length");
  e.add(T::invalid_numeric_scale, "invalid_numeric_scale");
  e.add(T::catalog_not_found, "catalog_not_found");
  e.add(T::schema_not_found, "schema_not_found");
  e.add(T::table_not_found, "table_not_found");
  e.add(T::index_not_found, "index_not_found");
  e.add(T::view_not_found, "view_not_found");
  e.add(T::sequence_not_found, "sequence_not_found");
  e.add(T::column_not_found, "column_not_found");
  e.add(T::variable_not_found, "variable_not_found");
  e.add(T::function_not_found, "function_not_found");
  e.add(T::symbol_not_found, "symbol_not_found");
  e.add(T::schema_already_exists, "schema_already_exists");
  e.add(T::table_already_exists, "table_already_exists");
  e.add(T::index_already_exists, "index_already_exists");
  e.add(T::view_already_exists, "view_already_exists");
  e.add(T::sequence_already_exists, "sequence_already_exists");
  e.add(T::column_already_exists, "column_already_exists");
  e.add(T::variable_already_exists, "variable_already_exists");
  e.add(T::function_already_exists, "function_already_exists");
  e.add(T::symbol_already_exists, "symbol_already_exists");
  e.add(T::primary_index_not_found, "primary_index_not_found");
  e.add(T::primary_index_already_exists, "primary_index_already_exists");
  e.add(T::invalid_constraint, "invalid_constraint");
  e.add(T::invalid_sequence_value, "invalid_sequence_value");
  e.add(T::relation_ambiguous, "relation_ambiguous");
  e.add(T::variable_ambiguous, "variable_ambiguous");
  e.add(T::column_ambiguous, "column_ambiguous");
  e.add(T::function_ambiguous, "function_ambiguous");
  e.add(T::invalid_unsigned_integer, "invalid_unsigned_integer");
  e.add(T::inconsistent_table, "inconsistent_table");
  e.add(T::inconsistent_columns, "inconsistent_columns");
  e.add(T::invalid_aggregation_column, "invalid_aggregation_column");
  e.add(T::ambiguous_type, "ambiguous_type");
  e.add(T::inconsistent_type, "inconsistent_type");
  e.add(T::unresolved_variable, "unresolved_variable");
  e.add(T::inconsistent_elements, "inconsistent_elements");
  e.add(T::inconsistent_function_type, "inconsistent_function_type");
  e.judge();
}
{ using T = ::mizugaki::analyzer::sql_analyzer_result_kind; Enum<T> e(w, "mizugaki::analyzer::sql_analyzer_result_kind");
  e.add(T::diagnostics, "diagnostics");
  e.add(T::execution_plan, "execution_plan");
  e.add(T::statement, "statement");
  e.judge();
}
{ using T = ::mizugaki::ast::common::null_ordering_specification; Enum<T> e(w, "mizugaki::ast::common::null_ordering_specification");
  e.add(T::first, "first");
  e.add(T::last, "last");
  e.judge();
}
{ using T = ::mizugaki::ast::common::ordering_specification; Enum<T> e(w, "mizugaki::ast::common::ordering_specification");
  e.add(T::asc, "asc");
  e.add(T::desc, "desc");
  e.judge();
  e.set<::mizugaki::ast::common::ordering_specification_set>();
}
{ using T = ::mizugaki::ast::literal::boolean_kind; Enum<T> e(w, "mizugaki::ast::literal::boolean_kind");
  e.add(T::true_, "TRUE");
  e.add(T::false_, "FALSE");
  e.add(T::unknown, "UNKNOWN");
  e.judge();
  e.set<::mizugaki::ast::literal::boolean_kind_set>();
}
{ using T = ::mizugaki::ast::literal::kind; Enum<T> e(w, "mizugaki::ast::literal::kind");
  e.add(T::boolean, "boolean");
  e.add(T::exact_numeric, "exact_numeric");
  e.add(T::approximate_numeric, "approximate_numeric");
  e.add(T::character_string, "character_string");
  e.add(T::bit_string, "bit_string");
  e.add(T::hex_string, "hex_string");
  e.add(T::date, "date");
  e.add(T::time, "time");
  e.add(T::time_with_time_zone, "time_with_time_zone");
  e.add(T::timestamp, "timestamp");
  e.add(T::timestamp_with_time_zone, "timestamp_with_time_zone");
  e.add(T::interval, "interval");
  e.add(T::null, "null");
  e.add(T::empty, "empty");
  e.add(T::default_, "default");
  e.judge();
  e.set<::mizugaki::ast::literal::kind_set>();
}
{ using T = ::mizugaki::ast::literal::sign; Enum<T> e(w, "mizugaki::ast::literal::sign");
  e.add(T::plus, "plus");
  e.add(T::minus, "minus");
  e.judge();
}
{ using T = ::mizugaki::ast::name::identifier_kind; Enum<T> e(w, "mizugaki::ast::name::identifier_kind");
  e.add(T::regular, "regular");
  e.add(T::delimited, "delimited");
  e.judge();
}
{ using T = ::mizugaki::ast::name::kind; Enum<T> e(w, "mizugaki::ast::name::kind");
  e.add(T::simple, "simple");
  e.add(T::qualified, "qualified");
  e.judge();
}
{ using T = ::mizugaki::ast::query::binary_operator; Enum<T> e(w, "mizugaki::ast::query::binary_operator");
  e.add(T::union_, "union");
  e.add(T::outer_union, "outer_union");
  e.add(T::except, "except");
  e.add(T::intersect, "intersect");
  e.judge();
  e.set<::mizugaki::ast::query::binary_operator_set>();
}
{ using T = ::mizugaki::ast::query::grouping_element_kind; Enum<T> e(w, "mizugaki::ast::query::grouping_element_kind");
  e.add(T::column, "column");
  e.judge();
  e.set<::mizugaki::ast::query::grouping_element_kind_set>();
}
{ using T = ::mizugaki::ast::query::kind; Enum<T> e(w, "mizugaki::ast::query::kind");
  e.add(T::query, "query");
  e.add(T::table_reference, "table_reference");
  e.add(T::table_value_constructor, "table_value_constructor");
  e.add(T::binary_expression, "binary_expression");
  e.add(T::with_expression, "with_expression");
  e.judge();
  e.set<::mizugaki::ast::query::kind_set>();
}
{ using T = ::mizugaki::ast::query::select_element_kind; Enum<T> e(w, "mizugaki::ast::query::select_element_kind");
  e.add(T::column, "column");
  e.add(T::asterisk, "asterisk");
  e.judge();
  e.set<::mizugaki::ast::query::select_element_kind_set>();
}
{ using T = ::mizugaki::ast::scalar::between_operator; Enum<T> e(w, "mizugaki::ast::scalar::between_operator");
  e.add(T::asymmetric, "asymmetric");
  e.add(T::symmetric, "symmetric");
  e.judge();
  e.set<::mizugaki::ast::scalar::between_operator_set>();
}
{ using T = ::mizugaki::ast::scalar::binary_operator; Enum<T> e(w, "mizugaki::ast::scalar::binary_operator");
  e.add(T::plus, "plus");
  e.add(T::minus, "minus");
  e.add(T::asterisk, "asterisk");
  e.add(T::solidus, "solidus");
  e.add(T::percent, "percent");
  e.add(T::concatenation, "concatenation");
  e.add(T::element_reference, "element_reference");
  e.add(T::at_time_zone, "at_time_zone");
  e.add(T::and_, "and");
  e.add(T::or_, "or");
  e.add(T::is, "is");
  e.add(T::is_not, "is_not");
  e.add(T::overlaps, "overlaps");
  e.add(T::is_distinct_from, "is_distinct_from");
  e.add(T::contains, "contains");
  e.add(T::is_contained_by, "is_contained_by");
  e.add(T::have_elements_in_common, "have_elements_in_common");
  e.judge();
  e.set<::mizugaki::ast::scalar::binary_operator_set>();
}
{ using T = ::mizugaki::ast::scalar::builtin_function_kind; Enum<T> e(w, "mizugaki::ast::scalar::builtin_function_kind");
  e.add(T::position, "position");
  e.add(T::length, "length");
  e.add(T::character_length, "character_length");
  e.add(T::octet_length, "octet_length");
  e.add(T::bit_length, "bit_length");
  e.add(T::cardinality, "cardinality");
  e.add(T::abs, "abs");
  e.add(T::ceil, "ceil");
  e.add(T::floor, "floor");
  e.add(T::mod, "mod");
  e.add(T::substring, "substring");
  e.add(T::upper, "upper");
  e.add(T::lower, "lower");
  e.add(T::convert, "convert");
  e.add(T::translate, "translate");
  e.add(T::overlay, "overlay");
  e.add(T::current_date, "current_date");
  e.add(T::current_time, "current_time");
  e.add(T::localtime, "localtime");
  e.add(T::current_timestamp, "current_timestamp");
  e.add(T::localtimestamp, "localtimestamp");
  e.add(T::nullif, "nullif");
  e.add(T::coalesce, "coalesce");
  e.add(T::next_value_for, "next_value_for");
  e.add(T::user, "user");
  e.add(T::current_user, "current_user");
  e.add(T::current_role, "current_role");
  e.add(T::system_user, "system_user");
  e.add(T::current_path, "current_path");
  e.judge();
  e.set<::mizugaki::ast::scalar::builtin_function_kind_set>();
}
{ using T = ::mizugaki::ast::scalar::builtin_set_function_kind; Enum<T> e(w, "mizugaki::ast::scalar::builtin_set_function_kind");
  e.add(T::avg, "avg");
  e.add(T::max, "max");
  e.add(T::min, "min");
  e.add(T::sum, "sum");
  e.add(T::every, "every");
  e.add(T::any, "any");
  e.add(T::some, "some");
  e.add(T::count, "count");
  e.add(T::bit_and, "bit_and");
  e.add(T::bit_or, "bit_or");
  e.add(T::bool_and, "bool_and");
  e.add(T::bool_or, "bool_or");
  e.judge();
  e.set<::mizugaki::ast::scalar::builtin_set_function_kind_set>();
}
{ using T = ::mizugaki::ast::scalar::cast_operator; Enum<T> e(w, "mizugaki::ast::scalar::cast_operator");
  e.add(T::cast, "cast");
  e.add(T::treat, "treat");
  e.add(T::generalize, "generalize");
  e.judge();
  e.set<::mizugaki::ast::scalar::cast_operator_set>();
}
{ using T = ::mizugaki::ast::scalar::comparison_operator; Enum<T> e(w, "mizugaki::ast::scalar::comparison_operator");
  e.add(T::equals, "equals");
  e.add(T::not_equals, "not_equals");
  e.add(T::not_equals_alternative, "not_equals_alternative");
  e.add(T::less_than, "less_than");
  e.add(T::greater_than, "greater_than");
  e.add(T::less_than_or_equals, "less_than_or_equals");
  e.add(T::greater_than_or_equals, "greater_than_or_equals");
  e.judge();
  e.set<::mizugaki::ast::scalar::comparison_operator_set>();
}
{ using T = ::mizugaki::ast::scalar::expression_context_kind; Enum<T> e(w, "mizugaki::ast::scalar::expression_context_kind");
  e.add(T::scalar, "scalar");
  e.add(T::row, "row");
  e.judge();
}
{ using T = ::mizugaki::ast::scalar::extract_field_kind; Enum<T> e(w, "mizugaki::ast::scalar::extract_field_kind");
  e.add(T::year, "year");
  e.add(T::month, "month");
  e.add(T::day, "day");
  e.add(T::hour, "hour");
  e.add(T::minute, "minute");
  e.add(T::second, "second");
  e.add(T::timezone_hour, "timezone_hour");
  e.add(T::timezone_minute, "timezone_minute");
  e.add(T::date, "date");
  e.add(T::year_to_month, "year to month");
  e.add(T::year_to_day, "year to day");
  e.add(T::year_to_hour, "year to hour");
  e.add(T::year_to_minute, "year to minute");
  e.add(T::year_to_second, "year to second");
  e.judge();
  e.set<::mizugaki::ast::scalar::extract_field_kind_set>();
}
{ using T = ::mizugaki::ast::scalar::kind; Enum<T> e(w, "mizugaki::ast::scalar::kind");
  e.add(T::literal_expression, "literal_expression");
  e.add(T::variable_reference, "variable_reference");
  e.add(T::host_parameter_reference, "host_parameter_reference");
  e.add(T::field_reference, "field_reference");
  e.add(T::case_expression, "case_expression");
  e.add(T::cast_expression, "cast_expression");
  e.add(T::unary_expression, "unary_expression");
  e.add(T::binary_expression, "binary_expression");
  e.add(T::extract_expression, "extract_expression");
  e.add(T::trim_expression, "trim_expression");
  e.add(T::value_constructor, "value_constructor");
  e.add(T::subquery, "subquery");
  e.add(T::comparison_predicate, "comparison_predicate");
  e.add(T::quantified_comparison_predicate, "quantified_comparison_predicate");
  e.add(T::between_predicate, "between_predicate");
  e.add(T::in_predicate, "in_predicate");
  e.add(T::pattern_match_predicate, "pattern_match_predicate");
  e.add(T::table_predicate, "table_predicate");
  e.add(T::function_invocation, "function_invocation");
  e.add(T::builtin_function_invocation, "builtin_function_invocation");
  e.add(T::builtin_set_function_invocation, "builtin_set_function_invocation");
  e.add(T::new_invocation, "new_invocation");
  e.add(T::method_invocation, "method_invocation");
  e.add(T::static_method_invocation, "static_method_invocation");
  e.add(T::current_of_cursor, "current_of_cursor");
  e.add(T::placeholder_reference, "placeholder_reference");
  e.judge();
  e.set<::mizugaki::ast::scalar::kind_set>();
}
{ using T = ::mizugaki::ast::scalar::pattern_match_operator; Enum<T> e(w, "mizugaki::ast::scalar::pattern_match_operator");
  e.add(T::like, "like");
  e.add(T::similar_to, "similar_to");
  e.judge();
  e.set<::mizugaki::ast::scalar::pattern_match_operator_set>();
}
{ using T = ::mizugaki::ast::scalar::quantifier; Enum<T> e(w, "mizugaki::ast::scalar::quantifier");
  e.add(T::all, "all");
  e.add(T::some, "some");
  e.add(T::any, "any");
  e.judge();
  e.set<::mizugaki::ast::scalar::quantifier_set>();
}
{ using T = ::mizugaki::ast::scalar::reference_operator; Enum<T> e(w, "mizugaki::ast::scalar::reference_operator");
  e.add(T::period, "period");
  e.add(T::arrow, "arrow");
  e.judge();
  e.set<::mizugaki::ast::scalar::reference_operator_set>();
}
{ using T = ::mizugaki::ast::scalar::set_quantifier; Enum<T> e(w, "mizugaki::ast::scalar::set_quantifier");
  e.add(T::distinct, "distinct");
  e.add(T::all, "all");
  e.judge();
  e.set<::mizugaki::ast::scalar::set_quantifier_set>();
}
{ using T = ::mizugaki::ast::scalar::table_operator; Enum<T> e(w, "mizugaki::ast::scalar::table_operator");
  e.add(T::exists, "exists");
  e.add(T::unique, "unique");
  e.judge();
  e.set<::mizugaki::ast::scalar::table_operator_set>();
}
{ using T = ::mizugaki::ast::scalar::trim_specification; Enum<T> e(w, "mizugaki::ast::scalar::trim_specification");
  e.add(T::leading, "leading");
  e.add(T::trailing, "trailing");
  e.add(T::both, "both");
  e.judge();
  e.set<::mizugaki::ast::scalar::trim_specification_set>();
}
{ using T = ::mizugaki::ast::scalar::unary_operator; Enum<T> e(w, "mizugaki::ast::scalar::unary_operator");
  e.add(T::plus, "plus");
  e.add(T::minus, "minus");
  e.add(T::not_, "not");
  e.add(T::at_local, "at_local");
  e.add(T::reference_resolution, "reference_resolution");
  e.judge();
  e.set<::mizugaki::ast::scalar::unary_operator_set>();
}
{ using T = ::mizugaki::ast::scalar::value_constructor_kind; Enum<T> e(w, "mizugaki::ast::scalar::value_constructor_kind");
  e.add(T::array, "array");
  e.add(T::row, "row");
  e.judge();
  e.set<::mizugaki::ast::scalar::value_constructor_kind_set>();
}
{ using T = ::mizugaki::ast::statement::alter_index_action_kind; Enum<T> e(w, "mizugaki::ast::statement::alter_index_action_kind");
  e.add(T::rename_index, "rename_index");
  e.judge();
}
{ using T = ::mizugaki::ast::statement::alter_table_action_kind; Enum<T> e(w, "mizugaki::ast::statement::alter_table_action_kind");
  e.add(T::rename_table, "rename_table");
  e.add(T::rename_column, "rename_column");
  e.judge();
}
{ using T = ::mizugaki::ast::statement::constraint_kind; Enum<T> e(w, "mizugaki::ast::statement::constraint_kind");
  e.add(T::check, "check");
  e.add(T::unique, "unique");
  e.add(T::primary_key, "primary_key");
  e.add(T::referential, "referential");
  e.add(T::null, "null");
  e.add(T::not_null, "not_null");
  e.add(T::default_clause, "default_clause");
  e.add(T::generation_clause, "generation_clause");
  e.add(T::identity_column, "identity_column");
  e.judge();
  e.set<::mizugaki::ast::statement::constraint_kind_set>();
}
{ using T = ::mizugaki::ast::statement::drop_statement_option; Enum<T> e(w, "mizugaki::ast::statement::drop_statement_option");
  e.add(T::if_exists, "if_exists");
  e.add(T::restrict, "restrict");
  e.add(T::cascade, "cascade");
  e.judge();
}
{ using T = ::mizugaki::ast::statement::identity_column_restart_option; Enum<T> e(w, "mizugaki::ast::statement::identity_column_restart_option");
  e.add(T::continue_identity, "continue_identity");
  e.add(T::restart_identity, "restart_identity");
  e.judge();
}
{ using T = ::mizugaki::ast::statement::identity_generation_type; Enum<T> e(w, "mizugaki::ast::statement::identity_generation_type");
  e.add(T::always, "always");
  e.add(T::by_default, "by_default");
  e.judge();
}
{ using T = ::mizugaki::ast::statement::index_definition_option; Enum<T> e(w, "mizugaki::ast::statement::index_definition_option");
  e.add(T::unique, "unique");
  e.add(T::if_not_exists, "if_not_exists");
  e.judge();
}
{ using T = ::mizugaki::ast::statement::insert_statement_option; Enum<T> e(w, "mizugaki::ast::statement::insert_statement_option");
  e.add(T::or_replace, "or_replace");
  e.add(T::or_ignore, "or_ignore");
  e.judge();
  e.set<::mizugaki::ast::statement::insert_statement_option_set>();
}
{ using T = ::mizugaki::ast::statement::kind; Enum<T> e(w, "mizugaki::ast::statement::kind");
  e.add(T::select_statement, "select_statement");
  e.add(T::insert_statement, "insert_statement");
  e.add(T::update_statement, "update_statement");
  e.add(T::delete_statement, "delete_statement");
  e.add(T::table_definition, "table_definition");
  e.add(T::index_definition, "index_definition");
  e.add(T::view_definition, "view_definition");
  e.add(T::sequence_definition, "sequence_definition");
  e.add(T::schema_definition, "schema_definition");
  e.add(T::alter_table_statement, "alter_table_statement");
  e.add(T::alter_index_statement, "alter_index_statement");
  e.add(T::drop_table_statement, "drop_table_statement");
  e.add(T::drop_index_statement, "drop_index_statement");
  e.add(T::drop_view_statement, "drop_view_statement");
  e.add(T::drop_sequence_statement, "drop_sequence_statement");
  e.add(T::drop_schema_statement, "drop_schema_statement");
  e.add(T::truncate_table_statement, "truncate_table_statement");
  e.add(T::grant_privilege_statement, "grant_privilege_statement");
  e.add(T::revoke_privilege_statement, "revoke_privilege_statement");
  e.add(T::empty_statement, "empty_statement");
  e.judge();
  e.set<::mizugaki::ast::statement::kind_set>();
}
{ using T = ::mizugaki::ast::statement::privilege_action_kind; Enum<T> e(w, "mizugaki::ast::statement::privilege_action_kind");
  e.add(T::all_privileges, "all_privileges");
  e.add(T::select, "select");
  e.add(T::insert, "insert");
  e.add(T::update, "update");
  e.add(T::delete_, "delete");
  e.judge();
}
{ using T = ::mizugaki::ast::statement::privilege_object_kind; Enum<T> e(w, "mizugaki::ast::statement::privilege_object_kind");
  e.add(T::table, "table");
  e.add(T::schema, "schema");
  e.judge();
}
{ using T = ::mizugaki::ast::statement::privilege_user_kind; Enum<T> e(w, "mizugaki::ast::statement::privilege_user_kind");
  e.add(T::identifier, "identifier");
  e.add(T::all_users, "all_users");
  e.add(T::current_user, "current_user");
  e.add(T::public_, "public");
  e.judge();
}
{ using T = ::mizugaki::ast::statement::referential_action; Enum<T> e(w, "mizugaki::ast::statement::referential_action");
  e.add(T::cascade, "cascade");
  e.add(T::set_null, "set_null");
  e.add(T::set_default, "set_default");
  e.add(T::restrict, "restrict");
  e.add(T::no_action, "no_action");
  e.judge();
}
{ using T = ::mizugaki::ast::statement::schema_definition_option; Enum<T> e(w, "mizugaki::ast::statement::schema_definition_option");
  e.add(T::if_not_exists, "if_not_exists");
  e.judge();
}
{ using T = ::mizugaki::ast::statement::sequence_definition_option; Enum<T> e(w, "mizugaki::ast::statement::sequence_definition_option");
  e.add(T::cycle, "cycle");
  e.add(T::no_cycle, "no_cycle");
  e.add(T::temporary, "temporary");
  e.add(T::if_not_exists, "if_not_exists");
  e.judge();
}
{ using T = ::mizugaki::ast::statement::table_definition_option; Enum<T> e(w, "mizugaki::ast::statement::table_definition_option");
  e.add(T::temporary, "temporary");
  e.add(T::if_not_exists, "if_not_exists");
  e.judge();
}
{ using T = ::mizugaki::ast::statement::table_element_kind; Enum<T> e(w, "mizugaki::ast::statement::table_element_kind");
  e.add(T::column_definition, "column_definition");
  e.add(T::constraint_definition, "constraint_definition");
  e.judge();
  e.set<::mizugaki::ast::statement::table_element_kind_set>();
}
{ using T = ::mizugaki::ast::statement::view_definition_option; Enum<T> e(w, "mizugaki::ast::statement::view_definition_option");
  e.add(T::or_replace, "or_replace");
  e.add(T::temporary, "temporary");
  e.add(T::recursive, "recursive");
  e.add(T::if_not_exists, "if_not_exists");
  e.judge();
}
{ using T = ::mizugaki::ast::table::apply_type; Enum<T> e(w, "mizugaki::ast::table::apply_type");
  e.add(T::cross, "cross");
  e.add(T::outer, "outer");
  e.judge();
  e.set<::mizugaki::ast::table::apply_kind_set>();
}
{ using T = ::mizugaki::ast::table::join_specification_kind; Enum<T> e(w, "mizugaki::ast::table::join_specification_kind");
  e.add(T::condition, "condition");
  e.add(T::columns, "columns");
  e.judge();
  e.set<::mizugaki::ast::table::join_specification_kind_set>();
}
{ using T = ::mizugaki::ast::table::join_type; Enum<T> e(w, "mizugaki::ast::table::join_type");
  e.add(T::cross, "cross");
  e.add(T::inner, "inner");
  e.add(T::left_outer, "left_outer");
  e.add(T::right_outer, "right_outer");
  e.add(T::full_outer, "full_outer");
  e.add(T::natural_inner, "natural_inner");
  e.add(T::natural_left_outer, "natural_left_outer");
  e.add(T::natural_right_outer, "natural_right_outer");
  e.add(T::natural_full_outer, "natural_full_outer");
  e.add(T::union_, "union");
  e.judge();
  e.set<::mizugaki::ast::table::join_kind_set>();
}
{ using T = ::mizugaki::ast::table::kind; Enum<T> e(w, "mizugaki::ast::table::kind");
  e.add(T::table_reference, "table_reference");
  e.add(T::unnest, "unnest");
  e.add(T::join, "join");
  e.add(T::subquery, "subquery");
  e.add(T::apply, "apply");
  e.judge();
  e.set<::mizugaki::ast::table::kind_set>();
}
{ using T = ::mizugaki::ast::type::kind; Enum<T> e(w, "mizugaki::ast::type::kind");
  e.add(T::unknown, "unknown");
  e.add(T::character, "character");
  e.add(T::character_varying, "character_varying");
  e.add(T::character_large_object, "character_large_object");
  e.add(T::bit, "bit");
  e.add(T::bit_varying, "bit_varying");
  e.add(T::octet, "octet");
  e.add(T::octet_varying, "octet_varying");
  e.add(T::binary_large_object, "binary_large_object");
  e.add(T::numeric, "numeric");
  e.add(T::decimal, "decimal");
  e.add(T::tiny_integer, "tiny_integer");
  e.add(T::small_integer, "small_integer");
  e.add(T::integer, "integer");
  e.add(T::big_integer, "big_integer");
  e.add(T::float_, "float");
  e.add(T::real, "real");
  e.add(T::double_precision, "double_precision");
  e.add(T::binary_integer, "binary_integer");
  e.add(T::binary_float, "binary_float");
  e.add(T::boolean, "boolean");
  e.add(T::date, "date");
  e.add(T::time, "time");
  e.add(T::timestamp, "timestamp");
  e.add(T::interval, "interval");
  e.add(T::row, "row");
  e.add(T::user_defined, "user_defined");
  e.add(T::collection, "collection");
  e.judge();
  e.set<::mizugaki::ast::type::kind_set>();
}
{ using T = ::mizugaki::parser::sql_parser_code; Enum<T> e(w, "mizugaki::parser::sql_parser_code");
  e.add(T::unknown, "unknown");
  e.add(T::system, "system");
  e.add(T::syntax_error, "syntax_error");
  e.add(T::unsupported_feature, "unsupported_feature");
  e.add(T::invalid_character, "invalid_character");
  e.add(T::invalid_token, "invalid_token");
  e.add(T::unexpected_token, "unexpected_token");
  e.add(T::unexpected_eof, "unexpected_eof");
  e.add(T::exceed_number_of_elements, "exceed_number_of_elements");
  e.judge();
}
{ using T = ::mizugaki::parser::sql_parser_element_kind; Enum<T> e(w, "mizugaki::parser::sql_parser_element_kind");
  e.add(T::statement, "statement");
  e.add(T::schema_element_definition, "schema_element_definition");
  e.add(T::table_element_definition, "table_element_definition");
  e.add(T::column_constraint_definition, "column_constraint_definition");
  e.add(T::column_reference, "column_reference");
  e.add(T::storage_parameter, "storage_parameter");
  e.add(T::set_clause, "set_clause");
  e.add(T::with_element, "with_element");
  e.add(T::select_element, "select_element");
  e.add(T::table_reference, "table_reference");
  e.add(T::grouping_element, "grouping_element");
  e.add(T::ordering_element, "ordering_element");
  e.add(T::field_definition, "field_definition");
  e.add(T::row_expression, "row_expression");
  e.add(T::scalar_expression, "scalar_expression");
  e.add(T::when_clause, "when_clause");
  e.add(T::string_literal_concatenation, "string_literal_concatenation");
  e.add(T::privilege_action, "privilege_action");
  e.add(T::privilege_object, "privilege_object");
  e.add(T::privilege_user, "privilege_user");
  e.judge();
}
{ using T = ::mizugaki::analyzer::details::value_context_kind; Enum<T> e(w, "mizugaki::analyzer::details::value_context_kind");
  e.add(T::unspecified, "unspecified");
  e.add(T::scalar, "scalar");
  e.add(T::row, "row");
  e.judge();
}
