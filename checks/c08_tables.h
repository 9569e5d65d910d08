// generated once from the published tables; frozen so that a renumbering is noticed
struct code_entry { char const* name; long code; int wire; };
static code_entry const code_table[] = {
    {"none", 0, 0},
    {"sql_service_exception", 1000, 1},
    {"sql_execution_exception", 2000, 2},
    {"constraint_violation_exception", 2001, 3},
    {"unique_constraint_violation_exception", 2002, 4},
    {"not_null_constraint_violation_exception", 2003, 5},
    {"referential_integrity_constraint_violation_exception", 2004, 6},
    {"check_constraint_violation_exception", 2005, 7},
    {"evaluation_exception", 2010, 8},
    {"value_evaluation_exception", 2011, 9},
    {"scalar_subquery_evaluation_exception", 2012, 10},
    {"target_not_found_exception", 2014, 11},
    {"target_already_exists_exception", 2016, 12},
    {"inconsistent_statement_exception", 2018, 13},
    {"restricted_operation_exception", 2020, 14},
    {"dependencies_violation_exception", 2021, 15},
    {"write_operation_by_rtx_exception", 2022, 16},
    {"ltx_write_operation_without_write_preserve_exception", 2023, 17},
    {"read_operation_on_restricted_read_area_exception", 2024, 18},
    {"inactive_transaction_exception", 2025, 19},
    {"parameter_exception", 2027, 20},
    {"unresolved_placeholder_exception", 2028, 21},
    {"load_file_exception", 2030, 22},
    {"load_file_not_found_exception", 2031, 23},
    {"load_file_format_exception", 2032, 24},
    {"dump_file_exception", 2033, 25},
    {"dump_directory_inaccessible_exception", 2034, 26},
    {"sql_limit_reached_exception", 2036, 27},
    {"transaction_exceeded_limit_exception", 2037, 28},
    {"sql_request_timeout_exception", 2039, 29},
    {"data_corruption_exception", 2041, 30},
    {"secondary_index_corruption_exception", 2042, 31},
    {"request_failure_exception", 2044, 32},
    {"transaction_not_found_exception", 2045, 33},
    {"statement_not_found_exception", 2046, 34},
    {"internal_exception", 2048, 35},
    {"unsupported_runtime_feature_exception", 2050, 36},
    {"blocked_by_high_priority_transaction_exception", 2052, 37},
    {"invalid_runtime_value_exception", 2054, 38},
    {"value_out_of_range_exception", 2056, 39},
    {"value_too_long_exception", 2058, 40},
    {"invalid_decimal_value_exception", 2060, 41},
    {"compile_exception", 3000, 101},
    {"syntax_exception", 3001, 102},
    {"analyze_exception", 3002, 103},
    {"type_analyze_exception", 3003, 104},
    {"symbol_analyze_exception", 3004, 105},
    {"value_analyze_exception", 3005, 106},
    {"unsupported_compiler_feature_exception", 3010, 107},
    {"cc_exception", 4000, 201},
    {"occ_exception", 4001, 202},
    {"occ_read_exception", 4010, 203},
    {"conflict_on_write_preserve_exception", 4015, 204},
    {"occ_write_exception", 4011, 205},
    {"ltx_exception", 4003, 206},
    {"ltx_read_exception", 4013, 207},
    {"ltx_write_exception", 4014, 208},
    {"rtx_exception", 4005, 209},
    {"blocked_by_concurrent_operation_exception", 4007, 210},
    {"request_canceled", 50011, -1},
    {"lob_file_io_error", 50012, -1},
    {"lob_reference_invalid", 50013, -1},
    {"operation_denied", 50014, -1},
    {"permission_error", 50015, -1},
    {"unknown_internal_error", 50016, -1},
};
struct status_entry { char const* name; long value; };
static status_entry const status_table[] = {
    {"ok", 0},
    {"not_found", 1},
    {"already_exists", 2},
    {"user_rollback", 3},
    {"concurrent_operation", 4},
    {"request_canceled", 5},
    {"err_unknown", -1},
    {"err_io_error", -2},
    {"err_parse_error", -3},
    {"err_translator_error", -4},
    {"err_compiler_error", -5},
    {"err_invalid_argument", -6},
    {"err_invalid_state", -7},
    {"err_unsupported", -8},
    {"err_user_error", -9},
    {"err_aborted", -10},
    {"err_serialization_failure", -11},
    {"err_not_found", -12},
    {"err_already_exists", -13},
    {"err_inconsistent_index", -14},
    {"err_time_out", -15},
    {"err_integrity_constraint_violation", -16},
    {"err_expression_evaluation_failure", -17},
    {"err_unresolved_host_variable", -18},
    {"err_type_mismatch", -19},
    {"err_not_implemented", -20},
    {"err_illegal_operation", -21},
    {"err_missing_operation_target", -22},
    {"err_conflict_on_write_preserve", -23},
    {"err_inactive_transaction", -24},
    {"err_resource_limit_reached", -25},
    {"err_data_corruption", -26},
    {"err_unique_constraint_violation", -27},
    {"err_write_without_write_preserve", -28},
    {"err_read_area_violation", -29},
    {"err_write_operation_by_rtx", -30},
    {"err_invalid_key_length", -31},
    {"err_insufficient_field_storage", -32},
    {"err_invalid_runtime_value", -33},
    {"waiting_for_other_transaction", -10001},
};
