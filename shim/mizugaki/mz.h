// Stand-in for the mizugaki library (absent here) and yugawara's compiler: a statement is not parsed; its text is handed to a function of the
// check, which returns the analyzed and compiled statement as yugawara would.
#pragma once
#include <yugawara/yg.h>
namespace mizugaki {
class placeholder_map {};
namespace ast::statement { enum class kind { empty_statement, other }; struct statement { std::string sql; kind k; kind node_kind() const { return k; } }; }
namespace ast { struct compilation_unit { std::vector<std::unique_ptr<statement::statement>> v; std::vector<std::unique_ptr<statement::statement>> const& statements() const { return v; } }; }
namespace parser {
struct sql_parser_diagnostic { std::string m; std::string message() const { return m; } std::string region() const { return {}; } };
enum class sql_parser_element_kind { value };
inline constexpr sql_parser_element_kind sql_parser_element_kind_first = sql_parser_element_kind::value, sql_parser_element_kind_last = sql_parser_element_kind::value;
class sql_parser {
public:
    struct opts { std::map<sql_parser_element_kind, std::size_t> l{}; std::size_t d{}; std::map<sql_parser_element_kind, std::size_t>& element_limits() { return l; } std::size_t& tree_depth_limit() { return d; } };
    struct result { std::unique_ptr<ast::compilation_unit> u; bool has_diagnostic() const { return !u; } sql_parser_diagnostic diagnostic() const { return {"syntax"}; } std::unique_ptr<ast::compilation_unit>& value() { return u; } };
    opts& options() { return o_; }
    result operator()(std::string const&, std::string const& sql) {
        result r; if (sql.rfind("syntax", 0) == 0) return r;
        r.u = std::make_unique<ast::compilation_unit>(); std::size_t b = 0;
        for (;;) { auto e = sql.find(';', b); auto s = sql.substr(b, e == std::string::npos ? e : e - b); r.u->v.push_back(std::make_unique<ast::statement::statement>(ast::statement::statement{s, s.empty() ? ast::statement::kind::empty_statement : ast::statement::kind::other})); if (e == std::string::npos) break; b = e + 1; }
        return r;
    }
private: opts o_;
};
}
namespace analyzer {
#define MZ_CODES(X) X(unknown) X(unsupported_feature) X(malformed_syntax) X(missing_context_of_default_value) X(missing_context_of_null) X(unsupported_decimal_value) X(malformed_approximate_number) X(unsupported_approximate_number) X(malformed_quoted_string) X(unsupported_string_value) X(flexible_length_is_not_supported) X(invalid_type_length) X(invalid_numeric_scale) X(schema_not_found) X(table_not_found) X(index_not_found) X(view_not_found) X(sequence_not_found) X(column_not_found) X(variable_not_found) X(function_not_found) X(symbol_not_found) X(schema_already_exists) X(table_already_exists) X(index_already_exists) X(view_already_exists) X(sequence_already_exists) X(column_already_exists) X(variable_already_exists) X(function_already_exists) X(symbol_already_exists) X(primary_index_not_found) X(primary_index_already_exists) X(invalid_constraint) X(variable_ambiguous) X(column_ambiguous) X(function_ambiguous) X(invalid_unsigned_integer) X(inconsistent_table) X(inconsistent_columns) X(invalid_aggregation_column) X(ambiguous_type) X(inconsistent_type) X(unresolved_variable) X(inconsistent_elements) X(catalog_not_found) X(relation_ambiguous)
enum class sql_analyzer_code {
#define X(n) n,
    MZ_CODES(X)
#undef X
};
inline std::ostream& operator<<(std::ostream& o, sql_analyzer_code c) { return o << static_cast<int>(c); }
enum class sql_analyzer_result_kind { execution_plan, statement, diagnostics };
struct sql_analyzer_diagnostic { sql_analyzer_code c; std::string m; sql_analyzer_code code() const { return c; } std::string const& message() const { return m; } std::string location() const { return {}; } };
struct sql_analyzer_options {
    bool n{}, l{}, lf{}; std::chrono::minutes z{};
    sql_analyzer_options(takatori::util::maybe_shared_ptr<yugawara::schema::catalog const>, takatori::util::maybe_shared_ptr<yugawara::schema::search_path const>, std::shared_ptr<yugawara::schema::declaration const>) {}
    bool& allow_context_independent_null() { return n; } bool& lowercase_regular_identifiers() { return l; } bool& lowercase_function_regular_identifiers() { return lf; } std::chrono::minutes& system_zone_offset() { return z; }
};
struct sql_analyzer_result {
    std::string sql; std::vector<sql_analyzer_diagnostic> d{};
    bool is_valid() const { return d.empty(); } sql_analyzer_result_kind kind() const { return d.empty() ? sql_analyzer_result_kind::statement : sql_analyzer_result_kind::diagnostics; }
    template<sql_analyzer_result_kind K> auto release() { if constexpr (K == sql_analyzer_result_kind::diagnostics) return std::move(d); else return std::make_unique<yugawara::analyzed>(yugawara::analyzed{std::move(sql)}); }
};
struct sql_analyzer { template<class... A> sql_analyzer_result operator()(sql_analyzer_options const&, ast::statement::statement const& s, A&&...) { return {s.sql}; } };
}
}
