// Stand-in for the takatori library (absent here): types, values, scalar expressions, relational operators, plans
// and descriptors, with the same interface as far as the sources of /repo under check use it.
#pragma once
#include <any>
#include <cstdint>
#include <iostream>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <ostream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>
#include "datetime/date.h"
#include "datetime/time_of_day.h"
#include "datetime/time_point.h"
#include "datetime/datetime_interval.h"
#include "decimal/triple.h"
#include "relation/sort_direction.h"
#include "util/downcast.h"
#include "util/enum_set.h"
#include "util/enum_tag.h"
#include "util/exception.h"
#include "util/maybe_shared_ptr.h"
#include "util/optional_ptr.h"
#include "util/print_support.h"
#include "util/sequence_view.h"
#include "util/string_builder.h"

namespace takatori::util {
template<class T> auto clone_unique(T const& v) { return std::unique_ptr<T>(v.clone()); }
template<class T> std::shared_ptr<T> clone_shared(T const& v) { return std::shared_ptr<T>(v.clone()); }
// a sequence of owned objects that iterates as references
template<class T, class P = std::unique_ptr<T>> class ref_vector {
public:
    using value_type = T;
    template<class V, class I> class it {
    public:
        using value_type = V; using difference_type = std::ptrdiff_t; using pointer = V*; using reference = V&; using iterator_category = std::random_access_iterator_tag;
        it() = default;
        explicit it(I i) : i_(i) {}
        V& operator*() const { return **i_; }
        V* operator->() const { return &**i_; }
        it& operator++() { ++i_; return *this; }
        it operator++(int) { auto r = *this; ++i_; return r; }
        it& operator--() { --i_; return *this; }
        it operator+(std::ptrdiff_t n) const { return it(i_ + n); }
        friend std::ptrdiff_t operator-(it a, it b) { return a.i_ - b.i_; }
        friend bool operator==(it a, it b) { return a.i_ == b.i_; }
        friend bool operator!=(it a, it b) { return a.i_ != b.i_; }
    private: I i_{};
    };
    using iterator = it<T, typename std::vector<P>::iterator>;
    using const_iterator = it<T const, typename std::vector<P>::const_iterator>;
    ref_vector() = default;
    ref_vector(std::initializer_list<T> l) { for (auto& x : l) v_.push_back(P(new T(x))); }
    template<class U> U& push(std::unique_ptr<U> p) { U& r = *p; v_.push_back(P(std::move(p))); return r; }
    T& push_back(std::unique_ptr<T> p) { v_.push_back(P(std::move(p))); return *v_.back(); }
    template<class... A> T& emplace_back(A&&... a) { v_.push_back(P(new T(std::forward<A>(a)...))); return *v_.back(); }
    T& push_back(T v) { return emplace_back(std::move(v)); }
    void reserve(std::size_t n) { v_.reserve(n); }
    bool empty() const { return v_.empty(); }
    std::size_t size() const { return v_.size(); }
    T& operator[](std::size_t i) { return *v_[i]; }
    T const& operator[](std::size_t i) const { return *v_[i]; }
    T& front() { return *v_.front(); } T const& front() const { return *v_.front(); }
    T& back() { return *v_.back(); } T const& back() const { return *v_.back(); }
    iterator begin() { return iterator(v_.begin()); } iterator end() { return iterator(v_.end()); }
    const_iterator begin() const { return const_iterator(v_.begin()); } const_iterator end() const { return const_iterator(v_.end()); }
private:
    std::vector<P> v_{};
};
template<class T> using reference_vector = ref_vector<T, std::shared_ptr<T>>;
}  // namespace takatori::util

namespace takatori::document {
class region { public: explicit operator bool() const { return false; } friend std::ostream& operator<<(std::ostream& o, region const&) { return o; } };
class document_map { };
}

namespace takatori::type {
enum class type_kind { boolean, int1, int2, int4, int8, float4, float8, decimal, character, octet, bit, date, time_of_day, time_point, datetime_interval, blob, clob, xml, json, array, record, row_id, row_reference, declared, extension, unknown, error, pending, table };
inline constexpr std::string_view to_string_view(type_kind k) {
    constexpr std::string_view n[] = {"boolean","int1","int2","int4","int8","float4","float8","decimal","character","octet","bit","date","time_of_day","time_point","datetime_interval","blob","clob","xml","json","array","record","row_id","row_reference","declared","extension","unknown","error","pending","table"};
    return n[static_cast<int>(k)];
}
inline std::ostream& operator<<(std::ostream& o, type_kind k) { return o << to_string_view(k); }

class data {
public:
    virtual ~data() = default;
    virtual type_kind kind() const noexcept = 0;
    virtual data* clone() const = 0;
    virtual std::string show() const { return std::string(to_string_view(kind())); }
    friend bool operator==(data const& a, data const& b) { return a.show() == b.show(); }
    friend bool operator!=(data const& a, data const& b) { return ! (a == b); }
    friend std::ostream& operator<<(std::ostream& o, data const& d) { return o << d.show(); }
};
template<class T, type_kind K> class kinded : public data {
public:
    static constexpr type_kind tag = K;
    type_kind kind() const noexcept override { return K; }
    data* clone() const override { return new T(static_cast<T const&>(*this)); }
};
template<type_kind K> class simple_type : public kinded<simple_type<K>, K> {};
using boolean = simple_type<type_kind::boolean>;
using int1 = simple_type<type_kind::int1>;
using int2 = simple_type<type_kind::int2>;
using int4 = simple_type<type_kind::int4>;
using int8 = simple_type<type_kind::int8>;
using float4 = simple_type<type_kind::float4>;
using float8 = simple_type<type_kind::float8>;
using date = simple_type<type_kind::date>;
using datetime_interval = simple_type<type_kind::datetime_interval>;
using unknown = simple_type<type_kind::unknown>;

template<std::size_t Tag> struct flag_t {
    bool v{true};
    constexpr explicit flag_t(bool b) : v(b) {}
    constexpr explicit operator bool() const { return v; }
    constexpr flag_t operator~() const { return flag_t{! v}; }
};
using varying_t = flag_t<1>;
using with_time_zone_t = flag_t<2>;
inline constexpr varying_t varying{true};
inline constexpr with_time_zone_t with_time_zone{true};

class decimal : public kinded<decimal, type_kind::decimal> {
public:
    explicit decimal(std::optional<std::size_t> p = {}, std::optional<std::size_t> s = 0) : p_(p), s_(s) {}
    std::optional<std::size_t> precision() const { return p_; }
    std::optional<std::size_t> scale() const { return s_; }
    std::string show() const override { return "decimal(" + (p_ ? std::to_string(*p_) : "*") + "," + (s_ ? std::to_string(*s_) : "*") + ")"; }
private: std::optional<std::size_t> p_, s_;
};
template<class T, type_kind K> class sized : public kinded<T, K> {
public:
    explicit sized(std::optional<std::size_t> n = {}) : n_(n) {}
    explicit sized(varying_t v, std::optional<std::size_t> n = {}) : var_(v), n_(n) {}
    bool varying() const { return var_; }
    std::optional<std::size_t> length() const { return n_; }
    std::string show() const override { return std::string(to_string_view(K)) + (var_ ? " varying" : "") + "(" + (n_ ? std::to_string(*n_) : "*") + ")"; }
private: bool var_{}; std::optional<std::size_t> n_{};
};
class character : public sized<character, type_kind::character> { public: using sized::sized; };
class octet : public sized<octet, type_kind::octet> { public: using sized::sized; };
class bit : public sized<bit, type_kind::bit> { public: using sized::sized; };
template<class T, type_kind K> class lob : public kinded<T, K> {
public:
    explicit lob(std::optional<std::int64_t> n = {}) : n_(n) {}
    std::optional<std::int64_t> length() const { return n_; }
private: std::optional<std::int64_t> n_{};
};
class blob : public lob<blob, type_kind::blob> { public: using lob::lob; };
class clob : public lob<clob, type_kind::clob> { public: using lob::lob; };
template<class T, type_kind K> class zoned : public kinded<T, K> {
public:
    explicit zoned(with_time_zone_t z = with_time_zone_t{false}) : z_(z) {}
    bool with_time_zone() const { return z_; }
    std::string show() const override { return std::string(to_string_view(K)) + (z_ ? " with time zone" : ""); }
private: bool z_{};
};
class time_of_day : public zoned<time_of_day, type_kind::time_of_day> { public: using zoned::zoned; };
class time_point : public zoned<time_point, type_kind::time_point> { public: using zoned::zoned; };
// a type given by value
struct tref { tref(data const& d) : p(d.clone()) {} tref(std::shared_ptr<data const> d) : p(std::move(d)) {} std::shared_ptr<data const> p; };
class table : public kinded<table, type_kind::table> {
public:
    class column_type {
    public:
        column_type(std::string n, std::shared_ptr<data const> t) : n_(std::move(n)), t_(std::move(t)) {}
        std::string_view name() const { return n_; }
        data const& type() const { return *t_; }
    private: std::string n_; std::shared_ptr<data const> t_;
    };
    table(std::initializer_list<column_type> c) : c_(c) {}
    explicit table(std::vector<column_type> c) : c_(std::move(c)) {}
    std::vector<column_type> const& columns() const { return c_; }
private: std::vector<column_type> c_;
};
}  // namespace takatori::type

namespace takatori::value {
enum class value_kind { unknown, boolean, int4, int8, float4, float8, decimal, character, octet, bit, date, time_of_day, time_point, datetime_interval, array, record, extension };
inline std::ostream& operator<<(std::ostream& o, value_kind k) { return o << "value_kind:" << static_cast<int>(k); }
class data {
public:
    virtual ~data() = default;
    virtual value_kind kind() const noexcept = 0;
    virtual data* clone() const = 0;
    friend bool operator==(data const& a, data const& b) { return a.equals(b); }
    friend bool operator!=(data const& a, data const& b) { return ! a.equals(b); }
    friend std::ostream& operator<<(std::ostream& o, data const& d) { return o << d.kind(); }
protected:
    virtual bool equals(data const& o) const = 0;
};
template<value_kind K, class T, class V = T> class simple_value : public data {
public:
    static constexpr value_kind tag = K;
    using entity_type = T; using view_type = V;
    explicit simple_value(T v = {}) : v_(std::move(v)) {}
    value_kind kind() const noexcept override { return K; }
    simple_value* clone() const override { return new simple_value(v_); }
    V get() const { return v_; }
protected:
    bool equals(data const& o) const override { return o.kind() == K && static_cast<simple_value const&>(o).v_ == v_; }
private: T v_;
};
// the longest prefix of at most n bytes that ends at a character boundary
inline std::string_view truncate_utf8(std::string_view s, std::size_t n) {
    if (n >= s.size()) return s;
    while (n > 0 && (static_cast<unsigned char>(s[n]) & 0xC0U) == 0x80U) --n;
    return s.substr(0, n);
}
class unknown : public data {
public:
    static constexpr value_kind tag = value_kind::unknown;
    value_kind kind() const noexcept override { return tag; }
    unknown* clone() const override { return new unknown(); }
protected:
    bool equals(data const& o) const override { return o.kind() == tag; }
};
using boolean = simple_value<value_kind::boolean, bool>;
using int4 = simple_value<value_kind::int4, std::int32_t>;
using int8 = simple_value<value_kind::int8, std::int64_t>;
using float4 = simple_value<value_kind::float4, float>;
using float8 = simple_value<value_kind::float8, double>;
using decimal = simple_value<value_kind::decimal, takatori::decimal::triple>;
using character = simple_value<value_kind::character, std::string, std::string_view>;
using octet = simple_value<value_kind::octet, std::string, std::string_view>;
using date = simple_value<value_kind::date, datetime::date>;
using time_of_day = simple_value<value_kind::time_of_day, datetime::time_of_day>;
using time_point = simple_value<value_kind::time_point, datetime::time_point>;
}  // namespace takatori::value

namespace takatori::descriptor {
enum class descriptor_kind { variable, relation, function, aggregate_function, declared_type, schema, storage };
// a reference to some object of the compiler; equal when the object is the same
template<descriptor_kind K> class element {
public:
    static constexpr descriptor_kind tag = K;
    element() = default;
    template<class T> explicit element(std::shared_ptr<T const> p) : p_(p), o_(p.get()) {}
    template<class T> element(T const* p, int) : o_(p) {}
    void const* object() const { return o_; }
    std::shared_ptr<void const> shared() const { return p_; }
    using reference_type = void const*;
    reference_type reference() const { return o_; }
    explicit operator bool() const { return o_ != nullptr; }
    friend bool operator==(element const& a, element const& b) { return a.o_ == b.o_; }
    friend bool operator!=(element const& a, element const& b) { return a.o_ != b.o_; }
    friend std::ostream& operator<<(std::ostream& o, element const& e) { return o << "descriptor@" << e.o_; }
    std::string name{};    // for variables made by the checks
    int cls{};             // binding class, see yugawara::binding
private:
    std::shared_ptr<void const> p_{}; void const* o_{};
};
using variable = element<descriptor_kind::variable>;
using relation = element<descriptor_kind::relation>;
using function = element<descriptor_kind::function>;
using aggregate_function = element<descriptor_kind::aggregate_function>;
using declared_type = element<descriptor_kind::declared_type>;
using schema = element<descriptor_kind::schema>;
using storage = element<descriptor_kind::storage>;
}
template<takatori::descriptor::descriptor_kind K> struct std::hash<takatori::descriptor::element<K>> {
    std::size_t operator()(takatori::descriptor::element<K> const& e) const noexcept { return std::hash<void const*>{}(e.object()); }
};

namespace takatori::tree {
template<class T> using tree_fragment_vector = std::vector<T>;
template<class T> using tree_element_vector = util::ref_vector<T, std::shared_ptr<T>>;
}

namespace takatori::scalar {
enum class expression_kind { immediate, variable_reference, unary, cast, binary, compare, match, conditional, coalesce, let, function_call, extension };
inline std::ostream& operator<<(std::ostream& o, expression_kind k) { return o << "expression_kind:" << static_cast<int>(k); }
class expression {
public:
    virtual ~expression() = default;
    virtual expression_kind kind() const noexcept = 0;
    virtual expression* clone() const = 0;
    document::region region() const { return {}; }
    document::region region_{};
    std::shared_ptr<takatori::type::data const> ty{};   // the type given by analysis, see yugawara::compiled_info
    friend bool operator==(expression const& a, expression const& b) { return &a == &b; }
    friend bool operator!=(expression const& a, expression const& b) { return &a != &b; }
};
using sp = std::shared_ptr<expression>;
template<class T, expression_kind K> class kinded : public expression {
public:
    static constexpr expression_kind tag = K;
    expression_kind kind() const noexcept override { return K; }
    expression* clone() const override { return new T(static_cast<T const&>(*this)); }
};
class immediate : public kinded<immediate, expression_kind::immediate> {
public:
    immediate(std::shared_ptr<takatori::value::data const> v, std::shared_ptr<takatori::type::data const> t) : v_(std::move(v)), t_(std::move(t)) {}
    template<class V, class T, class = std::enable_if_t<std::is_base_of_v<takatori::value::data, V>>> immediate(V v, T t) : v_(std::make_shared<V>(std::move(v))), t_(std::make_shared<T>(std::move(t))) {}
    takatori::value::data const& value() const { return *v_; }
    takatori::type::data const& type() const { return *t_; }
    std::shared_ptr<takatori::value::data const> shared_value() const { return v_; }
    std::shared_ptr<takatori::type::data const> shared_type() const { return t_; }
private: std::shared_ptr<takatori::value::data const> v_; std::shared_ptr<takatori::type::data const> t_;
};
class variable_reference : public kinded<variable_reference, expression_kind::variable_reference> {
public:
    explicit variable_reference(descriptor::variable v) : v_(std::move(v)) {}
    descriptor::variable const& variable() const { return v_; }
private: descriptor::variable v_;
};
enum class unary_operator { plus, sign_inversion, conditional_not, length, is_null, is_true, is_false, is_unknown };
inline constexpr std::string_view to_string_view(unary_operator k) { constexpr std::string_view n[] = {"plus","sign_inversion","conditional_not","length","is_null","is_true","is_false","is_unknown"}; return n[static_cast<int>(k)]; }
inline std::ostream& operator<<(std::ostream& o, unary_operator k) { return o << to_string_view(k); }
enum class binary_operator { concat, add, subtract, multiply, divide, remainder, conditional_and, conditional_or };
inline constexpr std::string_view to_string_view(binary_operator k) { constexpr std::string_view n[] = {"concat","add","subtract","multiply","divide","remainder","conditional_and","conditional_or"}; return n[static_cast<int>(k)]; }
inline std::ostream& operator<<(std::ostream& o, binary_operator k) { return o << to_string_view(k); }
enum class comparison_operator { equal, not_equal, less, less_equal, greater, greater_equal, is_not_distinct_from, is_distinct_from };
inline constexpr std::string_view to_string_view(comparison_operator k) { constexpr std::string_view n[] = {"equal","not_equal","less","less_equal","greater","greater_equal","is_not_distinct_from","is_distinct_from"}; return n[static_cast<int>(k)]; }
inline std::ostream& operator<<(std::ostream& o, comparison_operator k) { return o << to_string_view(k); }
enum class match_operator { like, similar };
inline std::ostream& operator<<(std::ostream& o, match_operator k) { return o << static_cast<int>(k); }
enum class cast_loss_policy { ignore, floor, ceil, unknown, warn, error };
inline constexpr std::string_view to_string_view(cast_loss_policy k) { constexpr std::string_view n[] = {"ignore","floor","ceil","unknown","warn","error"}; return n[static_cast<int>(k)]; }
inline std::ostream& operator<<(std::ostream& o, cast_loss_policy k) { return o << to_string_view(k); }

class unary : public kinded<unary, expression_kind::unary> {
public:
    using operator_kind_type = unary_operator;
    unary(unary_operator k, sp o) : k_(k), o_(std::move(o)) {}
    unary_operator operator_kind() const { return k_; }
    expression const& operand() const { return *o_; }
private: unary_operator k_; sp o_;
};
class cast : public kinded<cast, expression_kind::cast> {
public:
    using loss_policy_type = cast_loss_policy;
    cast(std::shared_ptr<takatori::type::data const> t, cast_loss_policy p, sp o) : t_(std::move(t)), p_(p), o_(std::move(o)) {}
    takatori::type::data const& type() const { return *t_; }
    cast_loss_policy loss_policy() const { return p_; }
    expression const& operand() const { return *o_; }
private: std::shared_ptr<takatori::type::data const> t_; cast_loss_policy p_; sp o_;
};
class binary : public kinded<binary, expression_kind::binary> {
public:
    using operator_kind_type = binary_operator;
    binary(binary_operator k, sp l, sp r) : k_(k), l_(std::move(l)), r_(std::move(r)) {}
    binary_operator operator_kind() const { return k_; }
    expression const& left() const { return *l_; }
    expression const& right() const { return *r_; }
private: binary_operator k_; sp l_, r_;
};
class compare : public kinded<compare, expression_kind::compare> {
public:
    using operator_kind_type = comparison_operator;
    compare(comparison_operator k, sp l, sp r) : k_(k), l_(std::move(l)), r_(std::move(r)) {}
    comparison_operator operator_kind() const { return k_; }
    expression const& left() const { return *l_; }
    expression const& right() const { return *r_; }
private: comparison_operator k_; sp l_, r_;
};
class match : public kinded<match, expression_kind::match> {
public:
    using operator_kind_type = match_operator;
    match(match_operator k, sp i, sp p, sp e = {}) : k_(k), i_(std::move(i)), p_(std::move(p)), e_(std::move(e)) {}
    match_operator operator_kind() const { return k_; }
    expression const& input() const { return *i_; }
    expression const& pattern() const { return *p_; }
    expression const& escape() const { return *e_; }
private: match_operator k_; sp i_, p_, e_;
};
class conditional : public kinded<conditional, expression_kind::conditional> {
public:
    class alternative {
    public:
        alternative(sp c, sp b) : c_(std::move(c)), b_(std::move(b)) {}
        expression const& condition() const { return *c_; }
        expression const& body() const { return *b_; }
    private: sp c_, b_;
    };
    conditional(std::vector<alternative> a, sp d) : a_(std::move(a)), d_(std::move(d)) {}
    tree::tree_fragment_vector<alternative> const& alternatives() const { return a_; }
    util::optional_ptr<expression const> default_expression() const { return util::optional_ptr<expression const>(d_.get()); }
private: std::vector<alternative> a_; sp d_;
};
class coalesce : public kinded<coalesce, expression_kind::coalesce> {
public:
    explicit coalesce(std::vector<sp> a) { for (auto& p : a) a_.push(std::unique_ptr<expression>(p->clone())); }
    tree::tree_element_vector<expression> const& alternatives() const { return a_; }
private: tree::tree_element_vector<expression> a_;
};
class let : public kinded<let, expression_kind::let> {
public:
    class declarator {
    public:
        declarator(descriptor::variable v, sp e) : v_(std::move(v)), e_(std::move(e)) {}
        descriptor::variable const& variable() const { return v_; }
        expression const& value() const { return *e_; }
    private: descriptor::variable v_; sp e_;
    };
    let(std::vector<declarator> v, sp b) : v_(std::move(v)), b_(std::move(b)) {}
    tree::tree_fragment_vector<declarator> const& variables() const { return v_; }
    expression const& body() const { return *b_; }
private: std::vector<declarator> v_; sp b_;
};
class function_call : public kinded<function_call, expression_kind::function_call> {
public:
    explicit function_call(descriptor::function f) : f_(std::move(f)) {}
    function_call(descriptor::function f, std::vector<sp> a) : f_(std::move(f)) { for (auto& p : a) a_.push(std::unique_ptr<expression>(p->clone())); }
    descriptor::function const& function() const { return f_; }
    tree::tree_element_vector<expression> const& arguments() const { return a_; }
private: descriptor::function f_; tree::tree_element_vector<expression> a_;
};
class extension : public expression {
public:
    static constexpr expression_kind tag = expression_kind::extension;
    using extension_id_type = std::size_t;
    virtual extension_id_type extension_id() const { return 0; }
    expression_kind kind() const noexcept override { return tag; }
};
template<class F, class E, class... A> decltype(auto) dispatch(F&& f, E& e, A&&... a) {
    switch (e.kind()) {
#define TK_C(x) case expression_kind::x: return f(util::unsafe_downcast<x>(e), std::forward<A>(a)...);
        TK_C(immediate) TK_C(variable_reference) TK_C(unary) TK_C(cast) TK_C(binary) TK_C(compare) TK_C(match) TK_C(conditional) TK_C(coalesce) TK_C(let) TK_C(function_call) TK_C(extension)
#undef TK_C
    }
    std::abort();
}
}  // namespace takatori::scalar

namespace takatori::graph {
template<class T> class graph {
public:
    using value_type = T;
    using iterator = typename util::ref_vector<T>::iterator;
    using const_iterator = typename util::ref_vector<T>::const_iterator;
    template<class U> U& insert(std::unique_ptr<U> p) { U& r = *p; v_.push(std::unique_ptr<T>(std::move(p))); return r; }
    template<class U> U& insert(U v) { return insert(std::make_unique<U>(std::move(v))); }
    template<class U, class... A> U& emplace(A&&... a) { return insert(std::make_unique<U>(std::forward<A>(a)...)); }
    bool empty() const { return v_.empty(); }
    std::size_t size() const { return v_.size(); }
    bool contains(T const& x) const { for (auto& e : v_) if (&e == &x) return true; return false; }
    iterator begin() { return v_.begin(); } iterator end() { return v_.end(); }
    const_iterator begin() const { return v_.begin(); } const_iterator end() const { return v_.end(); }
private:
    util::ref_vector<T> v_{};
};
template<class V> class output_port;
template<class V> class input_port {
public:
    explicit input_port(V* o = nullptr, std::size_t i = 0) : owner_(o), i_(i) {}
    input_port(input_port const&) = delete;
    V& owner() const { return *owner_; }
    std::size_t index() const { return i_; }
    util::optional_ptr<output_port<V>> opposite() const { return util::optional_ptr<output_port<V>>(o_); }
    void connect_to(output_port<V>& o) { o_ = &o; o.o_ = this; }
    friend bool operator==(input_port const& a, input_port const& b) { return &a == &b; }
    V* owner_; std::size_t i_; output_port<V>* o_{};
};
template<class V> class output_port {
public:
    explicit output_port(V* o = nullptr, std::size_t i = 0) : owner_(o), i_(i) {}
    output_port(output_port const&) = delete;
    V& owner() const { return *owner_; }
    std::size_t index() const { return i_; }
    util::optional_ptr<input_port<V>> opposite() const { return util::optional_ptr<input_port<V>>(o_); }
    void connect_to(input_port<V>& i) { i.connect_to(*this); }
    friend bool operator==(output_port const& a, output_port const& b) { return &a == &b; }
    V* owner_; std::size_t i_; input_port<V>* o_{};
};
template<class V> void operator>>(output_port<V>& o, input_port<V>& i) { o.connect_to(i); }
template<class G, class F> void sort_from_upstream(G& g, F&& f) { for (auto& e : g) f(e); }
}

namespace takatori::relation {
enum class expression_kind { find, scan, values, join_find, join_scan, apply, project, filter, buffer, identify, emit, write, join_relation, aggregate_relation, distinct_relation, limit_relation, union_relation, intersection_relation, difference_relation, escape, values_, join_group, aggregate_group, intersection_group, difference_group, flatten_group, take_flat, take_group, take_cogroup, offer };
inline std::ostream& operator<<(std::ostream& o, expression_kind k) { return o << "relation_kind:" << static_cast<int>(k); }
class expression {
public:
    using input_port_type = graph::input_port<expression>;
    using output_port_type = graph::output_port<expression>;
    virtual ~expression() = default;
    virtual expression_kind kind() const noexcept = 0;
    expression() = default;
    expression(expression const&) = delete;
    std::vector<std::unique_ptr<input_port_type>> in_{};
    std::vector<std::unique_ptr<output_port_type>> out_{};
    class ports { };
    template<class P> struct port_view {
        std::vector<std::unique_ptr<P>> const* v;
        struct it { typename std::vector<std::unique_ptr<P>>::const_iterator i; P& operator*() const { return **i; } it& operator++() { ++i; return *this; } friend bool operator!=(it a, it b) { return a.i != b.i; } };
        it begin() const { return {v->begin()}; } it end() const { return {v->end()}; }
        std::size_t size() const { return v->size(); } bool empty() const { return v->empty(); } P& operator[](std::size_t i) const { return *(*v)[i]; }
    };
    port_view<input_port_type> input_ports() const { return {&in_}; }
    port_view<output_port_type> output_ports() const { return {&out_}; }
    friend bool operator==(expression const& a, expression const& b) { return &a == &b; }
protected:
    void ports_(std::size_t i, std::size_t o) { for (std::size_t k = 0; k < i; ++k) in_.push_back(std::make_unique<input_port_type>(this, k)); for (std::size_t k = 0; k < o; ++k) out_.push_back(std::make_unique<output_port_type>(this, k)); }
};
using graph_type = graph::graph<expression>;
template<class G, class F> void enumerate_top(G&& g, F&& f) { for (auto& e : g) if (e.input_ports().empty()) f(e); }
template<class G, class F> void sort_from_upstream(G&& g, F&& f) { graph::sort_from_upstream(g, std::forward<F>(f)); }

template<class T, expression_kind K, std::size_t I, std::size_t O> class kinded : public expression {
public:
    static constexpr expression_kind tag = K;
    kinded() { ports_(I, O); }
    expression_kind kind() const noexcept override { return K; }
    input_port_type& input() const { return *in_[0]; }
    output_port_type& output() const { return *out_[0]; }
};
enum class endpoint_kind { unbound, inclusive, exclusive, prefixed_inclusive, prefixed_exclusive };
inline std::ostream& operator<<(std::ostream& o, endpoint_kind k) { return o << static_cast<int>(k); }
enum class join_kind { inner, left_outer, full_outer, semi, anti, left_outer_at_most_one };
inline constexpr std::string_view to_string_view(join_kind k) { constexpr std::string_view n[] = {"inner","left_outer","full_outer","semi","anti","left_outer_at_most_one"}; return n[static_cast<int>(k)]; }
inline std::ostream& operator<<(std::ostream& o, join_kind k) { return o << to_string_view(k); }
enum class apply_kind { cross, outer };
inline std::ostream& operator<<(std::ostream& o, apply_kind k) { return o << (k == apply_kind::cross ? "cross" : "outer"); }
enum class write_kind { insert, insert_overwrite, insert_skip, update, delete_ };
inline constexpr std::string_view to_string_view(write_kind k) { constexpr std::string_view n[] = {"insert","insert_overwrite","insert_skip","update","delete_"}; return n[static_cast<int>(k)]; }
inline std::ostream& operator<<(std::ostream& o, write_kind k) { return o << to_string_view(k); }
namespace details {
class mapping_element {
public:
    mapping_element(descriptor::variable s, descriptor::variable d) : s_(std::move(s)), d_(std::move(d)) {}
    descriptor::variable const& source() const { return s_; }
    descriptor::variable const& destination() const { return d_; }
private: descriptor::variable s_, d_;
};
class search_key_element {
public:
    search_key_element(descriptor::variable v, scalar::sp e) : v_(std::move(v)), e_(std::move(e)) {}
    descriptor::variable const& variable() const { return v_; }
    scalar::expression const& value() const { return *e_; }
private: descriptor::variable v_; scalar::sp e_;
};
class sort_key_element {
public:
    sort_key_element(descriptor::variable v, sort_direction d = sort_direction::ascendant) : v_(std::move(v)), d_(d) {}
    descriptor::variable const& variable() const { return v_; }
    sort_direction direction() const { return d_; }
private: descriptor::variable v_; sort_direction d_;
};
class range_endpoint {
public:
    using key = search_key_element;
    using kind_type = endpoint_kind;
    range_endpoint() = default;
    range_endpoint(std::vector<search_key_element> k, endpoint_kind e) : k_(std::move(k)), e_(e) {}
    tree::tree_fragment_vector<search_key_element> const& keys() const { return k_; }
    endpoint_kind kind() const { return e_; }
private: std::vector<search_key_element> k_{}; endpoint_kind e_{endpoint_kind::unbound};
};
class aggregate_element {
public:
    aggregate_element(descriptor::aggregate_function f, std::vector<descriptor::variable> a, descriptor::variable d) : f_(std::move(f)), a_(std::move(a)), d_(std::move(d)) {}
    descriptor::aggregate_function const& function() const { return f_; }
    std::vector<descriptor::variable> const& arguments() const { return a_; }
    descriptor::variable const& destination() const { return d_; }
private: descriptor::aggregate_function f_; std::vector<descriptor::variable> a_; descriptor::variable d_;
};
class apply_column {
public:
    apply_column(std::size_t p, descriptor::variable v) : p_(p), v_(std::move(v)) {}
    std::size_t position() const { return p_; }
    descriptor::variable const& variable() const { return v_; }
private: std::size_t p_; descriptor::variable v_;
};
class cogroup_element {
public:
    using column = mapping_element;
    cogroup_element(descriptor::relation s, std::vector<mapping_element> c) : s_(std::move(s)), c_(std::move(c)) {}
    descriptor::relation const& source() const { return s_; }
    std::vector<mapping_element> const& columns() const { return c_; }
private: descriptor::relation s_; std::vector<mapping_element> c_;
};
}  // namespace details

class find : public kinded<find, expression_kind::find, 0, 1> {
public:
    using column = details::mapping_element; using key = details::search_key_element;
    find(descriptor::relation s, std::vector<column> c, std::vector<key> k) : s_(std::move(s)), c_(std::move(c)), k_(std::move(k)) {}
    descriptor::relation const& source() const { return s_; }
    std::vector<column> const& columns() const { return c_; }
    tree::tree_fragment_vector<key> const& keys() const { return k_; }
private: descriptor::relation s_; std::vector<column> c_; std::vector<key> k_;
};
class scan : public kinded<scan, expression_kind::scan, 0, 1> {
public:
    using column = details::mapping_element; using endpoint = details::range_endpoint; using key = details::search_key_element;
    scan(descriptor::relation s, std::vector<column> c, endpoint l = {}, endpoint u = {}, std::optional<std::size_t> n = {}) : s_(std::move(s)), c_(std::move(c)), l_(std::move(l)), u_(std::move(u)), n_(n) {}
    descriptor::relation const& source() const { return s_; }
    std::vector<column> const& columns() const { return c_; }
    endpoint const& lower() const { return l_; }
    endpoint const& upper() const { return u_; }
    std::optional<std::size_t> limit() const { return n_; }
private: descriptor::relation s_; std::vector<column> c_; endpoint l_, u_; std::optional<std::size_t> n_;
};
class values : public kinded<values, expression_kind::values, 0, 1> {
public:
    class row {
    public:
        explicit row(std::vector<scalar::sp> e) { for (auto& p : e) e_.push(std::unique_ptr<scalar::expression>(p->clone())); }
        tree::tree_element_vector<scalar::expression> const& elements() const { return e_; }
    private: tree::tree_element_vector<scalar::expression> e_;
    };
    values(std::vector<descriptor::variable> c, std::vector<row> r) : c_(std::move(c)), r_(std::move(r)) {}
    std::vector<descriptor::variable> const& columns() const { return c_; }
    tree::tree_fragment_vector<row> const& rows() const { return r_; }
private: std::vector<descriptor::variable> c_; std::vector<row> r_;
};
class join_find : public kinded<join_find, expression_kind::join_find, 1, 1> {
public:
    using operator_kind_type = join_kind; using column = details::mapping_element; using key = details::search_key_element;
    join_find(join_kind o, descriptor::relation s, std::vector<column> c, std::vector<key> k, scalar::sp cond = {}) : o_(o), s_(std::move(s)), c_(std::move(c)), k_(std::move(k)), cond_(std::move(cond)) {}
    join_kind operator_kind() const { return o_; }
    input_port_type& left() const { return *in_[0]; }
    descriptor::relation const& source() const { return s_; }
    std::vector<column> const& columns() const { return c_; }
    tree::tree_fragment_vector<key> const& keys() const { return k_; }
    util::optional_ptr<scalar::expression const> condition() const { return util::optional_ptr<scalar::expression const>(cond_.get()); }
private: join_kind o_; descriptor::relation s_; std::vector<column> c_; std::vector<key> k_; scalar::sp cond_;
};
class join_scan : public kinded<join_scan, expression_kind::join_scan, 1, 1> {
public:
    using operator_kind_type = join_kind; using column = details::mapping_element; using key = details::search_key_element; using endpoint = details::range_endpoint;
    join_scan(join_kind o, descriptor::relation s, std::vector<column> c, endpoint l, endpoint u, scalar::sp cond = {}) : o_(o), s_(std::move(s)), c_(std::move(c)), l_(std::move(l)), u_(std::move(u)), cond_(std::move(cond)) {}
    join_kind operator_kind() const { return o_; }
    input_port_type& left() const { return *in_[0]; }
    descriptor::relation const& source() const { return s_; }
    std::vector<column> const& columns() const { return c_; }
    endpoint const& lower() const { return l_; }
    endpoint const& upper() const { return u_; }
    util::optional_ptr<scalar::expression const> condition() const { return util::optional_ptr<scalar::expression const>(cond_.get()); }
private: join_kind o_; descriptor::relation s_; std::vector<column> c_; endpoint l_, u_; scalar::sp cond_;
};
class apply : public kinded<apply, expression_kind::apply, 1, 1> {
public:
    using operator_kind_type = apply_kind; using column = details::apply_column;
    apply(apply_kind o, descriptor::function f, std::vector<scalar::sp> a, std::vector<column> c) : o_(o), f_(std::move(f)), c_(std::move(c)) { for (auto& p : a) a_.push(std::unique_ptr<scalar::expression>(p->clone())); }
    apply_kind operator_kind() const { return o_; }
    descriptor::function const& function() const { return f_; }
    tree::tree_element_vector<scalar::expression> const& arguments() const { return a_; }
    std::vector<column> const& columns() const { return c_; }
private: apply_kind o_; descriptor::function f_; tree::tree_element_vector<scalar::expression> a_; std::vector<column> c_;
};
class project : public kinded<project, expression_kind::project, 1, 1> {
public:
    using column = details::search_key_element;
    explicit project(std::vector<column> c) : c_(std::move(c)) {}
    tree::tree_fragment_vector<column> const& columns() const { return c_; }
private: std::vector<column> c_;
};
class filter : public kinded<filter, expression_kind::filter, 1, 1> {
public:
    explicit filter(scalar::sp c) : c_(std::move(c)) {}
    scalar::expression const& condition() const { return *c_; }
private: scalar::sp c_;
};
class buffer : public kinded<buffer, expression_kind::buffer, 1, 0> { public: explicit buffer(std::size_t n) { ports_(0, n); } };
class identify : public kinded<identify, expression_kind::identify, 1, 1> {};
class emit : public kinded<emit, expression_kind::emit, 1, 0> {
public:
    class column {
    public:
        column(descriptor::variable s, std::optional<std::string> n = {}) : s_(std::move(s)), n_(std::move(n)) {}
        descriptor::variable const& source() const { return s_; }
        std::optional<std::string> const& name() const { return n_; }
    private: descriptor::variable s_; std::optional<std::string> n_;
    };
    explicit emit(std::vector<column> c) : c_(std::move(c)) {}
    std::vector<column> const& columns() const { return c_; }
private: std::vector<column> c_;
};
class write : public kinded<write, expression_kind::write, 1, 0> {
public:
    using operator_kind_type = write_kind; using column = details::mapping_element; using key = details::mapping_element;
    write(write_kind o, descriptor::relation d, std::vector<key> k, std::vector<column> c) : o_(o), d_(std::move(d)), k_(std::move(k)), c_(std::move(c)) {}
    write_kind operator_kind() const { return o_; }
    descriptor::relation const& destination() const { return d_; }
    std::vector<key> const& keys() const { return k_; }
    std::vector<column> const& columns() const { return c_; }
private: write_kind o_; descriptor::relation d_; std::vector<key> k_; std::vector<column> c_;
};
namespace step {
class join : public kinded<join, expression_kind::join_group, 1, 1> {
public:
    using operator_kind_type = join_kind;
    explicit join(join_kind o, scalar::sp c = {}) : o_(o), c_(std::move(c)) {}
    join_kind operator_kind() const { return o_; }
    util::optional_ptr<scalar::expression const> condition() const { return util::optional_ptr<scalar::expression const>(c_.get()); }
private: join_kind o_; scalar::sp c_;
};
class aggregate : public kinded<aggregate, expression_kind::aggregate_group, 1, 1> {
public:
    using column = details::aggregate_element;
    explicit aggregate(std::vector<column> c) : c_(std::move(c)) {}
    std::vector<column> const& columns() const { return c_; }
private: std::vector<column> c_;
};
class intersection : public kinded<intersection, expression_kind::intersection_group, 1, 1> {};
class difference : public kinded<difference, expression_kind::difference_group, 1, 1> {};
class flatten : public kinded<flatten, expression_kind::flatten_group, 1, 1> {};
template<class T, expression_kind K> class take : public kinded<T, K, 0, 1> {
public:
    using column = details::mapping_element;
    take(descriptor::relation s, std::vector<column> c) : s_(std::move(s)), c_(std::move(c)) {}
    descriptor::relation const& source() const { return s_; }
    std::vector<column> const& columns() const { return c_; }
private: descriptor::relation s_; std::vector<column> c_;
};
class take_flat : public take<take_flat, expression_kind::take_flat> { public: using take::take; };
class take_group : public take<take_group, expression_kind::take_group> { public: using take::take; };
class take_cogroup : public kinded<take_cogroup, expression_kind::take_cogroup, 0, 1> {
public:
    using group = details::cogroup_element;
    explicit take_cogroup(std::vector<group> g) : g_(std::move(g)) {}
    std::vector<group> const& groups() const { return g_; }
private: std::vector<group> g_;
};
class offer : public kinded<offer, expression_kind::offer, 1, 0> {
public:
    using column = details::mapping_element;
    offer(descriptor::relation d, std::vector<column> c) : d_(std::move(d)), c_(std::move(c)) {}
    descriptor::relation const& destination() const { return d_; }
    std::vector<column> const& columns() const { return c_; }
private: descriptor::relation d_; std::vector<column> c_;
};
template<class F, class E, class... A> decltype(auto) dispatch(F&& f, E& e, A&&... a) {
    using k = expression_kind;
    switch (e.kind()) {
#define TK_C(x, n) case k::n: return f(util::unsafe_downcast<x>(e), std::forward<A>(a)...);
        TK_C(relation::find, find) TK_C(relation::scan, scan) TK_C(relation::values, values) TK_C(relation::join_find, join_find) TK_C(relation::join_scan, join_scan)
        TK_C(relation::apply, apply) TK_C(relation::project, project) TK_C(relation::filter, filter) TK_C(relation::buffer, buffer) TK_C(relation::identify, identify)
        TK_C(relation::emit, emit) TK_C(relation::write, write) TK_C(join, join_group) TK_C(aggregate, aggregate_group) TK_C(intersection, intersection_group)
        TK_C(difference, difference_group) TK_C(flatten, flatten_group) TK_C(take_flat, take_flat) TK_C(take_group, take_group) TK_C(take_cogroup, take_cogroup) TK_C(offer, offer)
#undef TK_C
        default: break;
    }
    std::abort();
}
}  // namespace step
}  // namespace takatori::relation

namespace takatori::plan {
enum class step_kind { process, forward, group, aggregate, broadcast, discard };
inline std::ostream& operator<<(std::ostream& o, step_kind k) { return o << "step_kind:" << static_cast<int>(k); }
enum class group_mode { equivalence, equivalence_or_whole };
class step {
public:
    virtual ~step() = default;
    virtual step_kind kind() const noexcept = 0;
    step() = default;
    step(step const&) = delete;
    friend bool operator==(step const& a, step const& b) { return &a == &b; }
};
using graph_type = graph::graph<step>;
class process;
class exchange : public step {
public:
    virtual std::vector<descriptor::variable> const& columns() const = 0;
    std::vector<process*> upstreams_{}, downstreams_{};
    util::sequence_view<process* const> upstreams() const { return upstreams_; }
    util::sequence_view<process* const> downstreams() const { return downstreams_; }
};
class process : public step {
public:
    static constexpr step_kind tag = step_kind::process;
    step_kind kind() const noexcept override { return tag; }
    relation::graph_type& operators() { return g_; }
    relation::graph_type const& operators() const { return g_; }
    std::vector<exchange*> upstreams_{}, downstreams_{};
    struct view { std::vector<exchange*> const* v; std::size_t size() const { return v->size(); } bool empty() const { return v->empty(); } exchange const& operator[](std::size_t i) const { return *v->at(i); } };
    view upstreams() const { return {&upstreams_}; }
    view downstreams() const { return {&downstreams_}; }
    util::ref_vector<exchange> dummy_{};
private: relation::graph_type g_{};
};
inline void connect(process& p, exchange& e) { p.downstreams_.push_back(&e); e.upstreams_.push_back(&p); }
inline void connect(exchange& e, process& p) { e.downstreams_.push_back(&p); p.upstreams_.push_back(&e); }
template<class F> void enumerate_upstream(step const& s, F&& f) {
    if (s.kind() == step_kind::process) { for (auto* e : static_cast<process const&>(s).upstreams_) f(static_cast<step const&>(*e)); }
    else for (auto* p : static_cast<exchange const&>(s).upstreams_) f(static_cast<step const&>(*p));
}
inline bool has_upstream(step const& s) { bool r = false; enumerate_upstream(s, [&](step const&) { r = true; }); return r; }
template<class G, class F> void sort_from_upstream(G&& g, F&& f) {
    std::vector<step const*> done{};
    auto in = [&](step const* x) { for (auto* y : done) if (x == y) return true; return false; };
    for (bool more = true; more;) {
        more = false;
        for (auto& e : g) {
            if (in(&e)) continue;
            bool ready = true; enumerate_upstream(e, [&](step const& u) { ready = ready && in(&u); });
            if (ready) { done.push_back(&e); more = true; f(e); }
        }
    }
}
class forward : public exchange {
public:
    static constexpr step_kind tag = step_kind::forward;
    explicit forward(std::vector<descriptor::variable> c, std::optional<std::size_t> n = {}) : c_(std::move(c)), n_(n) {}
    step_kind kind() const noexcept override { return tag; }
    std::vector<descriptor::variable> const& columns() const override { return c_; }
    std::optional<std::size_t> limit() const { return n_; }
private: std::vector<descriptor::variable> c_; std::optional<std::size_t> n_;
};
class group : public exchange {
public:
    static constexpr step_kind tag = step_kind::group;
    using sort_key = relation::details::sort_key_element;
    group(std::vector<descriptor::variable> c, std::vector<descriptor::variable> g, std::vector<sort_key> s = {}, std::optional<std::size_t> n = {}, group_mode m = group_mode::equivalence)
        : c_(std::move(c)), g_(std::move(g)), s_(std::move(s)), n_(n), m_(m) {}
    step_kind kind() const noexcept override { return tag; }
    std::vector<descriptor::variable> const& columns() const override { return c_; }
    std::vector<descriptor::variable> const& group_keys() const { return g_; }
    std::vector<sort_key> const& sort_keys() const { return s_; }
    std::optional<std::size_t> limit() const { return n_; }
    group_mode mode() const { return m_; }
private: std::vector<descriptor::variable> c_, g_; std::vector<sort_key> s_; std::optional<std::size_t> n_; group_mode m_;
};
class aggregate : public exchange {
public:
    static constexpr step_kind tag = step_kind::aggregate;
    using aggregation = relation::details::aggregate_element;
    aggregate(std::vector<descriptor::variable> s, std::vector<descriptor::variable> d, std::vector<descriptor::variable> g, std::vector<aggregation> a, group_mode m = group_mode::equivalence)
        : s_(std::move(s)), d_(std::move(d)), g_(std::move(g)), a_(std::move(a)), m_(m) {}
    step_kind kind() const noexcept override { return tag; }
    std::vector<descriptor::variable> const& columns() const override { return d_; }
    std::vector<descriptor::variable> const& source_columns() const { return s_; }
    std::vector<descriptor::variable> const& destination_columns() const { return d_; }
    std::vector<descriptor::variable> const& group_keys() const { return g_; }
    std::vector<aggregation> const& aggregations() const { return a_; }
    group_mode mode() const { return m_; }
private: std::vector<descriptor::variable> s_, d_, g_; std::vector<aggregation> a_; group_mode m_;
};
}  // namespace takatori::plan

namespace takatori::statement {
enum class statement_kind { execute, write, create_table, drop_table, create_index, drop_index, truncate_table, grant_table, revoke_table, rename_table, rename_index, rename_column, empty, extension };
inline std::ostream& operator<<(std::ostream& o, statement_kind k) { return o << "statement_kind:" << static_cast<int>(k); }
class statement {
public:
    virtual ~statement() = default;
    virtual statement_kind kind() const noexcept = 0;
    document::region region() const { return {}; }
    std::any const& runtime_hint() const { return runtime_hint_; }
    std::any& runtime_hint() { return runtime_hint_; }
private: std::any runtime_hint_{};
};
template<class T, statement_kind K> class kinded : public statement { public: static constexpr statement_kind tag = K; statement_kind kind() const noexcept override { return K; } };
class execute : public kinded<execute, statement_kind::execute> {
public:
    plan::graph_type& execution_plan() { return g_; }
    plan::graph_type const& execution_plan() const { return g_; }
private: plan::graph_type g_{};
};
class write : public kinded<write, statement_kind::write> {
public:
    class tuple {
    public:
        explicit tuple(std::vector<scalar::sp> e) { for (auto& p : e) e_.push(std::unique_ptr<scalar::expression>(p->clone())); }
        tree::tree_element_vector<scalar::expression> const& elements() const { return e_; }
    private: tree::tree_element_vector<scalar::expression> e_;
    };
    using operator_kind_type = relation::write_kind; using column = descriptor::variable;
    write(relation::write_kind o, descriptor::relation d, std::vector<descriptor::variable> c, std::vector<tuple> t) : o_(o), d_(std::move(d)), c_(std::move(c)), t_(std::move(t)) {}
    relation::write_kind operator_kind() const { return o_; }
    descriptor::relation const& destination() const { return d_; }
    std::vector<descriptor::variable> const& columns() const { return c_; }
    tree::tree_fragment_vector<tuple> const& tuples() const { return t_; }
private: relation::write_kind o_; descriptor::relation d_; std::vector<descriptor::variable> c_; std::vector<tuple> t_;
};
class create_table : public kinded<create_table, statement_kind::create_table> {
public:
    create_table(descriptor::schema s, descriptor::storage d, descriptor::storage pk = {}) : s_(std::move(s)), d_(std::move(d)), pk_(std::move(pk)) {}
    descriptor::storage const& primary_key() const { return pk_; }
    descriptor::schema const& schema() const { return s_; }
    descriptor::storage const& definition() const { return d_; }
private: descriptor::schema s_; descriptor::storage d_, pk_;
};
template<class T, statement_kind K> class on_target : public kinded<T, K> {
public:
    explicit on_target(descriptor::storage t) : t_(std::move(t)) {}
    descriptor::storage const& target() const { return t_; }
    descriptor::schema schema() const { return {}; }
private: descriptor::storage t_;
};
class drop_table : public on_target<drop_table, statement_kind::drop_table> { public: using on_target::on_target; };
class drop_index : public on_target<drop_index, statement_kind::drop_index> { public: using on_target::on_target; };
enum class truncate_table_option_kind { restart_identity };
using truncate_table_option_kind_set = util::enum_set<truncate_table_option_kind, truncate_table_option_kind::restart_identity, truncate_table_option_kind::restart_identity>;
class truncate_table : public on_target<truncate_table, statement_kind::truncate_table> {
public:
    using option_kind_set = truncate_table_option_kind_set;
    truncate_table(descriptor::storage t, option_kind_set o = {}) : on_target(std::move(t)), o_(o) {}
    option_kind_set const& options() const { return o_; }
private: option_kind_set o_{};
};
enum class authorization_user_kind { specified, current_user, all_users };
enum class table_authorization_action_kind { control, select, insert, update, delete_ };
namespace details {
class table_privilege_action {
public:
    using action_kind_type = table_authorization_action_kind;
    explicit table_privilege_action(action_kind_type k) : k_(k) {}
    action_kind_type action_kind() const { return k_; }
private: action_kind_type k_;
};
class table_authorization_entry {
public:
    using user_kind_type = authorization_user_kind;
    table_authorization_entry(user_kind_type k, std::string id, std::vector<table_privilege_action> p) : k_(k), id_(std::move(id)), p_(std::move(p)) {}
    user_kind_type user_kind() const { return k_; }
    std::string const& authorization_identifier() const { return id_; }
    std::vector<table_privilege_action> const& privileges() const { return p_; }
private: user_kind_type k_; std::string id_; std::vector<table_privilege_action> p_;
};
class table_privilege_element {
public:
    table_privilege_element(descriptor::storage t, std::vector<table_privilege_action> d, std::vector<table_authorization_entry> e) : t_(std::move(t)), d_(std::move(d)), e_(std::move(e)) {}
    descriptor::storage const& table() const { return t_; }
    std::vector<table_privilege_action> const& default_privileges() const { return d_; }
    std::vector<table_authorization_entry> const& authorization_entries() const { return e_; }
private: descriptor::storage t_; std::vector<table_privilege_action> d_; std::vector<table_authorization_entry> e_;
};
}
template<class T, statement_kind K> class privileges_ : public kinded<T, K> {
public:
    explicit privileges_(std::vector<details::table_privilege_element> e) : e_(std::move(e)) {}
    std::vector<details::table_privilege_element> const& elements() const { return e_; }
private: std::vector<details::table_privilege_element> e_;
};
class grant_table : public privileges_<grant_table, statement_kind::grant_table> { public: using privileges_::privileges_; };
class revoke_table : public privileges_<revoke_table, statement_kind::revoke_table> { public: using privileges_::privileges_; };
class create_index : public kinded<create_index, statement_kind::create_index> {
public:
    create_index(descriptor::schema s, descriptor::storage t, descriptor::storage d) : s_(std::move(s)), t_(std::move(t)), d_(std::move(d)) {}
    descriptor::schema const& schema() const { return s_; }
    descriptor::storage const& target() const { return t_; }
    descriptor::storage const& definition() const { return d_; }
private: descriptor::schema s_; descriptor::storage t_, d_;
};
}  // namespace takatori::statement
