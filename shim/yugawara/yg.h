// Stand-in for the yugawara library (absent here): catalog objects, bindings and analysis results, with the same
// interface as far as the sources of /repo under check use it.
#pragma once
#include <any>
#include <map>
#include <mutex>
#include <set>
#include <shared_mutex>
#include <variant>
#include "../takatori/tk.h"

namespace yugawara::util {
template<class M> class maybe_shared_lock {
public:
    explicit maybe_shared_lock(M& m) : l_(m) {}
private: std::shared_lock<M> l_;
};
}

namespace yugawara::variable {
class nullity {
public:
    constexpr explicit nullity(bool n) noexcept : n_(n) {}
    constexpr bool nullable() const noexcept { return n_; }
    constexpr nullity operator~() const noexcept { return nullity{! n_}; }
    friend constexpr bool operator==(nullity a, nullity b) { return a.n_ == b.n_; }
    friend constexpr bool operator!=(nullity a, nullity b) { return a.n_ != b.n_; }
    friend std::ostream& operator<<(std::ostream& o, nullity v) { return o << (v.n_ ? "NULL" : "NOT NULL"); }
private: bool n_;
};
inline constexpr nullity nullable{true};
class criteria {
public:
    criteria(variable::nullity n = variable::nullity{true}) : n_(n) {}
    variable::nullity nullity() const { return n_; }
    criteria& nullity(variable::nullity n) { n_ = n; return *this; }
    friend bool operator==(criteria const& a, criteria const& b) { return a.n_ == b.n_; }
private: variable::nullity n_;
};
class declaration {
public:
    declaration(std::string n, std::shared_ptr<takatori::type::data const> t, variable::criteria c = {}) : n_(std::move(n)), t_(std::move(t)), c_(c) {}
    template<class T, class = std::enable_if_t<std::is_base_of_v<takatori::type::data, T>>> declaration(std::string n, T t, variable::criteria c = {}) : n_(std::move(n)), t_(std::make_shared<T>(std::move(t))), c_(c) {}
    std::string_view name() const { return n_; }
    takatori::type::data const& type() const { return *t_; }
    std::shared_ptr<takatori::type::data const> shared_type() const { return t_; }
    variable::criteria const& criteria() const { return c_; }
private: std::string n_; std::shared_ptr<takatori::type::data const> t_; variable::criteria c_;
};
class provider {
public:
    virtual ~provider() = default;
    virtual std::shared_ptr<declaration const> find(std::string_view n) const = 0;
};
class configurable_provider : public provider {
public:
    configurable_provider() = default;
    explicit configurable_provider(std::shared_ptr<provider const> p) : p_(std::move(p)) {}
    std::shared_ptr<declaration const> find(std::string_view n) const override { auto i = m_.find(std::string(n)); return i == m_.end() ? (p_ ? p_->find(n) : nullptr) : i->second; }
    std::shared_ptr<declaration> const& add(std::shared_ptr<declaration> d, bool overwrite = false) {
        std::string n(d->name());
        if (! overwrite && m_.count(n)) throw std::invalid_argument("variable exists: " + n);
        return m_[n] = std::move(d);
    }
    std::shared_ptr<declaration> const& add(declaration d, bool overwrite = false) { return add(std::make_shared<declaration>(std::move(d)), overwrite); }
    bool remove(std::string_view n) { return m_.erase(std::string(n)) != 0; }
    template<class F> void each(F&& f) const { for (auto& [n, d] : m_) f(std::shared_ptr<declaration const>(d)); if (auto* p = dynamic_cast<configurable_provider const*>(p_.get())) p->each(f); }
private: std::map<std::string, std::shared_ptr<declaration>> m_{}; std::shared_ptr<provider const> p_{};
};
using basic_configurable_provider = configurable_provider;
}  // namespace yugawara::variable

namespace yugawara::function {
enum class function_feature { scalar_function, table_valued_function };
using function_feature_set = takatori::util::enum_set<function_feature, function_feature::scalar_function, function_feature::table_valued_function>;
class declaration {
public:
    using definition_id_type = std::size_t;
    using feature_set_type = function_feature_set;
    static constexpr definition_id_type minimum_system_function_id = 32768;
    static constexpr definition_id_type minimum_builtin_function_id = 10000;
    static constexpr definition_id_type minimum_user_function_id = 0;
    static constexpr definition_id_type unresolved_definition_id = static_cast<definition_id_type>(-1);
    using pt = std::shared_ptr<takatori::type::data const>;
    template<class P, class = std::enable_if_t<std::is_same_v<P, pt>>> declaration(definition_id_type id, std::string n, P r, std::vector<pt> p, function_feature_set f = { function_feature::scalar_function }, std::string desc = {})
        : id_(id), n_(std::move(n)), r_(std::move(r)), p_(std::move(p)), f_(f), d_(std::move(desc)) {}
    declaration(definition_id_type id, std::string n, takatori::type::data const& r, std::initializer_list<takatori::type::tref> p, function_feature_set f = { function_feature::scalar_function }, std::string desc = {})
        : id_(id), n_(std::move(n)), r_(r.clone()), f_(f), d_(std::move(desc)) { for (auto& x : p) p_.push_back(x.p); }
    definition_id_type definition_id() const { return id_; }
    std::string_view name() const { return n_; }
    takatori::type::data const& return_type() const { return *r_; }
    pt shared_return_type() const { return r_; }
    std::vector<pt> const& shared_parameter_types() const { return p_; }
    struct types {
        std::vector<pt> const* v;
        struct it { std::vector<pt>::const_iterator i; takatori::type::data const& operator*() const { return **i; } it& operator++() { ++i; return *this; } friend bool operator!=(it a, it b) { return a.i != b.i; } };
        it begin() const { return {v->begin()}; } it end() const { return {v->end()}; } std::size_t size() const { return v->size(); } takatori::type::data const& operator[](std::size_t i) const { return *(*v)[i]; } takatori::type::data const& at(std::size_t i) const { return *v->at(i); }
    };
    types parameter_types() const { return {&p_}; }
    function_feature_set const& features() const { return f_; }
    std::string const& description() const { return d_; }
    explicit operator bool() const { return id_ != unresolved_definition_id; }
    friend bool operator==(declaration const& a, declaration const& b) { return a.id_ == b.id_; }
private: definition_id_type id_; std::string n_; pt r_; std::vector<pt> p_; function_feature_set f_; std::string d_;
};
template<class M> class basic_configurable_provider {
public:
    using consumer = std::function<void(std::shared_ptr<declaration const> const&)>;
    std::shared_ptr<declaration> const& add(std::shared_ptr<declaration> d, bool = false) { v_.push_back(std::move(d)); return v_.back(); }
    template<class... A> std::shared_ptr<declaration> const& add(declaration d) { return add(std::make_shared<declaration>(std::move(d))); }
    void each(consumer const& c) const { for (auto& d : v_) c(d); }
    void each(std::string_view n, consumer const& c) const { for (auto& d : v_) if (d->name() == n) c(d); }
    void each(std::string_view n, std::size_t k, consumer const& c) const { for (auto& d : v_) if (d->name() == n && d->parameter_types().size() == k) c(d); }
    bool remove(declaration const& x) { for (auto i = v_.begin(); i != v_.end(); ++i) if (i->get() == &x) { v_.erase(i); return true; } return false; }
private: std::vector<std::shared_ptr<declaration>> v_{};
};
using configurable_provider = basic_configurable_provider<std::shared_mutex>;
}  // namespace yugawara::function

namespace yugawara::aggregate {
class declaration {
public:
    using definition_id_type = std::size_t;
    static constexpr definition_id_type minimum_system_function_id = 32768;
    static constexpr definition_id_type minimum_builtin_function_id = 10000;
    static constexpr definition_id_type minimum_user_function_id = 0;
    static constexpr std::string_view name_suffix_distinct = "$distinct";
    using pt = std::shared_ptr<takatori::type::data const>;
    template<class P, class = std::enable_if_t<std::is_same_v<P, pt>>> declaration(definition_id_type id, std::string n, P r, std::vector<pt> p, bool incr = false) : id_(id), n_(std::move(n)), r_(std::move(r)), p_(std::move(p)), i_(incr) {}
    declaration(definition_id_type id, std::string n, takatori::type::data const& r, std::initializer_list<takatori::type::tref> p, bool incr = false) : id_(id), n_(std::move(n)), r_(r.clone()), i_(incr) { for (auto& x : p) p_.push_back(x.p); }
    definition_id_type definition_id() const { return id_; }
    std::string_view name() const { return n_; }
    takatori::type::data const& return_type() const { return *r_; }
    std::vector<pt> const& shared_parameter_types() const { return p_; }
    bool incremental() const { return i_; }
private: definition_id_type id_; std::string n_; pt r_; std::vector<pt> p_; bool i_;
};
class configurable_provider {
public:
    std::shared_ptr<declaration> const& add(std::shared_ptr<declaration> d) { v_.push_back(std::move(d)); return v_.back(); }
    std::shared_ptr<declaration> const& add(declaration d) { return add(std::make_shared<declaration>(std::move(d))); }
    std::vector<std::shared_ptr<declaration>> v_{};
};
}  // namespace yugawara::aggregate

namespace yugawara::storage {
using sort_direction = takatori::relation::sort_direction;
enum class relation_kind { table, view };
enum class column_value_kind { nothing, immediate, sequence, function };
inline std::ostream& operator<<(std::ostream& o, column_value_kind k) { return o << static_cast<int>(k); }
enum class column_feature { synthesized, hidden, read_only };
inline std::ostream& operator<<(std::ostream& o, column_feature k) { return o << static_cast<int>(k); }
using column_feature_set = takatori::util::enum_set<column_feature, column_feature::synthesized, column_feature::read_only>;
enum class index_feature { primary, find, scan, unique, unique_constraint };
inline std::ostream& operator<<(std::ostream& o, index_feature k) { return o << static_cast<int>(k); }
using index_feature_set = takatori::util::enum_set<index_feature, index_feature::primary, index_feature::unique_constraint>;
class provider;
class table;

class sequence {
public:
    using definition_id_type = std::size_t;
    using value_type = std::int64_t;
    sequence(std::optional<definition_id_type> id, std::string n, value_type init = 1, value_type inc = 1, value_type mn = 1, value_type mx = 9223372036854775807LL, bool cyc = true, std::string desc = {})
        : id_(id), n_(std::move(n)), init_(init), inc_(inc), mn_(mn), mx_(mx), c_(cyc), d_(std::move(desc)) {}
    explicit sequence(std::string n, value_type init = 1, value_type inc = 1, value_type mn = 1, value_type mx = 9223372036854775807LL, bool cyc = true, std::string desc = {})
        : sequence(std::nullopt, std::move(n), init, inc, mn, mx, cyc, std::move(desc)) {}
    std::optional<definition_id_type> definition_id() const { return id_; }
    sequence& definition_id(std::optional<definition_id_type> i) { id_ = i; return *this; }
    std::string_view simple_name() const { return n_; }
    value_type initial_value() const { return init_; }
    value_type increment_value() const { return inc_; }
    value_type min_value() const { return mn_; }
    value_type max_value() const { return mx_; }
    bool cycle() const { return c_; }
    std::string const& description() const { return d_; }
private: std::optional<definition_id_type> id_; std::string n_; value_type init_, inc_, mn_, mx_; bool c_; std::string d_;
};

class column_value {
public:
    using kind_type = column_value_kind;
    column_value() = default;
    column_value(std::nullptr_t) {}
    template<class T, class = std::enable_if_t<std::is_base_of_v<takatori::value::data, std::remove_const_t<T>>>> column_value(std::shared_ptr<T> v) : k_(v ? kind_type::immediate : kind_type::nothing), v_(std::move(v)) {}
    column_value(std::shared_ptr<storage::sequence const> s) : k_(s ? kind_type::sequence : kind_type::nothing), s_(std::move(s)) {}
    column_value(std::shared_ptr<storage::sequence> s) : column_value(std::shared_ptr<storage::sequence const>(std::move(s))) {}
    column_value(std::shared_ptr<yugawara::function::declaration const> f) : k_(f ? kind_type::function : kind_type::nothing), f_(std::move(f)) {}
    column_value(std::shared_ptr<yugawara::function::declaration> f) : column_value(std::shared_ptr<yugawara::function::declaration const>(std::move(f))) {}
    kind_type kind() const { return k_; }
    explicit operator bool() const { return k_ != kind_type::nothing; }
    template<column_value_kind K> auto const& element() const {
        if (k_ != K) throw std::bad_variant_access();
        if constexpr (K == kind_type::immediate) return v_;
        else if constexpr (K == kind_type::sequence) return s_;
        else return f_;
    }
private:
    kind_type k_{kind_type::nothing}; std::shared_ptr<takatori::value::data const> v_{}; std::shared_ptr<storage::sequence const> s_{}; std::shared_ptr<yugawara::function::declaration const> f_{};
};

class column {
public:
    using feature_set_type = column_feature_set;
    using pt = std::shared_ptr<takatori::type::data const>;
    column(std::string n, pt t, variable::criteria c = {}, column_value dv = {}, feature_set_type f = {}, std::string d = {})
        : n_(std::move(n)), t_(std::move(t)), c_(c), dv_(std::move(dv)), f_(f), d_(std::move(d)) {}
    column(std::string n, takatori::type::data const& t, variable::criteria c = {}, column_value dv = {}, feature_set_type f = {}, std::string d = {})
        : column(std::move(n), pt(t.clone()), c, std::move(dv), f, std::move(d)) {}
    column(std::string n, pt t, variable::nullity c, column_value dv = {}, feature_set_type f = {}, std::string d = {}) : column(std::move(n), std::move(t), variable::criteria(c), std::move(dv), f, std::move(d)) {}
    column(std::string n, takatori::type::data const& t, variable::nullity c, column_value dv = {}, feature_set_type f = {}, std::string d = {}) : column(std::move(n), t, variable::criteria(c), std::move(dv), f, std::move(d)) {}
    std::string_view simple_name() const { return n_; }
    takatori::type::data const& type() const { return *t_; }
    takatori::type::data const* type_ptr() const { return t_.get(); }
    pt shared_type() const { return t_; }
    column& type(pt t) { t_ = std::move(t); return *this; }
    variable::criteria const& criteria() const { return c_; }
    variable::criteria& criteria() { return c_; }
    column_value const& default_value() const { return dv_; }
    column_value& default_value() { return dv_; }
    feature_set_type const& features() const { return f_; }
    feature_set_type& features() { return f_; }
    std::string const& description() const { return d_; }
    column& description(std::string d) { d_ = std::move(d); return *this; }
    friend bool operator==(column const& a, column const& b) { return &a == &b; }
    friend bool operator!=(column const& a, column const& b) { return &a != &b; }
    table const* owner_{};
private: std::string n_; pt t_; variable::criteria c_; column_value dv_; feature_set_type f_; std::string d_;
};

class relation {
public:
    using definition_id_type = std::size_t;
    virtual ~relation() = default;
    virtual relation_kind kind() const noexcept = 0;
    virtual std::string_view simple_name() const = 0;
    takatori::util::optional_ptr<provider const> owner() const { return takatori::util::optional_ptr<provider const>(owner_); }
    provider const* owner_{};
};
class table : public relation {
public:
    static constexpr relation_kind tag = relation_kind::table;
    using simple_name_type = std::string;
    using column_vector_type = takatori::util::reference_vector<column>;
    table(std::optional<definition_id_type> id, std::string n, column_vector_type c, std::string d = {}) : id_(id), n_(std::move(n)), c_(std::move(c)), d_(std::move(d)) {}
    table(std::string n, column_vector_type c, std::string d = {}) : table(std::nullopt, std::move(n), std::move(c), std::move(d)) {}
    table(std::string_view n, std::initializer_list<column> c, std::string d = {}) : table(std::nullopt, std::string(n), column_vector_type(c), std::move(d)) {}
    table(char const* n, std::initializer_list<column> c, std::string d = {}) : table(std::nullopt, std::string(n), column_vector_type(c), std::move(d)) {}
    table(std::optional<definition_id_type> id, std::string n, std::initializer_list<column> c, std::string d = {}) : table(id, std::move(n), column_vector_type(c), std::move(d)) {}
    table(std::string n, std::initializer_list<column> c, std::string d = {}) : table(std::nullopt, std::move(n), column_vector_type(c), std::move(d)) {}
    relation_kind kind() const noexcept override { return tag; }
    std::optional<definition_id_type> definition_id() const { return id_; }
    table& definition_id(std::optional<definition_id_type> i) { id_ = i; return *this; }
    std::string_view simple_name() const override { return n_; }
    table& simple_name(std::string n) { n_ = std::move(n); return *this; }
    column_vector_type const& columns() const { return c_; }
    column_vector_type& columns() { return c_; }
    std::string const& description() const { return d_; }
    table& description(std::string d) { d_ = std::move(d); return *this; }
private: std::optional<definition_id_type> id_; std::string n_; column_vector_type c_; std::string d_;
};
class index {
public:
    using definition_id_type = std::size_t;
    using simple_name_type = std::string;
    using column_ref = std::reference_wrapper<storage::column const>;
    using feature_set_type = index_feature_set;
    class key {
    public:
        key(storage::column const& c, sort_direction d = sort_direction::ascendant) : c_(&c), d_(d) {}
        storage::column const& column() const { return *c_; }
        sort_direction direction() const { return d_; }
        friend bool operator==(key const& a, key const& b) { return a.c_ == b.c_ && a.d_ == b.d_; }
    private: storage::column const* c_; sort_direction d_;
    };
    index(std::optional<definition_id_type> id, std::shared_ptr<storage::table const> t, std::string n, std::vector<key> k, std::vector<column_ref> v, index_feature_set f = {}, std::string d = {})
        : id_(id), t_(std::move(t)), n_(std::move(n)), k_(std::move(k)), v_(std::move(v)), f_(f), d_(std::move(d)) {}
    index(std::shared_ptr<storage::table const> t, std::string n, std::vector<key> k = {}, std::vector<column_ref> v = {}, index_feature_set f = {}, std::string d = {})
        : index(std::nullopt, std::move(t), std::move(n), std::move(k), std::move(v), f, std::move(d)) {}
    index(std::shared_ptr<storage::table const> t, std::string_view n, std::vector<key> k, std::vector<column_ref> v, index_feature_set f = {}, std::string d = {})
        : index(std::nullopt, std::move(t), std::string(n), std::move(k), std::move(v), f, std::move(d)) {}
    std::optional<definition_id_type> definition_id() const { return id_; }
    index& definition_id(std::optional<definition_id_type> i) { id_ = i; return *this; }
    storage::table const& table() const { return *t_; }
    std::shared_ptr<storage::table const> shared_table() const { return t_; }
    std::string_view simple_name() const { return n_; }
    index& simple_name(std::string n) { n_ = std::move(n); return *this; }
    std::vector<key> const& keys() const { return k_; }
    std::vector<key>& keys() { return k_; }
    std::vector<column_ref> const& values() const { return v_; }
    std::vector<column_ref>& values() { return v_; }
    index_feature_set const& features() const { return f_; }
    index_feature_set& features() { return f_; }
    std::string const& description() const { return d_; }
    index& description(std::string d) { d_ = std::move(d); return *this; }
    friend bool operator==(index const& a, index const& b) { return &a == &b; }
    friend bool operator!=(index const& a, index const& b) { return &a != &b; }
private: std::optional<definition_id_type> id_; std::shared_ptr<storage::table const> t_; std::string n_; std::vector<key> k_; std::vector<column_ref> v_; index_feature_set f_; std::string d_;
};

class provider {
public:
    using relation_consumer_type = std::function<void(std::string_view, std::shared_ptr<relation const> const&)>;
    using index_consumer_type = std::function<void(std::string_view, std::shared_ptr<index const> const&)>;
    using sequence_consumer_type = std::function<void(std::string_view, std::shared_ptr<sequence const> const&)>;
    virtual ~provider() = default;
    virtual std::shared_ptr<relation const> find_relation(std::string_view) const = 0;
    virtual std::shared_ptr<index const> find_index(std::string_view) const = 0;
    virtual std::shared_ptr<sequence const> find_sequence(std::string_view) const = 0;
    virtual void each_relation(relation_consumer_type const&) const = 0;
    virtual void each_index(index_consumer_type const&) const = 0;
    virtual void each_sequence(sequence_consumer_type const&) const = 0;
    std::shared_ptr<table const> find_table(std::string_view n) const { return std::dynamic_pointer_cast<table const>(find_relation(n)); }
    std::shared_ptr<index const> find_primary_index(table const& t) const {
        std::shared_ptr<index const> r;
        each_index([&](std::string_view, std::shared_ptr<index const> const& i) { if (&i->table() == &t && i->features().contains(index_feature::primary)) r = i; });
        return r;
    }
    void each_table_index(table const& t, index_consumer_type const& c) const { each_index([&](std::string_view n, std::shared_ptr<index const> const& i) { if (&i->table() == &t) c(n, i); }); }
};
class configurable_provider : public provider {
public:
    configurable_provider() = default;
    explicit configurable_provider(std::shared_ptr<provider const> p) : p_(std::move(p)) {}
    configurable_provider(configurable_provider const&) = delete;
    std::shared_ptr<relation const> find_relation(std::string_view n) const override { return get<relation>(r_, n, &provider::find_relation); }
    std::shared_ptr<index const> find_index(std::string_view n) const override { return get<index>(i_, n, &provider::find_index); }
    std::shared_ptr<sequence const> find_sequence(std::string_view n) const override { return get<sequence>(s_, n, &provider::find_sequence); }
    void each_relation(relation_consumer_type const& c) const override { auto m = snap(r_); for (auto& [n, x] : m) c(n, x); if (p_) p_->each_relation(c); }
    void each_index(index_consumer_type const& c) const override { auto m = snap(i_); for (auto& [n, x] : m) c(n, x); if (p_) p_->each_index(c); }
    void each_sequence(sequence_consumer_type const& c) const override { auto m = snap(s_); for (auto& [n, x] : m) c(n, x); if (p_) p_->each_sequence(c); }
    std::shared_ptr<table> add_table(std::shared_ptr<table> t, bool overwrite = false) { put<relation>(r_, std::string(t->simple_name()), t, overwrite); t->owner_ = this; return t; }
    std::shared_ptr<table const> add_table(std::shared_ptr<table const> t, bool overwrite = false) { return add_table(std::const_pointer_cast<table>(t), overwrite); }
    std::shared_ptr<index const> add_index(std::shared_ptr<index const> t, bool overwrite = false) { return add_index(std::const_pointer_cast<index>(t), overwrite); }
    std::shared_ptr<sequence const> add_sequence(std::shared_ptr<sequence const> t, bool overwrite = false) { return add_sequence(std::const_pointer_cast<sequence>(t), overwrite); }
    std::shared_ptr<table> add_table(table t, bool overwrite = false) { return add_table(std::make_shared<table>(std::move(t)), overwrite); }
    template<class T> std::shared_ptr<T> add_relation(std::shared_ptr<T> t, bool overwrite = false) { put<relation>(r_, std::string(t->simple_name()), t, overwrite); t->owner_ = this; return t; }
    std::shared_ptr<index> add_index(std::shared_ptr<index> i, bool overwrite = false) { put<index>(i_, std::string(i->simple_name()), i, overwrite); return i; }
    std::shared_ptr<index> add_index(index i, bool overwrite = false) { return add_index(std::make_shared<index>(std::move(i)), overwrite); }
    std::shared_ptr<sequence> add_sequence(std::shared_ptr<sequence> s, bool overwrite = false) { put<sequence>(s_, std::string(s->simple_name()), s, overwrite); return s; }
    std::shared_ptr<sequence> add_sequence(sequence s, bool overwrite = false) { return add_sequence(std::make_shared<sequence>(std::move(s)), overwrite); }
    bool remove_relation(std::string_view n) { std::unique_lock l(m_); return r_.erase(std::string(n)) != 0; }
    bool remove_index(std::string_view n) { std::unique_lock l(m_); return i_.erase(std::string(n)) != 0; }
    bool remove_sequence(std::string_view n) { std::unique_lock l(m_); return s_.erase(std::string(n)) != 0; }
private:
    template<class T> using map_t = std::map<std::string, std::shared_ptr<T const>>;
    template<class T, class F> std::shared_ptr<T const> get(map_t<T> const& m, std::string_view n, F f) const {
        { std::shared_lock l(m_); auto i = m.find(std::string(n)); if (i != m.end()) return i->second; }
        return p_ ? ((*p_).*f)(n) : nullptr;
    }
    template<class T> map_t<T> snap(map_t<T> const& m) const { std::shared_lock l(m_); return m; }
    template<class T> void put(map_t<T>& m, std::string n, std::shared_ptr<T const> v, bool ow) {
        std::unique_lock l(m_);
        if (! ow && m.count(n)) throw std::invalid_argument("already exists: " + n);
        m[n] = std::move(v);
    }
    mutable std::shared_mutex m_{};
    map_t<relation> r_{}; map_t<index> i_{}; map_t<sequence> s_{}; std::shared_ptr<provider const> p_{};
};
using basic_configurable_provider = configurable_provider;
}  // namespace yugawara::storage

namespace yugawara::schema {
class declaration {
public:
    explicit declaration(std::string n = {}, std::shared_ptr<storage::provider const> s = {}) : n_(std::move(n)), s_(std::move(s)) {}
    template<class P = variable::provider> declaration(std::nullopt_t, std::string n, std::shared_ptr<storage::provider const> s, std::shared_ptr<P const> = {}, std::shared_ptr<function::configurable_provider> = {}, std::shared_ptr<aggregate::configurable_provider> = {}) : n_(std::move(n)), s_(std::move(s)) {}
    std::string_view name() const { return n_; }
    storage::provider const& storage_provider() const { return *s_; }
private: std::string n_; std::shared_ptr<storage::provider const> s_;
};
}
namespace yugawara::storage {
class prototype_processor {
public:
    struct diagnostic_type {};
    using diagnostic_consumer_type = std::function<void(diagnostic_type const&)>;
    virtual ~prototype_processor() = default;
};
class basic_prototype_processor : public prototype_processor {
protected:
    virtual bool ensure(schema::declaration const&, storage::table&, storage::index&, diagnostic_consumer_type const&) = 0;
    virtual bool ensure(schema::declaration const&, storage::index&, diagnostic_consumer_type const&) = 0;
public:
    bool run(schema::declaration const& s, storage::table& t, storage::index& i) { return ensure(s, t, i, [](diagnostic_type const&) {}); }
    bool run(schema::declaration const& s, storage::index& i) { return ensure(s, i, [](diagnostic_type const&) {}); }
};
}

namespace yugawara::binding {
namespace d_ = takatori::descriptor;
class factory {
public:
    d_::variable operator()(storage::column const& c) const { return d_::variable(&c, 0); }
    d_::variable table_column(storage::column const& c) const { return (*this)(c); }
    d_::relation operator()(storage::index const& i) const { return d_::relation(&i, 0); }
    d_::relation index(storage::index const& i) const { return (*this)(i); }
    d_::relation operator()(takatori::plan::exchange const& e) const { d_::relation r(&e, 0); r.cls = 1; return r; }
    d_::relation exchange(takatori::plan::exchange const& e) const { return (*this)(e); }
    d_::storage storage(std::shared_ptr<storage::index const> i) const { return d_::storage(std::move(i)); }
    d_::storage storage(std::shared_ptr<storage::table const> t) const { return d_::storage(std::move(t)); }
    d_::aggregate_function operator()(std::shared_ptr<aggregate::declaration const> f) const { return d_::aggregate_function(std::move(f)); }
    d_::function operator()(std::shared_ptr<function::declaration const> f) const { return d_::function(std::move(f)); }
    d_::function function(std::shared_ptr<yugawara::function::declaration const> f) const { return d_::function(std::move(f)); }
    d_::aggregate_function aggregate_function(std::shared_ptr<aggregate::declaration const> f) const { return d_::aggregate_function(std::move(f)); }
    d_::schema schema(std::shared_ptr<yugawara::schema::declaration const> s) const { return d_::schema(std::move(s)); }
    d_::variable stream_variable(std::string n = {}) const { d_::variable v(std::make_shared<std::string const>(n)); v.name = std::move(n); v.cls = 2; return v; }
    d_::variable exchange_column(std::string n = {}) const { auto v = stream_variable(std::move(n)); v.cls = 3; return v; }
    d_::variable external_variable(std::shared_ptr<variable::declaration const> x) const { std::string n(x->name()); d_::variable v(std::move(x)); v.name = n; v.cls = 4; return v; }
    d_::variable operator()(std::shared_ptr<variable::declaration const> x) const { return external_variable(std::move(x)); }
};
template<class T, class D> T const& extract(D const& d) { return *static_cast<T const*>(d.object()); }
template<class T, class D> std::shared_ptr<T const> extract_shared(D const& d) { return std::static_pointer_cast<T const>(d.shared()); }
template<class T, class D> takatori::util::optional_ptr<T const> extract_if(D const& d) {
    if (! d) return {};
    if constexpr (std::is_base_of_v<takatori::plan::exchange, T>) { if (d.cls != 1) return {}; }
    return takatori::util::optional_ptr<T const>(static_cast<T const*>(d.object()));
}
}

namespace yugawara::analyzer {
class index_estimator {};
enum class variable_resolution_kind { unresolved, scalar_expression, table_column, external, function_call, aggregation, unknown };
class variable_resolution {
public:
    variable_resolution_kind kind() const { return k_; }
    operator bool() const { return k_ != variable_resolution_kind::unresolved; }
    variable_resolution_kind k_{variable_resolution_kind::unresolved};
    std::shared_ptr<takatori::type::data const> type_{};
    takatori::type::data const& type() const { return *type_; }
};
class variable_mapping {
public:
    std::unordered_map<takatori::descriptor::variable, variable_resolution> m{};
    variable_resolution const& find(takatori::descriptor::variable const& v) const { static variable_resolution none{}; auto i = m.find(v); return i == m.end() ? none : i->second; }
    template<class F> void each(F f) const { for (auto& [k, v] : m) f(k, v); }
};
class expression_mapping {};
}

namespace yugawara {
// the result of static analysis: types of expressions and variables
class compiled_info {
public:
    compiled_info() : v_(std::make_shared<analyzer::variable_mapping>()) {}
    explicit compiled_info(std::shared_ptr<analyzer::variable_mapping> v) : v_(std::move(v)) {}
    compiled_info(std::shared_ptr<analyzer::expression_mapping>, std::shared_ptr<analyzer::variable_mapping> v) : v_(std::move(v)) {}
    void set(takatori::descriptor::variable const& v, std::shared_ptr<takatori::type::data const> t, analyzer::variable_resolution_kind k = analyzer::variable_resolution_kind::unknown) const { v_->m[v] = {k, std::move(t)}; }
    takatori::type::data const& type_of(takatori::descriptor::variable const& v) const {
        auto i = v_->m.find(v);
        if (i != v_->m.end()) return *i->second.type_;
        if (v.cls == 0 && v) return static_cast<storage::column const*>(v.object())->type();
        if (v.cls == 4) return static_cast<variable::declaration const*>(v.object())->type();
        static takatori::type::unknown none;
        return none;
    }
    takatori::type::data const& type_of(takatori::scalar::expression const& e) const {
        if (e.ty) return *e.ty;
        using k = takatori::scalar::expression_kind;
        switch (e.kind()) {
            case k::immediate: return static_cast<takatori::scalar::immediate const&>(e).type();
            case k::cast: return static_cast<takatori::scalar::cast const&>(e).type();
            case k::variable_reference: return type_of(static_cast<takatori::scalar::variable_reference const&>(e).variable());
            default: { static takatori::type::unknown none; return none; }
        }
    }
    analyzer::variable_mapping const& variables() const { return *v_; }
    class object_scanner_type {};
    object_scanner_type object_scanner() const { return {}; }
    explicit operator bool() const { return v_ != nullptr; }
private: std::shared_ptr<analyzer::variable_mapping> v_;
};
enum class compiler_code { unknown, ambiguous_type, inconsistent_type, unsupported_type, unresolved_variable, unsupported_feature };
inline std::ostream& operator<<(std::ostream& o, compiler_code c) { return o << static_cast<int>(c); }
struct compiler_diagnostic { compiler_code c; std::string m; compiler_code code() const { return c; } std::string const& message() const { return m; } std::string location() const { return {}; } };
enum class restricted_feature { relation_identify, relation_difference, relation_intersection, exchange_broadcast, exchange_discard, statement_write_delete, statement_write_update, statement_rename_column, statement_rename_index, statement_rename_table, statement_truncate_table, statement_truncate_table_restart_identity };
using restricted_feature_set = takatori::util::enum_set<restricted_feature, restricted_feature::relation_identify, restricted_feature::statement_truncate_table_restart_identity>;
enum class runtime_feature { broadcast_exchange, aggregate_exchange, index_join, index_join_scan, broadcast_join_scan, always_inline_scalar_local_variables };
class compiler_options;
class compiler_result {
public:
    compiler_result() = default;
    compiler_result(std::unique_ptr<takatori::statement::statement> s, compiled_info i) : s_(std::move(s)), i_(std::move(i)) {}
    explicit compiler_result(std::vector<compiler_diagnostic> d) : d_(std::move(d)) {}
    bool success() const { return s_ != nullptr; }
    std::vector<compiler_diagnostic> const& diagnostics() const { return d_; }
    std::unique_ptr<takatori::statement::statement> release_statement() { return std::move(s_); }
    compiled_info const& info() const { return i_; }
private: std::unique_ptr<takatori::statement::statement> s_{}; compiled_info i_{}; std::vector<compiler_diagnostic> d_{};
};
struct analyzed { std::string sql; };
struct compiler { inline static std::function<compiler_result(std::string const&, compiler_options const&)> hook{}; compiler_result operator()(compiler_options const& o, analyzed&& a) { return hook(a.sql, o); } };
using runtime_feature_set = takatori::util::enum_set<runtime_feature, runtime_feature::broadcast_exchange, runtime_feature::always_inline_scalar_local_variables>;
}

namespace yugawara {
class compiler_options {
public:
    template<class S> compiler_options(runtime_feature_set r, std::shared_ptr<S> s, std::shared_ptr<analyzer::index_estimator>) : r_(r) { if constexpr (std::is_base_of_v<storage::basic_prototype_processor, S>) sp_ = std::move(s); else (void) s; }
    std::shared_ptr<storage::basic_prototype_processor> const& storage_processor() const { return sp_; }
    bool& enable_disjunction_range_hinting() { return h_; } restricted_feature_set& restricted_features() { return f_; }
    runtime_feature_set const& runtime_features() const { return r_; } restricted_feature_set const& restricted_features() const { return f_; }
private: runtime_feature_set r_; restricted_feature_set f_{}; bool h_{}; std::shared_ptr<storage::basic_prototype_processor> sp_{};
};
namespace schema {
class configurable_provider { public: std::shared_ptr<declaration>& add(declaration d) { d_.push_back(std::make_shared<declaration>(std::move(d))); return d_.back(); } private: std::vector<std::shared_ptr<declaration>> d_{}; };
class catalog { public: explicit catalog(std::string) {} void schema_provider(std::shared_ptr<configurable_provider> p) { p_ = std::move(p); } private: std::shared_ptr<configurable_provider> p_{}; };
class search_path { public: search_path(std::initializer_list<std::shared_ptr<declaration>>) {} };
}
}
namespace yugawara::analyzer {
// blocks: chains of operators, split behind buffer operators
class block {
public:
    using op = takatori::relation::expression;
    class it { public: op const* const* p; op const& operator*() const { return **p; } it& operator++() { ++p; return *this; } friend bool operator!=(it a, it b) { return a.p != b.p; } };
    it begin() const { return {ops.data()}; } it end() const { return {ops.data() + ops.size()}; }
    class bit { public: std::unique_ptr<block> const* p; block const& operator*() const { return **p; } bit& operator++() { ++p; return *this; } friend bool operator!=(bit a, bit b) { return a.p != b.p; } };
    struct view { std::vector<std::unique_ptr<block>> const* v; bit begin() const { return {v->data()}; } bit end() const { return {v->data() + v->size()}; } std::size_t size() const { return v->size(); } };
    view downstreams() const { return {&down}; }
    std::vector<op const*> ops{}; std::vector<std::unique_ptr<block>> down{};
};
class block_graph { public: std::unique_ptr<block> head{}; };
class block_builder {
public:
    static void fill(block& b, takatori::relation::expression const* o) {
        for (;;) {
            b.ops.push_back(o);
            auto outs = o->output_ports();
            if (outs.empty()) return;
            if (outs.size() == 1 && o->kind() != takatori::relation::expression_kind::buffer) { o = &outs[0].opposite()->owner(); continue; }
            for (std::size_t i = 0; i < outs.size(); ++i) { b.down.push_back(std::make_unique<block>()); fill(*b.down.back(), &outs[i].opposite()->owner()); }
            return;
        }
    }
    static block_graph build(takatori::relation::graph_type& g) {
        block_graph r;
        for (auto& e : g) if (e.input_ports().empty()) { r.head = std::make_unique<block>(); fill(*r.head, &e); break; }
        return r;
    }
};
inline takatori::util::optional_ptr<block> find_unique_head(block_graph& g) { return takatori::util::optional_ptr<block>(g.head.get()); }
class variable_liveness_info {
public:
    using variable_set = std::set<takatori::descriptor::variable, bool (*)(takatori::descriptor::variable const&, takatori::descriptor::variable const&)>;
    std::vector<takatori::descriptor::variable> d{};
    std::unordered_map<takatori::descriptor::variable, int> k{};
    std::vector<takatori::descriptor::variable> const& define() const { return d; }
    std::unordered_map<takatori::descriptor::variable, int> const& kill() const { return k; }
};
class variable_liveness_analyzer {
public:
    explicit variable_liveness_analyzer(block_graph&) {}
    // the variables defined in a block; none of them is dropped as dead
    variable_liveness_info const& inspect(block const& b) {
        namespace r = takatori::relation;
        auto& i = m_[&b];
        if (! i.d.empty()) return i;
        auto def = [&](auto const& v) { i.d.push_back(v); };
        for (auto& o : b) {
            using k = r::expression_kind;
            switch (o.kind()) {
                case k::find: for (auto& c : static_cast<r::find const&>(o).columns()) def(c.destination()); break;
                case k::scan: for (auto& c : static_cast<r::scan const&>(o).columns()) def(c.destination()); break;
                case k::values: for (auto& c : static_cast<r::values const&>(o).columns()) def(c); break;
                case k::join_find: for (auto& c : static_cast<r::join_find const&>(o).columns()) def(c.destination()); break;
                case k::join_scan: for (auto& c : static_cast<r::join_scan const&>(o).columns()) def(c.destination()); break;
                case k::apply: for (auto& c : static_cast<r::apply const&>(o).columns()) def(c.variable()); break;
                case k::project: for (auto& c : static_cast<r::project const&>(o).columns()) def(c.variable()); break;
                case k::aggregate_group: for (auto& c : static_cast<r::step::aggregate const&>(o).columns()) def(c.destination()); break;
                case k::take_flat: for (auto& c : static_cast<r::step::take_flat const&>(o).columns()) def(c.destination()); break;
                case k::take_group: for (auto& c : static_cast<r::step::take_group const&>(o).columns()) def(c.destination()); break;
                case k::take_cogroup: for (auto& g : static_cast<r::step::take_cogroup const&>(o).groups()) for (auto& c : g.columns()) def(c.destination()); break;
                default: break;
            }
        }
        return i;
    }
private: std::map<block const*, variable_liveness_info> m_{};
};
}
