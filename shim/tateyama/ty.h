// Stand-in for the tateyama library (absent here): server interfaces and the task scheduler, with the same interface
// as far as the sources of /repo under check use it.
#pragma once
#include <any>
#include <atomic>
#include <deque>
#include <filesystem>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <variant>
#include <vector>
#include <glog/logging.h>
#ifndef TATEYAMA_SHIM_CACHE_ALIGN
#define TATEYAMA_SHIM_CACHE_ALIGN
#define cache_align alignas(64)
#endif
#ifndef LOG_LP
#define LOG_LP(s) LOG(s)
#define VLOG_LP(l) VLOG(l)
#define VLOG_LP_EVERY_N(l, n) VLOG_EVERY_N(l, n)
#define LOG_EVERY_N_LP(s, n) LOG_EVERY_N(s, n)
#endif
#define trace_scope_name(x) ((void) 0)
#define trace_scope ((void) 0)
namespace tateyama {
enum class status { ok, unknown, not_found, already_exists, user_rollback, waiting, operation_denied };
}
namespace tateyama::utils { template<class T> std::string_view location_prefix(T&&) { return {}; } }
namespace tateyama::task_scheduler {
enum class schedule_policy_kind { undefined, suspended_worker };
class schedule_option {
public:
    explicit schedule_option(schedule_policy_kind p = schedule_policy_kind::undefined) : p_(p) {}
    schedule_policy_kind policy() const { return p_; }
private: schedule_policy_kind p_;
};
class context {
public:
    explicit context(std::size_t i) : i_(i) {}
    std::size_t index() const { return i_; }
    bool task_is_stolen() const { return false; } std::size_t last_steal_from() const { return 0; }
private: std::size_t i_;
};
class task_scheduler_cfg {
public:
    std::map<std::string, std::size_t> v{};
#define TY_F(x) void x(std::pair<int, int>) {} std::size_t x() const { auto i = v.find(#x); return i == v.end() ? 0 : i->second; } void x(std::size_t a) { v[#x] = a; }
    TY_F(thread_count) TY_F(core_affinity) TY_F(initial_core) TY_F(assign_numa_nodes_uniformly) TY_F(force_numa_node) TY_F(ratio_check_local_first) TY_F(use_preferred_worker_for_current_thread)
    TY_F(stealing_enabled) TY_F(task_polling_wait) TY_F(empty_thread) TY_F(stealing_wait) TY_F(busy_worker) TY_F(watcher_interval) TY_F(worker_try_count) TY_F(worker_suspend_timeout)
#undef TY_F
};
class basic_conditional_task {
public:
    basic_conditional_task() = default;
    basic_conditional_task(std::function<bool()> c, std::function<void()> b) : c_(std::move(c)), b_(std::move(b)) {}
    bool check() { return c_(); }
    void operator()() { b_(); }
private: std::function<bool()> c_{}; std::function<void()> b_{};
};
// who runs what is scheduled: by default nobody (it is queued, a check looks at it), with a pool set the pool
template<class T, class C> struct pool {
    virtual ~pool() = default;
    virtual void schedule(T&& t, schedule_option o) = 0; virtual void schedule_at(T&& t, std::size_t w) = 0; virtual void schedule_conditional(C&& t) = 0;
    virtual std::size_t next_worker() = 0; virtual void start(std::function<void(std::size_t)> const& init) = 0; virtual void stop() = 0;
};
template<class T, class C> class scheduler {
public:
    static inline std::function<std::unique_ptr<pool<T, C>>()> factory{};
    explicit scheduler(task_scheduler_cfg c = {}, std::function<void(std::size_t)> init = {}) : cfg_(std::move(c)), init_(std::move(init)) { if (factory) p_ = factory(); }
    void schedule(T&& t, schedule_option o = schedule_option{}) { if (p_) p_->schedule(std::move(t), o); else q.emplace_back(std::move(t)); }
    void schedule_at(T&& t, std::size_t w) { if (p_) p_->schedule_at(std::move(t), w); else q.emplace_back(std::move(t)); }
    void schedule_conditional(C&& t) { if (p_) p_->schedule_conditional(std::move(t)); else cq.emplace_back(std::move(t)); }
    std::size_t next_worker() { return p_ ? p_->next_worker() : 0; }
    std::size_t preferred_worker_for_current_thread() { return next_worker(); }
    void start() { if (p_) p_->start(init_); } void stop() { if (p_) p_->stop(); }
    std::size_t size() const { return 1; }
    void print_worker_stats(std::ostream&) {} void print_diagnostic(std::ostream&) {}
    std::deque<T> q{}; std::deque<C> cq{};
private: task_scheduler_cfg cfg_; std::function<void(std::size_t)> init_; std::unique_ptr<pool<T, C>> p_{};
};
}
namespace tateyama::session {
enum class session_variable_type { boolean, signed_integer, unsigned_integer, string };
class session_variable_set {
public:
    using value_type = std::variant<std::monostate, bool, std::int64_t, std::uint64_t, std::string>;
    value_type get(std::string_view n) const { auto i = m.find(std::string(n)); return i == m.end() ? value_type{} : i->second; }
    std::map<std::string, value_type> m{};
};
class session_resource {};
}
namespace tateyama::proto::diagnostics {
enum class Code { UNKNOWN, IO_ERROR, PERMISSION_ERROR, OPERATION_DENIED, OPERATION_CANCELED, INVALID_REQUEST, ILLEGAL_STATE, UNSUPPORTED_OPERATION };
class Record { public: void set_code(Code c) { c_ = c; } void set_message(std::string m) { m_ = std::move(m); } Code code() const { return c_; } std::string const& message() const { return m_; } private: Code c_{}; std::string m_{}; };
}
namespace tateyama::api::server {
enum class user_type { administrator, standard };
class session_element { public: virtual ~session_element() = default; virtual void dispose() = 0; };
class session_store {
public:
    template<class T> std::shared_ptr<T> find(std::size_t id) { auto i = m.find(id); return i == m.end() ? nullptr : std::dynamic_pointer_cast<T>(i->second); }
    template<class T> bool put(std::size_t id, std::shared_ptr<T> e) { return m.emplace(id, std::move(e)).second; }
    template<class T, class... A> std::shared_ptr<T> find_or_emplace(std::size_t id, A&&... a) { auto& e = m[id]; if (! e) e = std::make_shared<T>(std::forward<A>(a)...); return std::dynamic_pointer_cast<T>(e); }
    template<class T> bool remove(std::size_t id) { return m.erase(id) != 0; }
    void dispose() { for (auto& [k, v] : m) v->dispose(); m.clear(); }
    std::map<std::size_t, std::shared_ptr<session_element>> m{};
};
class session_info {
public:
    virtual ~session_info() = default;
    virtual std::size_t id() const noexcept { return id_; }
    virtual std::string_view label() const noexcept { return {}; }
    virtual std::string_view application_name() const noexcept { return {}; }
    virtual std::string_view connection_type_name() const noexcept { return {}; }
    virtual std::string_view connection_information() const noexcept { return {}; }
    virtual std::optional<std::string_view> username() const noexcept { return user_ ? std::optional<std::string_view>(*user_) : std::nullopt; }
    virtual server::user_type user_type() const noexcept { return type_; }
    std::size_t id_{}; std::optional<std::string> user_{}; server::user_type type_{};
};
class database_info { public: virtual ~database_info() = default; virtual std::string_view name() const noexcept { return "db"; } virtual std::string_view instance_id() const noexcept { return "i"; } };
class blob_info {
public:
    virtual ~blob_info() = default;
    virtual std::string_view channel_name() const noexcept = 0;
    virtual std::filesystem::path path() const noexcept = 0;
    virtual bool is_temporary() const noexcept = 0;
    virtual void dispose() = 0;
};
class writer {
public:
    virtual ~writer() = default;
    virtual tateyama::status write(char const* data, std::size_t length) = 0;
    virtual tateyama::status commit() = 0;
};
class data_channel {
public:
    virtual ~data_channel() = default;
    virtual tateyama::status acquire(std::shared_ptr<writer>& w) = 0;
    virtual tateyama::status release(writer& w) = 0;
    virtual std::size_t max_writer_count() { return 256; }
};
class request {
public:
    virtual ~request() = default;
    virtual std::size_t session_id() const = 0;
    virtual std::size_t service_id() const = 0;
    virtual std::size_t local_id() const { return 0; }
    virtual std::string_view payload() const = 0;
    virtual server::database_info const& database_info() const noexcept = 0;
    virtual server::session_info const& session_info() const noexcept = 0;
    virtual server::session_store& session_store() noexcept = 0;
    virtual tateyama::session::session_variable_set& session_variable_set() noexcept = 0;
    virtual bool has_blob(std::string_view) const noexcept { return false; }
    virtual blob_info const& get_blob(std::string_view) const = 0;
};
class response {
public:
    virtual ~response() = default;
    virtual void session_id(std::size_t) = 0;
    virtual tateyama::status body(std::string_view b) = 0;
    virtual tateyama::status body_head(std::string_view b) = 0;
    virtual void error(tateyama::proto::diagnostics::Record const& r) = 0;
    virtual tateyama::status acquire_channel(std::string_view n, std::shared_ptr<data_channel>& c, std::size_t m) = 0;
    virtual tateyama::status release_channel(data_channel& c) = 0;
    virtual bool check_cancel() const = 0;
    virtual bool has_blob() const noexcept { return false; }
    virtual tateyama::status add_blob(std::unique_ptr<blob_info> b) = 0;
};
}
namespace tateyama::api::configuration { class whole; class section; }
namespace tateyama::framework {
class environment; class repository;
class component { public: using id_type = std::size_t; virtual ~component() = default; virtual id_type id() const noexcept = 0; virtual bool setup(environment&) = 0; virtual bool start(environment&) = 0; virtual bool shutdown(environment&) = 0; virtual std::string_view label() const noexcept = 0; };
class resource : public component {};
class service : public component { public: virtual bool operator()(std::shared_ptr<api::server::request>, std::shared_ptr<api::server::response>) = 0; };
inline constexpr component::id_type service_id_sql = 3, resource_id_sql = 3, service_id_remote_kvs = 4; enum class boot_mode { database_server, maintenance_server, quiescent_server }; }
