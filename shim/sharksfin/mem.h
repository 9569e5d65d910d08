// Stand-in for sharksfin: the transaction engine as an in-memory store with the same interface.
// - committed state: a set of storages (ordered key -> value), and sequences (version, value)
// - a transaction sees the committed state overlaid by its own writes; commit applies the writes at once,
//   abort drops them
// - every operation first asks mem::hook (if set) for a status code: a check enumerates faults with it
// - slices handed out stay readable until the next operation of the same transaction/iterator only
#pragma once
#include <any>
#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <vector>

namespace sharksfin {

enum class StatusCode : std::int64_t {
    OK = 0, NOT_FOUND = 1, ALREADY_EXISTS = 2, USER_ROLLBACK = 3, WAITING_FOR_OTHER_TRANSACTION = 4,
    CONCURRENT_OPERATION = 5, PREMATURE = 6,
    ERR_UNKNOWN = -1, ERR_IO_ERROR = -2, ERR_INVALID_ARGUMENT = -3, ERR_INVALID_STATE = -4, ERR_UNSUPPORTED = -5,
    ERR_USER_ERROR = -6, ERR_ABORTED = -7, ERR_ABORTED_RETRYABLE = -8, ERR_TIME_OUT = -9, ERR_NOT_IMPLEMENTED = -10,
    ERR_ILLEGAL_OPERATION = -11, ERR_CONFLICT_ON_WRITE_PRESERVE = -12, ERR_WRITE_WITHOUT_WRITE_PRESERVE = -14,
    ERR_INACTIVE_TRANSACTION = -15, ERR_BLOCKED_BY_CONCURRENT_OPERATION = -16, ERR_RESOURCE_LIMIT_REACHED = -17,
    ERR_INVALID_KEY_LENGTH = -18, ERR_READ_AREA_VIOLATION = -19,
};
inline std::ostream& operator<<(std::ostream& o, StatusCode c) { return o << "StatusCode:" << static_cast<std::int64_t>(c); }

enum class ErrorCode : std::int32_t {
    OK = 0, ERROR = -1, KVS_KEY_ALREADY_EXISTS = -101, KVS_KEY_NOT_FOUND = -102, CC_LTX_READ_ERROR = -201,
    CC_LTX_WRITE_ERROR = -202, CC_OCC_READ_ERROR = -203, CC_OCC_WRITE_ERROR = -204,
    CC_LTX_READ_AREA_VIOLATION = -205, CC_OCC_PHANTOM_AVOIDANCE = -206,
};
inline std::ostream& operator<<(std::ostream& o, ErrorCode c) { return o << "ErrorCode:" << static_cast<int>(c); }

enum class ErrorLocatorKind { unknown = 0, storage_key };
inline std::ostream& operator<<(std::ostream& o, ErrorLocatorKind k) { return o << (k == ErrorLocatorKind::storage_key ? "storage_key" : "unknown"); }
class ErrorLocator {
public:
    virtual ~ErrorLocator() = default;
    virtual ErrorLocatorKind kind() const noexcept { return ErrorLocatorKind::unknown; }
};
class StorageKeyErrorLocator : public ErrorLocator {
public:
    std::optional<std::string> key_{}, storage_{};
    ErrorLocatorKind kind() const noexcept override { return ErrorLocatorKind::storage_key; }
    std::optional<std::string_view> key() const noexcept { if (key_) return *key_; return {}; }
    std::optional<std::string_view> storage() const noexcept { if (storage_) return *storage_; return {}; }
};

class Slice {
public:
    Slice() = default;
    Slice(void const* p, std::size_t n) : p_(static_cast<char const*>(p)), n_(n) {}
    Slice(std::string_view s) : p_(s.data()), n_(s.size()) {}  // NOLINT
    Slice(std::string const& s) : p_(s.data()), n_(s.size()) {}  // NOLINT
    template<class T = void> T const* data() const { return reinterpret_cast<T const*>(p_); }
    std::size_t size() const { return n_; }
    bool empty() const { return n_ == 0; }
    std::string_view to_string_view() const { return {p_, n_}; }
    std::string to_string() const { return std::string(p_, n_); }
private:
    char const* p_{}; std::size_t n_{};
};

enum class EndPointKind : std::uint32_t { UNBOUND = 0, INCLUSIVE, EXCLUSIVE, PREFIXED_INCLUSIVE, PREFIXED_EXCLUSIVE };
enum class PutOperation : std::uint32_t { CREATE_OR_UPDATE = 0, CREATE, UPDATE };
inline std::ostream& operator<<(std::ostream& o, EndPointKind c) { return o << static_cast<int>(c); }
inline std::ostream& operator<<(std::ostream& o, PutOperation c) { return o << static_cast<int>(c); }

class StorageOptions {
public:
    using storage_id_type = std::uint64_t;
    static constexpr storage_id_type undefined = static_cast<storage_id_type>(-1);
    StorageOptions() = default;
    explicit StorageOptions(storage_id_type id) : id_(id) {}
    storage_id_type storage_id() const { return id_; }
    StorageOptions& storage_id(storage_id_type v) { id_ = v; return *this; }
    std::string_view payload() const { return payload_; }
    StorageOptions& payload(std::string p) { payload_ = std::move(p); return *this; }
private:
    storage_id_type id_{undefined};
    std::string payload_{};
};

class DatabaseOptions {
public:
    DatabaseOptions& attribute(std::string const& k, std::string const& v) { m_[k] = v; return *this; }
    std::optional<std::string> attribute(std::string const& k) const { auto i = m_.find(k); if (i == m_.end()) return {}; return i->second; }
private:
    std::map<std::string, std::string> m_{};
};

class CallResult {
public:
    CallResult() = default;
    explicit CallResult(ErrorCode c, std::shared_ptr<ErrorLocator> l = {}) : c_(c), l_(std::move(l)) {}
    ErrorCode code() const { return c_; }
    std::shared_ptr<ErrorLocator> location() const { return l_; }
    void location(std::shared_ptr<ErrorLocator> l) { l_ = std::move(l); }
    std::string reason_string_{};
    std::string_view description() const { return reason_string_; }
private:
    ErrorCode c_{ErrorCode::OK};
    std::shared_ptr<ErrorLocator> l_{};
};

class TransactionInfo {
public:
    TransactionInfo() = default;
    explicit TransactionInfo(std::string id) : id_(std::move(id)) {}
    std::string_view id() const { return id_; }
private:
    std::string id_{};
};

class TransactionState {
public:
    enum class StateKind : std::uint32_t { UNKNOWN = 0, WAITING_START, STARTED, WAITING_CC_COMMIT, ABORTED, WAITING_DURABLE, DURABLE };
    TransactionState() = default;
    explicit TransactionState(StateKind k) : k_(k) {}
    StateKind state_kind() const { return k_; }
private:
    StateKind k_{StateKind::UNKNOWN};
};

namespace mem { struct Storage; struct StorageRef; struct Db; struct Tx; struct Iter; }
using DatabaseHandle = mem::Db*;
using StorageHandle = mem::StorageRef*;
using TransactionControlHandle = mem::Tx*;
using TransactionHandle = mem::Tx*;
using IteratorHandle = mem::Iter*;
using SequenceId = std::size_t;
using SequenceVersion = std::size_t;
using SequenceValue = std::int64_t;
using durability_marker_type = std::uint64_t;
using blob_id_type = std::uint64_t;
using durability_callback_type = std::function<void(durability_marker_type)>;
using commit_callback_type = std::function<void(StatusCode, ErrorCode, durability_marker_type)>;

class TransactionOptions {
public:
    enum class TransactionType : std::uint32_t { SHORT = 1, LONG = 2, READ_ONLY = 3 };
    class Area { public: Area(StorageHandle h) : h_(h) {} StorageHandle handle() const { return h_; } private: StorageHandle h_; };  // NOLINT
    using WritePreserves = std::vector<Area>;
    using ReadAreas = std::vector<Area>;
    TransactionOptions() = default;
    TransactionOptions(TransactionType t, WritePreserves w = {}, ReadAreas i = {}, ReadAreas e = {})
        : t_(t), w_(std::move(w)), i_(std::move(i)), e_(std::move(e)) {}
    TransactionType transactionType() const { return t_; }
    WritePreserves const& writePreserves() const { return w_; }
    ReadAreas const& readAreasInclusive() const { return i_; }
    ReadAreas const& readAreasExclusive() const { return e_; }
private:
    TransactionType t_{TransactionType::SHORT};
    WritePreserves w_{}; ReadAreas i_{}, e_{};
};

class Environment { public: void initialize() {} };

namespace mem {

using Map = std::map<std::string, std::string>;
struct Storage { std::string name; StorageOptions opts; Map data; bool deleted{}; };
struct StorageRef { std::shared_ptr<Storage> s; };
struct Seq { SequenceVersion version{}; SequenceValue value{}; bool written{}; };
struct Db {
    std::map<std::string, std::shared_ptr<Storage>> storages;
    std::map<SequenceId, Seq> sequences;
    SequenceId next_seq{1};
    durability_callback_type dcb{};
    durability_marker_type marker{1};
    std::size_t next_tx{1};
    std::set<Tx*> live{};
};
enum class Op { begin, commit, abort, get, exist, put, del, scan, next, key, value, storage_create, storage_get, storage_delete, seq_create, seq_put, seq_get, seq_delete, storage_set };
inline char const* op_name(Op o) {
    static char const* n[] = {"begin","commit","abort","get","exist","put","delete","scan","next","key","value","storage_create","storage_get","storage_delete","seq_create","seq_put","seq_get","seq_delete","storage_set"};
    return n[static_cast<int>(o)];
}
struct Write { std::shared_ptr<Storage> s; std::string key; std::optional<std::string> value; };
struct Tx {
    Db* db{}; TransactionOptions opts{}; std::string id{};
    std::map<Storage*, std::pair<std::shared_ptr<Storage>, std::map<std::string, std::optional<std::string>>>> writes{};
    std::vector<std::pair<SequenceId, Seq>> seqs{};
    TransactionState::StateKind st{TransactionState::StateKind::STARTED};
    std::shared_ptr<CallResult> recent{std::make_shared<CallResult>()};
    std::unique_ptr<std::string> buf{};
    int strands{};
    bool active() const { return st == TransactionState::StateKind::STARTED || st == TransactionState::StateKind::WAITING_START; }
    void drop() { writes.clear(); seqs.clear(); st = TransactionState::StateKind::ABORTED; }
};
struct Iter {
    Tx* tx{}; std::shared_ptr<Storage> s{};
    std::string bk, ek; EndPointKind b{}, e{}; std::size_t limit{}; bool rev{};
    std::size_t seen{}; bool started{}; std::string cur{}; bool valid{};
    std::unique_ptr<std::string> kbuf{}, vbuf{};
    std::set<std::string> there{};      // the keys at the time of the scan: what the transaction itself adds later is not visited
};
// fault hook: the status code to return instead of doing the operation; nothing = do it.
// it may return a code that aborts (see aborts()): then the transaction is aborted as the real engine would do
inline std::function<std::optional<StatusCode>(Op, Tx*, std::string_view storage, std::string_view key)> hook{};
// commit hook: called instead of deciding the outcome of a commit; receives what has to be called with the outcome
inline std::function<bool(Tx*, commit_callback_type)> commit_hook{};
inline std::size_t open_tx{}, open_iter{}, open_storage{};

inline bool aborts(StatusCode c) {
    return c == StatusCode::ERR_ABORTED || c == StatusCode::ERR_ABORTED_RETRYABLE || c == StatusCode::ERR_CONFLICT_ON_WRITE_PRESERVE ||
        c == StatusCode::ERR_READ_AREA_VIOLATION || c == StatusCode::ERR_IO_ERROR;
}
inline std::optional<StatusCode> ask(Op o, Tx* t, std::string_view s, std::string_view k) {
    if (t && ! t->active()) return StatusCode::ERR_INACTIVE_TRANSACTION;
    if (hook) if (auto r = hook(o, t, s, k)) { if (t && aborts(*r)) t->drop(); return r; }
    return {};
}
inline std::optional<std::string> look(Tx* t, Storage* s, std::string const& k) {
    if (auto i = t->writes.find(s); i != t->writes.end()) if (auto j = i->second.second.find(k); j != i->second.second.end()) return j->second;
    if (auto i = s->data.find(k); i != s->data.end()) return i->second;
    return {};
}
inline Map merged(Tx* t, Storage* s) {
    Map m = s->data;
    if (auto i = t->writes.find(s); i != t->writes.end()) for (auto& [k, v] : i->second.second) { if (v) m[k] = *v; else m.erase(k); }
    return m;
}
inline bool starts(std::string const& k, std::string const& p) { return k.compare(0, p.size(), p) == 0; }
inline bool in_range(Iter& i, std::string const& k) {
    switch (i.b) {
        case EndPointKind::UNBOUND: break;
        case EndPointKind::INCLUSIVE: case EndPointKind::PREFIXED_INCLUSIVE: if (k < i.bk) return false; break;
        case EndPointKind::EXCLUSIVE: if (k <= i.bk) return false; break;
        case EndPointKind::PREFIXED_EXCLUSIVE: if (k < i.bk || starts(k, i.bk)) return false; break;
    }
    switch (i.e) {
        case EndPointKind::UNBOUND: break;
        case EndPointKind::INCLUSIVE: if (k > i.ek) return false; break;
        case EndPointKind::PREFIXED_INCLUSIVE: if (k > i.ek && ! starts(k, i.ek)) return false; break;
        case EndPointKind::EXCLUSIVE: case EndPointKind::PREFIXED_EXCLUSIVE: if (k >= i.ek) return false; break;
    }
    return true;
}
inline void apply(Tx* t) {
    for (auto& [p, w] : t->writes) for (auto& [k, v] : w.second) { if (v) w.first->data[k] = *v; else w.first->data.erase(k); }
    for (auto& [id, s] : t->seqs) { auto i = t->db->sequences.find(id); if (i != t->db->sequences.end() && (! i->second.written || i->second.version < s.version)) i->second = s; }
    t->writes.clear(); t->seqs.clear();
    t->st = TransactionState::StateKind::WAITING_DURABLE;
}
// the engine stops without warning: what was committed stays (or, if given, an earlier durable image), the rest is gone
inline std::unique_ptr<Db> crash(Db const& d) {
    auto r = std::make_unique<Db>();
    for (auto& [n, s] : d.storages) r->storages[n] = std::make_shared<Storage>(*s);
    for (auto& [n, s] : d.sequences) if (s.written) r->sequences[n] = s;
    for (auto& [n, s] : r->sequences) r->next_seq = std::max(r->next_seq, n + 1);
    r->marker = d.marker;
    return r;
}
}  // namespace mem

inline StatusCode database_open(DatabaseOptions const&, void*, DatabaseHandle* r) { *r = new mem::Db{}; return StatusCode::OK; }
inline StatusCode database_close(DatabaseHandle) { return StatusCode::OK; }
inline StatusCode database_dispose(DatabaseHandle h) { delete h; return StatusCode::OK; }
inline StatusCode database_register_durability_callback(DatabaseHandle h, durability_callback_type cb) { h->dcb = std::move(cb); return StatusCode::OK; }
inline Slice implementation_id() { return Slice(std::string_view{"memory"}); }
inline StatusCode implementation_get_datastore(DatabaseHandle, std::any*) { return StatusCode::ERR_UNSUPPORTED; }

inline StatusCode storage_create(DatabaseHandle h, Slice key, StorageOptions const& o, StorageHandle* r) {
    std::string n = key.to_string();
    if (auto x = mem::ask(mem::Op::storage_create, nullptr, n, {})) return *x;
    if (h->storages.count(n)) return StatusCode::ALREADY_EXISTS;
    auto s = std::make_shared<mem::Storage>(); s->name = n; s->opts = o; h->storages[n] = s;
    *r = new mem::StorageRef{s}; ++mem::open_storage; return StatusCode::OK;
}
inline StatusCode storage_get(DatabaseHandle h, Slice key, StorageHandle* r) {
    if (auto x = mem::ask(mem::Op::storage_get, nullptr, key.to_string_view(), {})) return *x;
    auto i = h->storages.find(key.to_string());
    if (i == h->storages.end()) return StatusCode::NOT_FOUND;
    *r = new mem::StorageRef{i->second}; ++mem::open_storage; return StatusCode::OK;
}
inline StatusCode storage_list(DatabaseHandle h, std::vector<std::string>& out) { out.clear(); for (auto& [n, s] : h->storages) out.push_back(n); return StatusCode::OK; }
inline StatusCode storage_get_options(StorageHandle h, StorageOptions& o) { o = h->s->opts; return StatusCode::OK; }
inline StatusCode storage_set_options(StorageHandle h, StorageOptions const& o) { if (auto x = mem::ask(mem::Op::storage_set, nullptr, h->s->name, {})) return *x; h->s->opts = o; return StatusCode::OK; }
inline std::function<mem::Db*()> mem_current_db{};
inline StatusCode storage_delete(StorageHandle h) {
    if (auto x = mem::ask(mem::Op::storage_delete, nullptr, h->s->name, {})) return *x;
    if (h->s->deleted) return StatusCode::NOT_FOUND;
    h->s->deleted = true; h->s->data.clear();
    if (mem_current_db) { auto* d = mem_current_db(); auto i = d->storages.find(h->s->name); if (i != d->storages.end() && i->second == h->s) d->storages.erase(i); }
    return StatusCode::OK;
}
inline StatusCode storage_dispose(StorageHandle h) { if (h) { delete h; --mem::open_storage; } return StatusCode::OK; }

inline StatusCode transaction_begin(DatabaseHandle h, TransactionOptions const& o, TransactionControlHandle* r) {
    if (auto x = mem::ask(mem::Op::begin, nullptr, {}, {})) return *x;
    auto* t = new mem::Tx{}; t->db = h; t->opts = o; t->id = "TID-" + std::to_string(h->next_tx++); ++mem::open_tx;
    h->live.insert(t); *r = t; return StatusCode::OK;
}
inline StatusCode transaction_borrow_handle(TransactionControlHandle t, TransactionHandle* r) { *r = t; return StatusCode::OK; }
inline StatusCode transaction_acquire_handle(TransactionControlHandle t, TransactionHandle* r) { *r = t; ++t->strands; return StatusCode::OK; }
inline StatusCode transaction_release_handle(TransactionHandle t) { --t->strands; return StatusCode::OK; }
inline StatusCode transaction_borrow_owner(TransactionHandle t, DatabaseHandle* r) { *r = t->db; return StatusCode::OK; }
inline StatusCode transaction_get_info(TransactionControlHandle t, std::shared_ptr<TransactionInfo>& r) { r = std::make_shared<TransactionInfo>(t->id); return StatusCode::OK; }
inline StatusCode transaction_check(TransactionControlHandle t, TransactionState& r) { r = TransactionState{t->st}; return StatusCode::OK; }
inline std::shared_ptr<CallResult> transaction_inspect_recent_call(TransactionControlHandle t) { return t->recent; }
inline bool transaction_commit_with_callback(TransactionControlHandle t, commit_callback_type cb) {
    if (mem::commit_hook) return mem::commit_hook(t, std::move(cb));
    if (auto x = mem::ask(mem::Op::commit, t, {}, {})) { if (t->active()) t->drop(); cb(*x, ErrorCode::ERROR, 0); return true; }
    mem::apply(t); cb(StatusCode::OK, ErrorCode::OK, t->db->marker++); return true;
}
inline StatusCode transaction_commit(TransactionControlHandle t, bool = true) { StatusCode r{}; transaction_commit_with_callback(t, [&](StatusCode s, ErrorCode, durability_marker_type) { r = s; }); return r; }
inline StatusCode transaction_abort(TransactionControlHandle t, bool = true) {
    if (mem::hook && t->active()) if (auto r = mem::hook(mem::Op::abort, t, {}, {})) return *r;
    t->drop(); return StatusCode::OK;
}
inline StatusCode transaction_dispose(TransactionControlHandle t) { if (t) { t->db->live.erase(t); delete t; --mem::open_tx; } return StatusCode::OK; }

inline StatusCode content_get(TransactionHandle t, StorageHandle h, Slice key, Slice* v) {
    if (auto x = mem::ask(mem::Op::get, t, h->s->name, key.to_string_view())) return *x;
    auto r = mem::look(t, h->s.get(), key.to_string());
    if (! r) return StatusCode::NOT_FOUND;
    t->buf = std::make_unique<std::string>(std::move(*r)); t->buf->shrink_to_fit();
    *v = Slice(*t->buf); return StatusCode::OK;
}
inline StatusCode content_check_exist(TransactionHandle t, StorageHandle h, Slice key) {
    if (auto x = mem::ask(mem::Op::exist, t, h->s->name, key.to_string_view())) return *x;
    return mem::look(t, h->s.get(), key.to_string()) ? StatusCode::OK : StatusCode::NOT_FOUND;
}
inline StatusCode content_put_with_blobs(TransactionHandle t, StorageHandle h, Slice key, Slice value, blob_id_type const*, std::size_t, PutOperation op = PutOperation::CREATE_OR_UPDATE) {
    if (auto x = mem::ask(mem::Op::put, t, h->s->name, key.to_string_view())) return *x;
    if (t->opts.transactionType() == TransactionOptions::TransactionType::READ_ONLY) return StatusCode::ERR_ILLEGAL_OPERATION;
    std::string k = key.to_string(), v = value.to_string();
    bool have = mem::look(t, h->s.get(), k).has_value();
    if (op == PutOperation::CREATE && have) return StatusCode::ALREADY_EXISTS;
    if (op == PutOperation::UPDATE && ! have) return StatusCode::NOT_FOUND;
    auto& w = t->writes[h->s.get()]; w.first = h->s; w.second[k] = v;
    t->buf.reset(); return StatusCode::OK;
}
inline StatusCode content_put(TransactionHandle t, StorageHandle h, Slice key, Slice value, PutOperation op = PutOperation::CREATE_OR_UPDATE) { return content_put_with_blobs(t, h, key, value, nullptr, 0, op); }
inline StatusCode content_delete(TransactionHandle t, StorageHandle h, Slice key) {
    if (auto x = mem::ask(mem::Op::del, t, h->s->name, key.to_string_view())) return *x;
    if (t->opts.transactionType() == TransactionOptions::TransactionType::READ_ONLY) return StatusCode::ERR_ILLEGAL_OPERATION;
    std::string k = key.to_string();
    if (! mem::look(t, h->s.get(), k)) return StatusCode::NOT_FOUND;
    auto& w = t->writes[h->s.get()]; w.first = h->s; w.second[k] = std::nullopt;
    t->buf.reset(); return StatusCode::OK;
}
inline StatusCode content_scan(TransactionHandle t, StorageHandle h, Slice bk, EndPointKind b, Slice ek, EndPointKind e, IteratorHandle* r, std::size_t limit = 0, bool rev = false) {
    if (auto x = mem::ask(mem::Op::scan, t, h->s->name, bk.to_string_view())) return *x;
    auto* i = new mem::Iter{}; i->tx = t; i->s = h->s; i->bk = bk.to_string(); i->ek = ek.to_string(); i->b = b; i->e = e; i->limit = limit; i->rev = rev;
    for (auto& [k, v] : mem::merged(t, h->s.get())) if (mem::in_range(*i, k)) i->there.insert(k);
    ++mem::open_iter; *r = i; return StatusCode::OK;
}
inline StatusCode iterator_next(IteratorHandle i) {
    i->kbuf.reset(); i->vbuf.reset(); i->valid = false;
    if (auto x = mem::ask(mem::Op::next, i->tx, i->s->name, {})) return *x;
    if (i->limit && i->seen >= i->limit) return StatusCode::NOT_FOUND;
    auto m = mem::merged(i->tx, i->s.get());
    auto take = [&](std::string const& k) { i->cur = k; i->started = true; i->valid = true; ++i->seen; };
    if (! i->rev) {
        for (auto j = i->started ? m.upper_bound(i->cur) : m.begin(); j != m.end(); ++j) if (i->there.count(j->first)) { take(j->first); return StatusCode::OK; }
    } else {
        auto j = i->started ? m.lower_bound(i->cur) : m.end();
        while (j != m.begin()) { --j; if (i->there.count(j->first)) { take(j->first); return StatusCode::OK; } }
    }
    return StatusCode::NOT_FOUND;
}
inline StatusCode iterator_get_key(IteratorHandle i, Slice* r) {
    if (auto x = mem::ask(mem::Op::key, i->tx, i->s->name, i->cur)) return *x;
    if (! i->valid) return StatusCode::ERR_INVALID_STATE;
    i->kbuf = std::make_unique<std::string>(i->cur); *r = Slice(*i->kbuf); return StatusCode::OK;
}
inline StatusCode iterator_get_value(IteratorHandle i, Slice* r) {
    if (auto x = mem::ask(mem::Op::value, i->tx, i->s->name, i->cur)) return *x;
    if (! i->valid) return StatusCode::ERR_INVALID_STATE;
    auto v = mem::look(i->tx, i->s.get(), i->cur);
    if (! v) return StatusCode::NOT_FOUND;
    i->vbuf = std::make_unique<std::string>(*v); *r = Slice(*i->vbuf); return StatusCode::OK;
}
inline StatusCode iterator_dispose(IteratorHandle i) { if (i) { delete i; --mem::open_iter; } return StatusCode::OK; }

inline StatusCode sequence_create(DatabaseHandle h, SequenceId* id) {
    if (auto x = mem::ask(mem::Op::seq_create, nullptr, {}, {})) return *x;
    *id = h->next_seq++; h->sequences[*id] = {}; return StatusCode::OK;
}
inline StatusCode sequence_put(TransactionHandle t, SequenceId id, SequenceVersion v, SequenceValue x) {
    if (auto r = mem::ask(mem::Op::seq_put, t, {}, {})) return *r;
    if (! t->db->sequences.count(id)) return StatusCode::NOT_FOUND;
    t->seqs.emplace_back(id, mem::Seq{v, x, true}); return StatusCode::OK;
}
inline StatusCode sequence_get(DatabaseHandle h, SequenceId id, SequenceVersion* v, SequenceValue* x) {
    if (auto r = mem::ask(mem::Op::seq_get, nullptr, {}, {})) return *r;
    auto i = h->sequences.find(id); if (i == h->sequences.end()) return StatusCode::NOT_FOUND;
    *v = i->second.version; *x = i->second.value; return StatusCode::OK;
}
inline StatusCode sequence_delete(DatabaseHandle h, SequenceId id) {
    if (auto r = mem::ask(mem::Op::seq_delete, nullptr, {}, {})) return *r;
    return h->sequences.erase(id) ? StatusCode::OK : StatusCode::NOT_FOUND;
}

namespace mem { using sharksfin::transaction_acquire_handle; }   // found by argument dependent lookup
}  // namespace sharksfin
