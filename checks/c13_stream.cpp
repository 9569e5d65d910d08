// C13: the record stream between a UDF client and the executor, every schedule of small programs, checked for
// linearizability against a queue with an end mark
#include "vf.h"
#include "vs.h"
#include <jogasaki/udf/enum_types.h>
#include <jogasaki/udf/generic_record_impl.h>
#include <algorithm>
#include <deque>
#include <memory>
#include <set>
#include <thread>
#include <vector>
using namespace plugin::udf;
using namespace std::chrono;
using st = generic_record_stream::status_type;

// ops: P push a record, X push an erroneous record, E end_of_stream, C close, t try_next, n next(), w next(5ms), z next(0ms)
struct op { char k; int id; std::uint64_t inv{0}, resp{0}; st r{}; int got{-1}; bool called{false}; };
struct prog { std::vector<std::string> th; std::string pre; std::string text() const { std::string s = pre + ":"; for (auto& t : th) s += t + "|"; return s; } };

static std::unique_ptr<generic_record_impl> make(int id, bool err) {
    auto r = std::make_unique<generic_record_impl>();
    r->add_int4(id); r->add_string("record-" + std::to_string(id) + std::string(20, 'x')); r->add_bool_null();
    if (err) r->set_error(error_info{grpc::StatusCode::UNAVAILABLE, "err" + std::to_string(id)});
    return r;
}
// content of a record handed out: its id, or fails
static int content(generic_record_impl& r, bool err) {
    auto c = r.cursor();
    auto a = c->fetch_int4(); auto s = c->fetch_string(); bool n = c->current_is_null(); auto b = c->fetch_bool();
    VS_CHECK(a && s && n && !b && !c->has_next(), "stream-content", "a record came out damaged");
    VS_CHECK(*s == "record-" + std::to_string(*a) + std::string(20, 'x'), "stream-content", "a record came out mixed up");
    VS_CHECK(err == r.error().has_value(), "stream-status", "status and error information disagree");
    if (err) VS_CHECK(r.error()->message() == "err" + std::to_string(*a) && r.error()->code() == grpc::StatusCode::UNAVAILABLE, "stream-content", "error information damaged");
    return *a;
}
static void run_op(generic_record_stream_impl& s, op& o) {
    generic_record_impl rec; rec.add_int4(-77);
    if (o.k == 'P' || o.k == 'X') {
        auto r = make(o.id, o.k == 'X');
        { vs::quiet q; vs::mark(&s, true); o.inv = vs::now() * 64; o.called = true; }
        s.push(std::move(r));
    } else {
        { vs::quiet q; vs::mark(&s, true); o.inv = vs::now() * 64; o.called = true; }
        switch (o.k) {
            case 'E': s.end_of_stream(); break;
            case 'C': s.close(); break;
            case 't': o.r = s.try_next(rec); break;
            case 'n': o.r = s.next(rec, std::nullopt); break;
            case 'w': o.r = s.next(rec, milliseconds(5)); break;
            case 'z': o.r = s.next(rec, milliseconds(0)); break;
        }
    }
    int got = -1;
    if (o.k >= 'a') {
        if (o.r == st::ok || o.r == st::error) got = content(rec, o.r == st::error);
        else { auto c = rec.cursor(); auto v = c->fetch_int4(); VS_CHECK(v && *v == -77 && !c->has_next(), "stream-touch", "the caller's record was changed although none was returned"); }
    }
    vs::quiet q; vs::mark(&s, true); o.got = got; o.resp = vs::now() * 64 + 1;
}
struct model { std::deque<int> q; bool eos{false}; };
// can the operations be put in an order that respects real time and gives these results? `idle`: the order must end with nothing to read
static bool lin(std::vector<op*>& ops, std::vector<char>& used, model& m, std::size_t left, bool idle) {
    if (left == 0) {
        bool blocked = false; for (std::size_t i = 0; i < ops.size(); ++i) blocked = blocked || !used[i];
        return !idle || !blocked || (m.q.empty() && !m.eos);
    }
    std::uint64_t lim = ~0ull;
    for (std::size_t i = 0; i < ops.size(); ++i) if (!used[i] && ops[i]->resp) lim = std::min(lim, ops[i]->resp);
    for (std::size_t i = 0; i < ops.size(); ++i) {
        op& o = *ops[i];
        if (used[i] || !o.resp || o.inv > lim) continue;
        model sv = m; bool ok = true;
        switch (o.k) {
            case 'P': case 'X': if (!m.eos) m.q.push_back(o.id * 2 + (o.k == 'X')); break;
            case 'E': m.eos = true; break;
            case 'C': m.eos = true; m.q.clear(); break;
            default:
                if (!m.q.empty()) { int x = m.q.front(); m.q.pop_front(); ok = o.got == x / 2 && o.r == (x % 2 ? st::error : st::ok); }
                else if (m.eos) ok = o.r == st::end_of_stream;
                else ok = o.r == st::not_ready && o.k != 'n';
        }
        if (ok) { used[i] = 1; if (lin(ops, used, m, left - 1, idle)) return true; used[i] = 0; }
        m = sv;
    }
    return false;
}
static std::string describe(std::vector<op*> const& ops) {
    std::string s;
    for (auto* o : ops) s += vf::strf("%c(%d)[%lu,%lu]->%d/%d ", o->k, o->id, (unsigned long)o->inv, (unsigned long)o->resp, (int)o->r, o->got);
    return s;
}
static void body(prog const& p) {
    std::vector<std::vector<op>> ops(p.th.size() + 1);
    int id = 0;
    for (char k : p.pre) ops[0].push_back({k, ++id});
    for (std::size_t i = 0; i < p.th.size(); ++i) for (char k : p.th[i]) ops[i + 1].push_back({k, ++id});
    op last{'E', 0};
    {
        generic_record_stream_impl s;
        for (auto& o : ops[0]) run_op(s, o);
        std::vector<std::thread> ts;
        for (std::size_t i = 1; i < ops.size(); ++i) ts.emplace_back([&, i] { for (auto& o : ops[i]) run_op(s, o); });
        vs::wait_quiescent();
        {
            vs::quiet q;
            std::vector<op*> v; std::size_t left = 0;
            for (auto& t : ops) for (auto& o : t) if (o.called) { v.push_back(&o); left += o.resp != 0; }
            std::vector<char> u(v.size(), 0); model m;
            VS_CHECK(lin(v, u, m, left, true), "stream-linearizable", "%s: no order explains the results, or a reader sleeps although there is something to read: %s", p.text().c_str(), describe(v).c_str());
        }
        run_op(s, last);   // lets the remaining readers go
        for (auto& t : ts) t.join();
        vs::quiet q;
        std::vector<op*> v; for (auto& t : ops) for (auto& o : t) v.push_back(&o);
        v.push_back(&last);
        std::vector<char> u(v.size(), 0); model m;
        VS_CHECK(lin(v, u, m, v.size(), false), "stream-linearizable", "%s: no order explains the results: %s", p.text().c_str(), describe(v).c_str());
        std::string oc = p.text(); for (auto* o : v) oc += vf::strf("%d,%d;", (int)o->r, o->got);
        vf::outcome(oc);
    }
}
// moving a stream: its records go along, readers of either side are not left behind
static void moving(int kind) {
    generic_record_stream_impl a, b;
    a.push(make(1, false)); a.push(make(2, false));
    int got = -1; st r{};
    if (kind == 0) {          // a reader waits on the target
        std::thread t([&] { generic_record_impl rec; r = b.next(rec, std::nullopt); if (r == st::ok) got = content(rec, false); });
        b = std::move(a);
        t.join();
        VS_CHECK(r == st::ok && got == 1, "stream-move", "the reader of the target got status %d record %d", (int)r, got);
        generic_record_impl rec; auto r2 = b.try_next(rec); VS_CHECK(r2 == st::ok && content(rec, false) == 2, "stream-move", "second record lost");
    } else if (kind == 1) {   // a reader drains the source meanwhile
        std::vector<int> seen; st rs{};
        std::thread t([&] { for (;;) { generic_record_impl rec; rs = a.next(rec, std::nullopt); if (rs != st::ok) break; seen.push_back(content(rec, false)); } });
        b = std::move(a);
        t.join();
        VS_CHECK(rs == st::end_of_stream, "stream-move", "the reader of the source got %d", (int)rs);
        std::vector<int> all = seen;
        for (;;) { generic_record_impl rec; if (b.try_next(rec) != st::ok) break; all.push_back(content(rec, false)); }
        VS_CHECK((all == std::vector<int>{1, 2}), "stream-move", "%zu records seen in all", all.size());
    } else if (kind == 2) {   // move construction with a waiting reader of the source
        generic_record_impl x; (void)a.try_next(x); (void)a.try_next(x);
        std::thread t([&] { generic_record_impl rec; r = a.next(rec, std::nullopt); });
        generic_record_stream_impl c{std::move(a)};
        t.join();
        VS_CHECK(r == st::end_of_stream, "stream-move", "the reader of the source got %d", (int)r);
        c.push(make(5, false));
        generic_record_impl rec; auto r2 = c.try_next(rec); VS_CHECK(r2 == st::ok && content(rec, false) == 5, "stream-move", "the new stream does not work");
        a.push(make(6, false)); auto r3 = a.try_next(rec); VS_CHECK(r3 == st::end_of_stream, "stream-move", "the moved-from stream takes records");
    } else {                  // the end mark goes along
        a.end_of_stream();
        std::thread t([&] { generic_record_impl rec; r = b.next(rec, milliseconds(5)); });
        b = std::move(a);
        t.join();
        generic_record_impl rec; int n = r == st::ok; st x;
        while ((x = b.try_next(rec)) == st::ok) ++n;
        VS_CHECK(n == 2 && x == st::end_of_stream, "stream-move", "%d records, then %d", n, (int)x);
    }
}
int main(int argc, char** argv) {
    vf::init(argc, argv);
    bool th = vf::thorough();
    std::string const al = "PXECtnwz";
    std::vector<prog> ps;
    std::vector<std::string> one, two;
    vf::all_strings(al, 2, [&](std::string const& s) { if (s.size() == 1) one.push_back(s); if (!s.empty()) two.push_back(s); });
    for (auto const& pre : {std::string(""), std::string("P"), std::string("XP"), std::string("PE")}) {
        for (std::size_t i = 0; i < two.size(); ++i) for (std::size_t j = i; j < two.size(); ++j) {
            if (!th && pre.size() == 2 && two[i].size() + two[j].size() > 3) continue;
            ps.push_back({{two[i], two[j]}, pre});
        }
        for (std::size_t i = 0; i < one.size(); ++i) for (std::size_t j = i; j < one.size(); ++j) for (std::size_t k = j; k < one.size(); ++k) ps.push_back({{one[i], one[j], one[k]}, pre});
    }
    for (auto const* x : {"PPE", "PEP", "PCP", "PPP", "XPE"}) for (auto const* y : {"nnn", "nwn", "wtn", "nnnn"}) { ps.push_back({{x, y}, ""}); if (th) ps.push_back({{x, y, "n"}, ""}); ps.push_back({{x, "n", "n"}, ""}); ps.push_back({{x, "w", "n"}, ""}); }
    if (th) for (auto& a : two) for (auto& b : one) for (auto& c : one) if (b <= c) ps.push_back({{a, b, c}, ""});
    vs::options o; o.spurious = true;
    std::size_t u = 0;
    for (auto& p : ps) {
        if (!vf::mine(u++)) continue;
        std::size_t n = 0; for (auto& t : p.th) n += t.size();
        o.preempt = p.th.size() == 2 ? (th ? 4 : n <= 3 ? 3 : 2) : (th ? 3 : n <= 3 ? 2 : 1);
        vs::explore(p.text(), o, [&] { body(p); });
    }
    for (int k = 0; k < 4; ++k) { o.preempt = th ? 5 : 4; if (vf::mine(u++)) vs::explore(vf::strf("move %d", k), o, [&] { moving(k); }); }
    if (vf::shard() == 0) for (auto i : {5u, 500u, 1500u, 3000u}) if (i < ps.size()) vf::sample(ps[i].text());
    vf::note("programs", ps.size());
    vf::bound_note("every program of two threads with 1..2 operations each and of three threads with one operation each out of push, push of an error, end, close, try_next, next, next(5ms), next(0), on an empty stream and three prepared ones, and longer producer/consumer programs; every schedule with up to 1-3 (thorough 3-4) deviations incl. timeouts and spurious wakeups; moves with waiting readers");
    return vf::finish();
}
