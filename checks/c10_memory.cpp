// C10: paged memory resources: every operation sequence (with failing page acquisition) up to a depth, on the real
// resources over a stand-in page pool that records which pages are out.
#include "vf.h"
#include <jogasaki/memory/fifo_paged_memory_resource.h>
#include <jogasaki/memory/lifo_paged_memory_resource.h>
#include <jogasaki/memory/monotonic_paged_memory_resource.h>
#include <jogasaki/utils/checkpoint_holder.h>
#include <algorithm>
#include <memory>
#include <new>
#include <optional>
#include <unordered_map>
using namespace jogasaki::memory;

// ---- stand-in pool: pages are address ranges (never touched); reuse is last-in-first-out so stale uses show up
static constexpr std::size_t NPAGES = 24;
static char* arena;
static std::vector<std::size_t> free_pages, out_pages;   // indexes
static std::string hist;
static int fail_after = -1;                               // the n-th acquisition fails
static std::size_t acquired, released, refused;
static char* page_addr(std::size_t i) { return arena + 4096 + i * (page_size + 8192); }   // page aligned, not more
static std::optional<std::size_t> page_of(void const* p) {
    for (auto i : out_pages) if (p >= page_addr(i) && p < page_addr(i) + page_size) return i;
    return {};
}
struct block { char* p; std::size_t n; std::size_t al; };
static std::vector<block> live;
namespace jogasaki::memory {
page_pool::page_pool() = default;
page_pool::~page_pool() = default;
page_pool::page_info page_pool::acquire_page(bool) {
    if (fail_after >= 0 && acquired == static_cast<std::size_t>(fail_after)) { ++refused; fail_after = -1; return {nullptr, 0}; }
    VF_CHECK(!free_pages.empty(), "mem-pages", "%s: more than %zu pages for this sequence", hist.c_str(), NPAGES);
    auto i = free_pages.back(); free_pages.pop_back(); out_pages.push_back(i); ++acquired;
    return {page_addr(i), i + 1};
}
void page_pool::release_page(page_info p) noexcept {
    auto it = std::find_if(out_pages.begin(), out_pages.end(), [&](std::size_t i) { return page_addr(i) == p.address(); });
    VF_CHECK(it != out_pages.end(), "mem-release-twice", "%s: a page that is not held was given back", hist.c_str());
    VF_CHECK(p.birth_place() == *it + 1, "mem-birth", "%s: page given back to another node than it came from", hist.c_str());
    for (auto& b : live) VF_CHECK(!(b.p >= page_addr(*it) && b.p < page_addr(*it) + page_size), "mem-release-live", "%s: a page was given back although a live block of %zu bytes is in it", hist.c_str(), b.n);
    free_pages.push_back(*it); out_pages.erase(it); ++released;
}
}
enum class kind { fifo, fifo_cp, lifo, mono };
static char const* kname[] = {"fifo", "fifo with checkpoints", "lifo", "monotonic"};
static constexpr std::size_t P = page_size;
struct req { std::size_t n, al; };
static std::vector<req> const reqs{{1, 1}, {8, 8}, {4096, 4096}, {1, 8192}, {P / 2, 1}, {P / 2 + 1, 16}, {P - 9, 2}, {P, 8}};
static constexpr int op_dealloc = 20, op_cp = 21, op_use = 22, op_end = 23, op_use2 = 24, op_hold = 25, op_reset = 26;

struct runner {
    kind k;
    page_pool pool{};
    std::unique_ptr<fifo_paged_memory_resource> f;
    std::unique_ptr<lifo_paged_memory_resource> l;
    std::unique_ptr<monotonic_paged_memory_resource> m;
    paged_memory_resource* r{};
    struct fcp { fifo_paged_memory_resource::checkpoint c; std::size_t allocs; };
    struct lcp { lifo_paged_memory_resource::checkpoint c; std::size_t blocks, pages; bool fresh; std::size_t seq; };   // fresh: taken on a page not used yet
    std::vector<fcp> fcps; std::size_t total{}, dead{};
    std::vector<lcp> lcps;
    struct hold { std::unique_ptr<jogasaki::utils::checkpoint_holder> first; std::size_t second; bool fresh; std::size_t seq; };
    std::vector<hold> holders;
    std::size_t seq{};
    bool ended{false};     // the current page was requested by end_current_page and is still unused
    explicit runner(kind kk, int fail) : k(kk) {
        live.clear(); out_pages.clear(); free_pages.clear(); for (std::size_t i = NPAGES; i-- > 0;) free_pages.push_back(i);
        acquired = released = refused = 0; fail_after = fail; hist.clear();
        if (k == kind::fifo || k == kind::fifo_cp) { f = std::make_unique<fifo_paged_memory_resource>(&pool); r = f.get(); }
        else if (k == kind::lifo) { l = std::make_unique<lifo_paged_memory_resource>(&pool); r = l.get(); }
        else { m = std::make_unique<monotonic_paged_memory_resource>(&pool); r = m.get(); }
    }
    std::size_t pages() const { return f ? f->count_pages() : l ? l->count_pages() : m->count_pages(); }
    bool enabled(int op) const {
        if (op < 20) return true;
        switch (op) {
            case op_dealloc: return (k == kind::fifo && !live.empty()) || (k == kind::lifo && !live.empty() && (holders.empty() || (holders.back().second < live.size() && std::none_of(holders.begin(), holders.end(), [](hold const& h) { return h.fresh; }))));
            case op_cp: return (k == kind::fifo_cp && fcps.size() < 3) || (k == kind::lifo && lcps.size() < 2);
            case op_use: return (k == kind::fifo_cp && !fcps.empty()) || (k == kind::lifo && !lcps.empty() && (holders.empty() || holders.back().seq < lcps.back().seq));
            case op_use2: return (k == kind::fifo_cp && fcps.size() > 1);
            case op_end: return true;
            case op_hold: return k == kind::lifo && holders.size() < 2;
            case op_reset: return k == kind::lifo && !holders.empty();
        }
        return false;
    }
    void apply(int op) {
        if (op < 20) {
            auto q = reqs[op]; std::size_t before = acquired, rem = 0, pg = pages(); bool had = pg > 0, failed = false;
            hist += vf::strf(" alloc(%zu,%zu)", q.n, q.al);
            rem = r->page_remaining(q.al);
            char* p{}; auto ref = refused; std::size_t relb = released;
            try { p = static_cast<char*>(r->allocate(q.n, q.al)); } catch (std::bad_alloc const&) { failed = true; }
            if (failed) {
                VF_CHECK(refused == ref + 1, "mem-alloc-fail", "%s: a request that fits in a page failed although the pool has pages", hist.c_str());
                VF_CHECK(pages() == pg && released == relb, "mem-alloc-fail", "%s: a failed request changed the pages held", hist.c_str());
                hist += "=failed";
                return;
            }
            VF_CHECK(p != nullptr && reinterpret_cast<std::uintptr_t>(p) % q.al == 0, "mem-align", "%s: returned %p", hist.c_str(), (void*) p);
            auto pi = page_of(p);
            VF_CHECK(pi && p + q.n <= page_addr(*pi) + P, "mem-outside", "%s: block %p..+%zu is not inside a page held", hist.c_str(), (void*) p, q.n);
            for (auto& b : live) VF_CHECK(p + q.n <= b.p || b.p + b.n <= p, "mem-overlap", "%s: overlaps a live block of %zu bytes", hist.c_str(), b.n);
            VF_CHECK(pages() >= pg && pages() <= pg + 1, "mem-count", "%s: count_pages %zu after %zu", hist.c_str(), pages(), pg);
            bool fresh = pages() != pg;
            if (had) VF_CHECK(fresh == (rem < q.n), "mem-remaining", "%s: page_remaining said %zu but %s page was used", hist.c_str(), rem, fresh ? "a new" : "the current");
            (void) before;
            live.push_back({p, q.n, q.al}); ++total; ended = false;
            return;
        }
        auto relb = out_pages.size();
        switch (op) {
            case op_dealloc: {
                hist += " dealloc";
                auto b = k == kind::fifo ? live.front() : live.back();
                if (k == kind::fifo) live.erase(live.begin()); else live.pop_back();
                while (!lcps.empty() && lcps.back().blocks > live.size()) lcps.pop_back();
                if (!lcps.empty()) drop_fresh();
                r->deallocate(b.p, b.n, b.al);
                break;
            }
            case op_cp:
                hist += " checkpoint";
                if (f) fcps.push_back({f->get_checkpoint(), total});
                else {
                    auto c = l->get_checkpoint();
                    VF_CHECK(c == l->get_checkpoint() && !(c != l->get_checkpoint()), "mem-cp", "%s: not the same twice", hist.c_str());
                    lcps.push_back({c, live.size(), pages(), ended, ++seq});
                }
                break;
            case op_use: case op_use2:
                if (f) {
                    std::size_t i = op == op_use ? 0 : fcps.size() - 1;
                    auto c = fcps[i];
                    hist += vf::strf(" deallocate_before(%zu)", c.allocs);
                    fcps.erase(fcps.begin(), fcps.begin() + i + 1);
                    while (!fcps.empty() && fcps.front().c.head_ == c.c.head_ && fcps.front().c.offset_ == c.c.offset_) fcps.erase(fcps.begin());
                    while (dead < c.allocs) { live.erase(live.begin()); ++dead; }
                    f->deallocate_before(c.c);
                } else {
                    auto c = lcps.back();
                    hist += vf::strf(" deallocate_after(%zu)", c.blocks);
                    live.resize(c.blocks);
                    l->deallocate_after(c.c); ended = c.fresh;
                    VF_CHECK(pages() <= c.pages, "mem-rewind", "%s: %zu pages in use after going back to where %zu were", hist.c_str(), pages(), c.pages);
                    auto d = l->get_checkpoint();
                    VF_CHECK(d == c.c, "mem-rewind", "%s: not at the checkpoint afterwards", hist.c_str());
                }
                break;
            case op_end: {
                hist += " end_page";
                auto pg = pages(); bool failed = false;
                auto ref = refused;
                try { r->end_current_page(); } catch (std::bad_alloc const&) { failed = true; VF_CHECK(refused == ref + 1, "mem-end", "%s: failed without reason", hist.c_str()); }
                if (failed) hist += "=failed"; else { ended = pages() != pg || ended; VF_CHECK(pages() == pg || pages() == pg + 1, "mem-end", "%s: %zu pages after %zu", hist.c_str(), pages(), pg);
                    // the next block starts a new page
                    if (!live.empty()) VF_CHECK(r->page_remaining(1) == P, "mem-end", "%s: %zu bytes remain in the new page", hist.c_str(), r->page_remaining(1)); }
                break;
            }
            case op_hold: hist += " hold"; while (!lcps.empty() && lcps.back().blocks > live.size()) lcps.pop_back(); 
                holders.push_back({std::make_unique<jogasaki::utils::checkpoint_holder>(l.get()), live.size(), ended, ++seq}); break;
            case op_reset: {
                auto n = holders.back().second; hist += vf::strf(" release(%zu)", n);
                while (!lcps.empty() && lcps.back().seq > holders.back().seq) lcps.pop_back();
                bool fr = holders.back().fresh;
                live.resize(n); holders.pop_back(); ended = fr;
                break;
            }
        }
        (void) relb;
        // pages are given back once nothing live is in them
        std::size_t needed = 0;
        for (auto i : out_pages) { bool u = false; for (auto& b : live) u = u || (b.p >= page_addr(i) && b.p < page_addr(i) + P); needed += u; }
        std::size_t spare = k == kind::lifo ? 2 : 1;    // the current page, and the one kept in reserve by the lifo resource
        if (k != kind::mono && op != op_end && op != op_cp && op != op_hold) {
            std::size_t ends = std::count(hist.begin(), hist.end(), 'g');   // "end_page": each may leave an unused page behind
            VF_CHECK(out_pages.size() <= needed + spare + ends, "mem-not-released", "%s: %zu pages held, %zu needed", hist.c_str(), out_pages.size(), needed);
        }
    }
    void drop_fresh() { lcps.erase(std::remove_if(lcps.begin(), lcps.end(), [](lcp& c) { return c.fresh; }), lcps.end()); }
    void check() {
        auto held = out_pages.size();
        if (k == kind::lifo) VF_CHECK(pages() <= held && held <= pages() + 1, "mem-count", "%s: count_pages %zu but %zu held", hist.c_str(), pages(), held);
        else VF_CHECK(pages() == held, "mem-count", "%s: count_pages %zu but %zu held", hist.c_str(), pages(), held);
        for (auto& b : live) VF_CHECK(page_of(b.p), "mem-lost", "%s: the page of a live block is not held", hist.c_str());
        VF_CHECK(r->is_equal(*r), "mem-equal", "not equal to itself");
    }
    std::string state() {
        std::string s = vf::strf("%d %d %d|", (int) k, fail_after < 0 ? -1 : fail_after - (int) acquired, (int) ended);
        std::vector<std::size_t> order; // names of the pages in order of their first appearance
        auto nm = [&](void const* p) -> std::size_t { auto i = page_of(p); if (!i) return 99; for (std::size_t j = 0; j < order.size(); ++j) if (order[j] == *i) return j; order.push_back(*i); return order.size() - 1; };
        for (auto& b : live) s += vf::strf("%zu:%zx+%zx,", nm(b.p), (std::size_t) (b.p - page_addr(*page_of(b.p))), b.n);
        s += "|";
        for (auto& c : fcps) s += vf::strf("%zu:%zx@%zu,", nm(c.c.head_), c.c.offset_, c.allocs - dead);
        s += !holders.empty() && !lcps.empty() && holders.back().seq < lcps.back().seq ? "i" : "o";
        for (auto& c : lcps) s += vf::strf("%zu:%zx@%zu/%zu%d,", nm(c.c.head_), c.c.offset_, c.blocks, c.pages, (int) c.fresh);
        for (auto& c : holders) s += vf::strf("h%zu%d,", c.second, (int) c.fresh);
        s += vf::strf("|%zu %zu %zx %d", pages(), out_pages.size(), r->page_remaining(1), (int) (std::count(hist.begin(), hist.end(), 'g')));
        if (f) { auto c = f->get_checkpoint(); s += vf::strf(" %zu:%zx", nm(c.head_), c.offset_); }
        if (l) { auto c = l->get_checkpoint(); s += vf::strf(" %zu:%zx", nm(c.head_), c.offset_); }
        return s;
    }
    ~runner() {
        while (!holders.empty()) { live.resize(std::min(live.size(), holders.back().second)); holders.pop_back(); }
        live.clear(); hist += " destroy";
        f.reset(); l.reset(); m.reset();
        VF_CHECK(out_pages.empty() && acquired == released, "mem-leak", "%s: %zu pages never given back", hist.c_str(), out_pages.size());
    }
};
static std::unordered_map<std::string, int> seen;
static void explore(kind k, int fail, std::vector<int>& ops, int depth, std::vector<int> const& all) {
    vf::tick();
    std::vector<int> en;
    {
        runner x(k, fail);
        for (auto o : ops) x.apply(o);
        vf::step(ops.size()); vf::trace();
        x.check();
        auto st = x.state();
        auto it = seen.find(st);
        if (it != seen.end() && it->second >= depth) return;
        if (it == seen.end()) vf::state();
        seen[st] = depth;
        if (depth > 0) for (auto o : all) if (x.enabled(o)) en.push_back(o);
    }
    for (auto o : en) { ops.push_back(o); explore(k, fail, ops, depth - 1, all); ops.pop_back(); }
}
// one page alone: which deallocations it accepts, in any order, and that a refused one changes nothing
static void page_orders(std::uint64_t& unit) {
    static std::vector<req> const sizes{{1, 1}, {8, 8}, {24, 16}, {100, 4}, {64, 64}, {1, 8192}, {P - 8192, 1}};
    using jogasaki::memory::details::page_allocation_info;
    auto* head = page_addr(0);
    auto n = sizes.size();
    for (std::size_t code = 0; code < n * n * n * n; ++code) {
        if (!vf::mine(unit++)) continue;
        std::size_t pick[4] = {code % n, code / n % n, code / n / n % n, code / n / n / n};
        vf::at("a page with blocks %zu %zu %zu %zu", pick[0], pick[1], pick[2], pick[3]);
        page_allocation_info base(page_pool::page_info{head, 1});
        std::vector<block> bs;
        for (auto i : pick) {
            auto rem = base.remaining(sizes[i].al); auto up = base.upper_bound_offset();
            auto* p = static_cast<char*>(base.try_allocate_back(sizes[i].n, sizes[i].al));
            VF_CHECK((p != nullptr) == (rem >= sizes[i].n), "page-remaining", "%zu bytes remain at alignment %zu but a block of %zu was %s", rem, sizes[i].al, sizes[i].n, p ? "given" : "refused");
            if (!p) { VF_CHECK(base.upper_bound_offset() == up, "page-refused", "a refused request moved the end"); continue; }
            VF_CHECK(p >= head + up && p + sizes[i].n <= head + P && reinterpret_cast<std::uintptr_t>(p) % sizes[i].al == 0 && base.upper_bound_offset() == static_cast<std::size_t>(p - head) + sizes[i].n, "page-block", "block at %td, page was used up to %zu", p - head, up);
            bs.push_back({p, sizes[i].n, sizes[i].al});
        }
        // every order of freeing from the front
        for (int order = 0; order < 4 * 4 * 4 * 4; ++order) {
            page_allocation_info x(base); std::vector<bool> gone(bs.size()); vf::trace();
            for (int k = 0, o = order; k < 4; ++k, o /= 4) {
                std::size_t w = o % 4; if (w >= bs.size()) break;
                std::size_t oldest = 0; while (oldest < bs.size() && gone[oldest]) ++oldest;
                if (oldest == bs.size()) break;
                auto lo = x.lower_bound_offset(), up = x.upper_bound_offset();
                auto st = static_cast<std::size_t>(bs[w].p - head);
                vf::step();
                if (w == oldest) {
                    VF_CHECK(x.try_deallocate_front(bs[w].p, bs[w].n, bs[w].al), "page-front", "the oldest block is refused");
                    gone[w] = true;
                    VF_CHECK(x.lower_bound_offset() == st + bs[w].n && x.upper_bound_offset() == up, "page-front", "in use %zu..%zu after freeing up to %zu", x.lower_bound_offset(), x.upper_bound_offset(), st + bs[w].n);
                    VF_CHECK(x.empty() == (w + 1 == bs.size()), "page-empty", "empty() wrong after freeing %zu of %zu", w + 1, bs.size());
                } else if (gone[w] || st >= static_cast<std::size_t>(bs[oldest].p - head) + bs[w].al + (bs[oldest].al - 1)) {   // further away than any padding
                    VF_CHECK(!x.try_deallocate_front(bs[w].p, bs[w].n, bs[w].al), "page-order", "block %zu was freed from the front while block %zu is the oldest", w, oldest);
                    VF_CHECK(x.lower_bound_offset() == lo && x.upper_bound_offset() == up, "page-order", "a refused deallocation changed the page");
                } else break;
            }
        }
        // from the back, newest first
        page_allocation_info x(base);
        for (auto i = bs.size(); i-- > 0;) {
            VF_CHECK(x.try_deallocate_back(bs[i].p, bs[i].n, bs[i].al), "page-back", "the newest block is refused");
            auto up = static_cast<std::size_t>(bs[i].p - head);
            VF_CHECK(x.upper_bound_offset() <= up && x.empty() == (i == 0) && (i == 0 || x.upper_bound_offset() >= static_cast<std::size_t>(bs[i - 1].p - head) + bs[i - 1].n), "page-back", "in use up to %zu after freeing the block at %zu", x.upper_bound_offset(), up);
            if (i > 0 && bs[i].n > 0) VF_CHECK(!x.try_deallocate_back(bs[i].p, bs[i].n, bs[i].al), "page-back", "a freed block was freed again");
        }
        VF_CHECK(x.remaining(1) == P || bs.empty(), "page-back", "%zu bytes remain in an emptied page", x.remaining(1));
    }
}
int main(int argc, char** argv) {
    vf::init(argc, argv);
    arena = static_cast<char*>(std::aligned_alloc(1 << 21, (NPAGES + 2) * (page_size + 8192) / (1 << 21) * (1 << 21) + (1 << 21)));
    int depth = vf::thorough() ? 7 : 6;
    std::vector<int> all; for (std::size_t i = 0; i < reqs.size(); ++i) all.push_back((int) i);
    for (int o = 20; o <= 26; ++o) all.push_back(o);
    std::uint64_t unit = 0;
    page_orders(unit);
    for (kind k : {kind::fifo, kind::fifo_cp, kind::lifo, kind::mono})
        for (int fail = -1; fail <= 2; ++fail)
            for (int first : all) {
                if (!vf::mine(unit++)) continue;
                { runner x(k, fail); if (!x.enabled(first)) continue; }
                vf::at("%s resource, page request %d fails, first operation %d", kname[(int) k], fail, first);
                std::vector<int> ops{first};
                seen.clear();
                explore(k, fail, ops, fail >= 0 ? depth - 2 : depth - 1, all);
            }
    vf::bound_note(vf::strf("all operation sequences of length %d (%d with a failing page acquisition) over 8 request sizes/alignments, deallocation, checkpoints, scoped checkpoints, page end, for each resource", depth, depth - 1));
    vf::sample("lifo: alloc(P,8) hold alloc(1,1) alloc(P/2+1,16) release: back to one page");
    return vf::finish();
}
