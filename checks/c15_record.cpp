// C15: the record passed to and from a user-defined function: every sequence of values up to a length, every way of
// reading it, compared with a list of typed values.
#include "vf.h"
#include <jogasaki/udf/generic_record_impl.h>
#include <cmath>
#include <limits>
#include <sstream>
using namespace plugin::udf;
using K = runtime_type_kind;
static char const* const kn[] = {"null", "boolean", "int4", "int8", "uint4", "uint8", "float4", "float8", "string", "bytes", "decimal", "date", "local_time", "local_datetime", "offset_datetime", "blob_reference", "clob_reference"};
// a value: its kind and its fields printed exactly
struct val { K k; std::string f; };
template <class T> static std::string num(T v) { return std::to_string(v); }
static std::string fl(double v) { return std::isnan(v) ? "nan" : vf::strf("%a", v); }
static constexpr int NV = 2;   // values per kind
// adds the n-th value of kind k (n == NV: its null) and tells what must come out
static val add(generic_record_impl& r, K k, int n) {
    bool z = n == NV;
    std::string big(70, '\xfe');
    std::string strs[2] = {std::string("a\0b", 3), big}; 
    val v{z ? K::null_value : k, ""};
    switch (k) {
        case K::boolean: if (z) r.add_bool_null(); else { r.add_bool(n == 1); v.f = num(n == 1); } break;
        case K::int4: { std::int32_t x = n ? std::numeric_limits<std::int32_t>::min() : 0; if (z) r.add_int4_null(); else { r.add_int4(x); v.f = num(x); } break; }
        case K::int8: { std::int64_t x = n ? std::numeric_limits<std::int64_t>::min() : 0x100000000; if (z) r.add_int8_null(); else { r.add_int8(x); v.f = num(x); } break; }
        case K::uint4: { std::uint32_t x = n ? 0xffffffffu : 0; if (z) r.add_uint4_null(); else { r.add_uint4(x); v.f = num(x); } break; }
        case K::uint8: { std::uint64_t x = n ? ~0ull : 0; if (z) r.add_uint8_null(); else { r.add_uint8(x); v.f = num(x); } break; }
        case K::float4: { float x = n ? -0.0f : 3.4e38f; if (z) r.add_float_null(); else { r.add_float(x); v.f = fl(x); } break; }
        case K::float8: { double x = n ? std::nan("") : 1e-300; if (z) r.add_double_null(); else { r.add_double(x); v.f = fl(x); } break; }
        case K::string: if (z) r.add_string_null(); else { r.add_string(strs[n]); v.f = strs[n]; } break;
        case K::bytes: if (z) r.add_bytes_null(); else { r.add_bytes(bytes_value{strs[n]}); v.f = strs[n]; } break;
        case K::decimal: if (z) r.add_decimal_null(); else { r.add_decimal(decimal_value{strs[n], n ? -38 : 38}); v.f = strs[n] + "," + num(n ? -38 : 38); } break;
        case K::date: { std::int32_t x = n ? -719468 : 2147483647; if (z) r.add_date_null(); else { r.add_date(date_value{x}); v.f = num(x); } break; }
        case K::local_time: { std::int64_t x = n ? 0 : 86399999999999; if (z) r.add_local_time_null(); else { r.add_local_time(local_time_value{x}); v.f = num(x); } break; }
        case K::local_datetime: { std::int64_t x = n ? -1 : 253402300799; if (z) r.add_local_datetime_null(); else { r.add_local_datetime(local_datetime_value{x, n ? 999999999u : 1u}); v.f = num(x) + "," + num(n ? 999999999u : 1u); } break; }
        case K::offset_datetime: { std::int64_t x = n ? -2 : 4; if (z) r.add_offset_datetime_null(); else { r.add_offset_datetime(offset_datetime_value{x, n ? 5u : 6u, n ? -720 : 540}); v.f = num(x) + "," + num(n ? 5u : 6u) + "," + num(n ? -720 : 540); } break; }
        case K::blob_reference: if (z) r.add_blob_reference_null(); else { r.add_blob_reference(blob_reference_value{1ull + n, 2ull << (n * 40), 3ull << (n * 50), n == 1}); v.f = num(1ull + n) + "," + num(2ull << (n * 40)) + "," + num(3ull << (n * 50)) + "," + num(n == 1); } break;
        case K::clob_reference: if (z) r.add_clob_reference_null(); else { r.add_clob_reference(clob_reference_value{4ull + n, 5ull << (n * 40), 6ull << (n * 50), n == 1}); v.f = num(4ull + n) + "," + num(5ull << (n * 40)) + "," + num(6ull << (n * 50)) + "," + num(n == 1); } break;
        default: break;
    }
    return v;
}
// reads the next value as kind k; nullopt if the cursor gives none
static std::optional<std::string> fetch(generic_record_cursor& c, K k) {
    switch (k) {
        case K::boolean: if (auto x = c.fetch_bool()) return num(*x); break;
        case K::int4: if (auto x = c.fetch_int4()) return num(*x); break;
        case K::int8: if (auto x = c.fetch_int8()) return num(*x); break;
        case K::uint4: if (auto x = c.fetch_uint4()) return num(*x); break;
        case K::uint8: if (auto x = c.fetch_uint8()) return num(*x); break;
        case K::float4: if (auto x = c.fetch_float()) return fl(*x); break;
        case K::float8: if (auto x = c.fetch_double()) return fl(*x); break;
        case K::string: if (auto x = c.fetch_string()) return *x; break;
        case K::bytes: if (auto x = c.fetch_bytes()) return x->value; break;
        case K::decimal: if (auto x = c.fetch_decimal()) return x->unscaled_value + "," + num(x->exponent); break;
        case K::date: if (auto x = c.fetch_date()) return num(x->days); break;
        case K::local_time: if (auto x = c.fetch_local_time()) return num(x->nanos); break;
        case K::local_datetime: if (auto x = c.fetch_local_datetime()) return num(x->offset_seconds) + "," + num(x->nano_adjustment); break;
        case K::offset_datetime: if (auto x = c.fetch_offset_datetime()) return num(x->offset_seconds) + "," + num(x->nano_adjustment) + "," + num(x->time_zone_offset); break;
        case K::blob_reference: if (auto x = c.fetch_blob_reference()) return num(x->storage_id) + "," + num(x->object_id) + "," + num(x->tag) + "," + num(x->provisioned); break;
        case K::clob_reference: if (auto x = c.fetch_clob_reference()) return num(x->storage_id) + "," + num(x->object_id) + "," + num(x->tag) + "," + num(x->provisioned); break;
        default: break;
    }
    return {};
}
static void check_pos(generic_record_cursor& c, std::vector<val> const& m, std::size_t i, char const* h) {
    VF_CHECK(c.has_next() == (i < m.size()), "rec-next", "%s: has_next at %zu of %zu", h, i, m.size());
    if (i < m.size()) {
        VF_CHECK(c.current_kind() == m[i].k, "rec-kind", "%s: kind %s at %zu, expected %s", h, kn[(int) c.current_kind()], i, kn[(int) m[i].k]);
        VF_CHECK(c.current_is_null() == (m[i].k == K::null_value), "rec-null", "%s: current_is_null wrong at %zu", h, i);
    } else {
        bool thrown = false;
        try { (void) c.current_kind(); } catch (std::out_of_range const&) { thrown = true; }
        VF_CHECK(thrown, "rec-kind", "%s: a kind behind the last value", h);
        VF_CHECK(!c.current_is_null(), "rec-null", "%s: null behind the last value", h);
    }
}
// reads with the given kinds (as many as asked, even behind the end): each read consumes one value, wrong kinds give none
static void read_as(generic_record const& r, std::vector<val> const& m, std::vector<int> const& kinds, char const* h) {
    auto c = r.cursor();
    std::size_t i = 0;
    check_pos(*c, m, 0, h);
    for (int k : kinds) {
        auto got = fetch(*c, K(k));
        vf::step();
        bool expect = i < m.size() && m[i].k == K(k);
        VF_CHECK(got.has_value() == expect, "rec-fetch", "%s: reading value %zu (%s) as %s gave %s", h, i, i < m.size() ? kn[(int) m[i].k] : "none", kn[k], got ? "a value" : "none");
        if (expect) VF_CHECK(*got == m[i].f, "rec-value", "%s: value %zu (%s) came out as %s, expected %s", h, i, kn[k], vf::hexs(*got).c_str(), vf::hexs(m[i].f).c_str());
        if (i < m.size()) ++i;
        check_pos(*c, m, i, h);
    }
}
static void read_all(generic_record const& r, std::vector<val> const& m, char const* h) {
    std::vector<int> ks; for (auto& v : m) ks.push_back(v.k == K::null_value ? 2 : (int) v.k);
    ks.push_back(2);
    read_as(r, m, ks, h);
}
static void check_err(generic_record_impl const& r, int e, char const* h) {
    VF_CHECK(r.error().has_value() == (e >= 0), "rec-error", "%s: error presence", h);
    if (e >= 0) VF_CHECK(r.error()->code() == grpc::StatusCode(e) && r.error()->message() == "m" + std::to_string(e), "rec-error", "%s: error content", h);
    auto s = r.debug_string();
    std::ostringstream a, b; a << r; r.dump(b);
    VF_CHECK(a.str() == s && b.str() == s, "rec-print", "%s: printed forms differ", h);
    VF_CHECK((s.find("m" + std::to_string(e)) != s.npos) == (e >= 0), "rec-print", "%s: printed form %s", h, s.c_str());
}
int main(int argc, char** argv) {
    vf::init(argc, argv);
    std::uint64_t unit = 0;
    // every pair of values of every kind (with nulls), then every pair of read kinds
    for (int a = 1; a < 17; ++a) for (int an = 0; an <= NV; ++an) {
        if (!vf::mine(unit++)) continue;
        vf::at("first value kind %s number %d", kn[a], an);
        for (int b = 1; b < 17; ++b) for (int bn = 0; bn <= NV; ++bn) {
            generic_record_impl r; std::vector<val> m{add(r, K(a), an), add(r, K(b), bn)};
            auto h = vf::strf("[%s#%d,%s#%d]", kn[a], an, kn[b], bn);
            vf::state(); vf::trace();
            read_all(r, m, h.c_str());
            for (int k = 1; k < 17; ++k) { read_as(r, m, {k, (int) b, k}, h.c_str()); read_as(r, m, {(int) a, k}, h.c_str()); }
            check_err(r, -1, h.c_str());
        }
    }
    // every sequence of operations on two records: add, error, reset, hand over
    int depth = vf::thorough() ? 7 : 5;
    std::vector<int> ops;
    std::function<void()> go = [&] {
        if (!ops.empty()) {
            generic_record_impl r[2]; std::vector<val> m[2]; int e[2] = {-1, -1}; std::string h;
            for (int o : ops) {
                int i = o & 1;
                switch (o / 2) {
                    case 0: m[i].push_back(add(r[i], K::string, 1)); h += " string"; break;
                    case 1: m[i].push_back(add(r[i], K::int8, NV)); h += " null"; break;
                    case 2: m[i].push_back(add(r[i], K::int4, 1)); h += " int4"; break;
                    case 3: e[i] = i ? 14 : 4; r[i].set_error(error_info(grpc::StatusCode(e[i]), "m" + std::to_string(e[i]))); h += " error"; break;
                    case 4: { error_info x(grpc::StatusCode(7), "m7"); e[i] = 7; r[i].error() = x; h += " error2"; break; }
                    case 5: r[i].reset(); m[i].clear(); e[i] = -1; h += " reset"; break;
                    case 6: r[i].assign_from(std::move(r[1 - i])); m[i] = m[1 - i]; m[1 - i].clear(); e[i] = e[1 - i]; e[1 - i] = -1; h += " assign"; break;
                }
                h += i ? "1" : "0";
                vf::step();
            }
            vf::trace(); vf::state(); vf::tick();
            for (int i = 0; i < 2; ++i) { read_all(r[i], m[i], h.c_str()); check_err(r[i], e[i], h.c_str()); }
        }
        if ((int) ops.size() == depth) return;
        for (int o = 0; o < 14; ++o) {
            if (ops.empty() && !vf::mine(unit++)) continue;
            if (ops.empty()) vf::at("operation sequences starting with %d", o);
            ops.push_back(o); go(); ops.pop_back();
        }
    };
    go();
    vf::bound_note(vf::strf("all pairs of values over 16 kinds x (2 values, null), read as all kinds; all operation sequences up to length %d on two records", depth));
    vf::sample("record [decimal, null] read as decimal, int4, int4: value, none, none");
    return vf::finish();
}
