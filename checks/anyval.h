// Building, printing and comparing values of /repo's any type.
#pragma once
#include "vf.h"
#include "exact_resource.h"
#include <cstring>
#include <jogasaki/accessor/record_ref.h>
#include <jogasaki/accessor/const_record_ref.h>
#include <jogasaki/data/any.h>
using namespace jogasaki;
using kind = meta::field_type_kind;
using i64 = std::int64_t; using u64 = std::uint64_t; using u128 = unsigned __int128;
using any = data::any; using triple = takatori::decimal::triple; namespace dt = takatori::datetime;
static vf::exact_resource res;
static std::string show(any const& a) {
    if (a.empty()) return "null";
    switch (a.type_index()) {
        case any::index<std::int8_t>: return vf::strf("i1:%d", a.to<std::int8_t>());
        case any::index<std::int16_t>: return vf::strf("i2:%d", a.to<std::int16_t>());
        case any::index<std::int32_t>: return vf::strf("i4:%d", a.to<std::int32_t>());
        case any::index<i64>: return vf::strf("i8:%lld", (long long) a.to<i64>());
        case any::index<float>: { auto f = a.to<float>(); unsigned b; std::memcpy(&b, &f, 4); return vf::strf("f4:%08x", b); }
        case any::index<double>: { auto f = a.to<double>(); u64 b; std::memcpy(&b, &f, 8); return vf::strf("f8:%016llx", (unsigned long long) b); }
        case any::index<accessor::text>: { auto t = a.to<accessor::text>(); return "c:" + std::string(static_cast<std::string_view>(t)); }
        case any::index<accessor::binary>: { auto t = a.to<accessor::binary>(); return "o:" + std::string(static_cast<std::string_view>(t)); }
        case any::index<triple>: { auto t = a.to<triple>(); return vf::strf("d:%d:%016llx%016llxE%d", t.sign(), (unsigned long long) t.coefficient_high(), (unsigned long long) t.coefficient_low(), t.exponent()); }
        case any::index<dt::date>: return vf::strf("date:%lld", (long long) a.to<dt::date>().days_since_epoch());
        case any::index<dt::time_of_day>: return vf::strf("tod:%llu", (unsigned long long) a.to<dt::time_of_day>().time_since_epoch().count());
        case any::index<dt::time_point>: { auto t = a.to<dt::time_point>(); return vf::strf("tp:%lld.%llu", (long long) t.seconds_since_epoch().count(), (unsigned long long) t.subsecond().count()); }
        case any::index<lob::blob_reference>: return vf::strf("blob:%d/%llu", (int) a.to<lob::blob_reference>().provider(), (unsigned long long) a.to<lob::blob_reference>().object_id());
        case any::index<lob::clob_reference>: return vf::strf("clob:%d/%llu", (int) a.to<lob::clob_reference>().provider(), (unsigned long long) a.to<lob::clob_reference>().object_id());
        default: return "?";
    }
}
template <class T> static any A(T v) { return any{std::in_place_type<T>, v}; }
static any text_(std::string_view s) { auto p = (char*) static_cast<memory::paged_memory_resource&>(res).allocate(s.size(), 1); std::memcpy(p, s.data(), s.size()); return any{std::in_place_type<accessor::text>, accessor::text{p, s.size()}}; }
static any bin_(std::string_view s) { auto p = (char*) static_cast<memory::paged_memory_resource&>(res).allocate(s.size(), 1); std::memcpy(p, s.data(), s.size()); return any{std::in_place_type<accessor::binary>, accessor::binary{p, s.size()}}; }
static void set(accessor::record_ref q, std::size_t off, any const& a, kind k) {
    switch (k) {
        case kind::boolean: q.set_value(off, a.to<std::int8_t>()); break; case kind::int1: case kind::int2: case kind::int4: q.set_value(off, a.to<std::int32_t>()); break;
        case kind::int8: q.set_value(off, a.to<i64>()); break; case kind::float4: q.set_value(off, a.to<float>()); break; case kind::float8: q.set_value(off, a.to<double>()); break; case kind::decimal: q.set_value(off, a.to<triple>()); break;
        case kind::character: q.set_value(off, a.to<accessor::text>()); break; case kind::octet: q.set_value(off, a.to<accessor::binary>()); break; case kind::date: q.set_value(off, a.to<dt::date>()); break; case kind::time_of_day: q.set_value(off, a.to<dt::time_of_day>()); break;
        case kind::time_point: q.set_value(off, a.to<dt::time_point>()); break; case kind::blob: q.set_value(off, a.to<lob::blob_reference>()); break; case kind::clob: q.set_value(off, a.to<lob::clob_reference>()); break; default: std::abort();
    }
}
static any get(accessor::const_record_ref q, std::size_t off, kind k) {
    switch (k) {
        case kind::boolean: return A(q.get_value<std::int8_t>(off)); case kind::int1: case kind::int2: case kind::int4: return A(q.get_value<std::int32_t>(off)); case kind::int8: return A(q.get_value<i64>(off)); case kind::float4: return A(q.get_value<float>(off)); case kind::float8: return A(q.get_value<double>(off));
        case kind::decimal: return A(q.get_value<triple>(off)); case kind::character: return A(q.get_value<accessor::text>(off)); case kind::octet: return A(q.get_value<accessor::binary>(off)); case kind::date: return A(q.get_value<dt::date>(off)); case kind::time_of_day: return A(q.get_value<dt::time_of_day>(off)); case kind::time_point: return A(q.get_value<dt::time_point>(off));
        case kind::blob: return A(q.get_value<lob::blob_reference>(off)); case kind::clob: return A(q.get_value<lob::clob_reference>(off)); default: std::abort();
    }
}
