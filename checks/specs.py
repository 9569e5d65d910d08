# The table of checks: what is compiled, how, and how the evidence is described.
COMMON = "-std=c++17 -g -O1 -fno-omit-frame-pointer -Wno-everything" 
GCC = "-std=c++17 -g1 -O1 -fno-omit-frame-pointer -w -DBOOST_THREAD_VERSION=4"
DEFAULT_ASSUME = ["inputs and sequences outside the stated bounds are not covered",
                  "compiled with g++ 13 at -O1 from /repo's working tree; address sanitizer reports count as violations"]
MODES = {
    # A: the part of /repo that builds without the tsurugidb libraries
    "A": dict(cxx="g++", flags=GCC + " -fsanitize=address -fno-sanitize=alignment",
              inc=lambda V, R, P: [R + "/include", R + "/src", P, V + "/lib", V + "/shim"],
              ldflags="-fsanitize=address -Wl,--as-needed", libs="-lprotobuf -lglog -lgflags -lpthread -lboost_container -ltbb -lnuma",
              support=["lib/vf.cpp"], support_mode="A"),
    # F: any part of /repo, over the stand-ins in shim/ for the libraries absent here; sources: checks/closure.json
    "F": dict(cxx="g++", flags=GCC + " -fsanitize=address -fno-sanitize=alignment -ffunction-sections -fdata-sections -include memory",
              inc=lambda V, R, P: [R + "/include", R + "/src", P, V + "/lib", V + "/shim"],
              ldflags="-fsanitize=address -Wl,--gc-sections,--as-needed", libs="-lprotobuf -lglog -lgflags -lpthread -lboost_container -lboost_filesystem -lboost_system -lboost_thread -ltbb -lnuma -ldl -latomic",
              support=["lib/vf.cpp"], support_mode="A"),
    # SF: the same under schedule exploration
    "SF": dict(cxx="g++", flags=GCC + " -fno-pie -fsanitize=thread --param tsan-instrument-func-entry-exit=0 -ffunction-sections -fdata-sections -include memory",
              inc=lambda V, R, P: [R + "/include", R + "/src", P, V + "/lib", V + "/sched", V + "/shim_sched", V + "/shim"],
              ldflags="-no-pie -rdynamic -Wl,--gc-sections,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp -Wl,--as-needed", libs="-lprotobuf -lglog -lgflags -lpthread -lboost_container -lboost_filesystem -lboost_system -ltbb -lnuma -ldl -latomic",
              support=["lib/vf.cpp", "sched/rt.cpp"], support_mode="SR"),
    # S: schedule exploration; instrumented for our own runtime (sched/rt.cpp), not linked to the thread sanitizer
    "S": dict(cxx="g++", flags=GCC + " -fno-pie -fsanitize=thread --param tsan-instrument-func-entry-exit=0",
              inc=lambda V, R, P: [R + "/include", R + "/src", P, V + "/lib", V + "/sched", V + "/shim"],
              ldflags="-no-pie -rdynamic -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp -Wl,--as-needed", libs="-lprotobuf -lglog -lgflags -lpthread -lboost_container -ldl",
              support=["lib/vf.cpp", "sched/rt.cpp"], support_mode="SR"),
    "SR": dict(cxx="g++", flags=GCC + " -fno-pie -O2", inc=lambda V, R, P: [V + "/lib", V + "/sched"], ldflags="", libs=""),
}
SPECS = {}
def spec(i, **k):
    SPECS[i] = k
S = "src/jogasaki/"
spec("C01", mode="A", src=["c01_text.cpp"], shards=8, repo=[S + "accessor/text.cpp"])
spec("C02", mode="A", src=["c02_buffer.cpp"], shards=8, repo=[S + "data/aligned_buffer.cpp", S + "data/binary_string_value.cpp"])
spec("C03", mode="A", src=["c03_utf8.cpp"], shards=8, repo=[S + "utils/utf8_utils.cpp"])
spec("C04", mode="A", src=["c04_sanitize.cpp"], shards=8, repo=[S + "utils/sanitize_utf8.cpp", S + "utils/convert_control_characters.cpp", S + "utils/string_utils.cpp", S + "utils/string_manipulation.cpp"])
spec("C05", mode="A", src=["c05_base64.cpp"], shards=8, repo=[S + "utils/base64_utils.cpp", S + "utils/hex_to_octet.cpp"])
spec("C06", mode="A", src=["c06_small.cpp"], shards=8, repo=[])
spec("C07", mode="A", src=["c07_values.cpp"], shards=8, repo=[S + "request_statistics.cpp", S + "meta/character_field_option.cpp", S + "meta/octet_field_option.cpp", S + "meta/decimal_field_option.cpp", S + "meta/time_of_day_field_option.cpp", S + "meta/time_point_field_option.cpp", S + "api/kvsservice/transaction_options.cpp"])
P = ["jogasaki/proto/sql/error.proto"]
spec("C08", mode="A", src=["c08_error.cpp"], shards=8, repo=[S + "error/error_info.cpp", S + "api/impl/error_info.cpp"], protos=["src/jogasaki/proto/sql/error.proto"])
spec("C09", mode="A", src=["c09_dto.cpp"], shards=8, repo=[S + "executor/dto/common_column_utils.cpp", S + "executor/dto/describe_table_utils.cpp", S + "api/kvsservice/mapped_record.cpp"],
     protos=["src/jogasaki/proto/sql/common.proto", "src/jogasaki/proto/sql/error.proto", "src/jogasaki/proto/sql/response.proto", "src/tateyama/proto/kvs/data.proto"])

spec("C10", mode="A", src=["c10_memory.cpp"], shards=8, repo=[S + "memory/" + x for x in ("details/page_allocation_info.cpp", "fifo_paged_memory_resource.cpp", "lifo_paged_memory_resource.cpp", "monotonic_paged_memory_resource.cpp")])
U = S + "udf/"
spec("C15", mode="A", src=["c15_record.cpp"], shards=8, repo=[U + "generic_record_impl.cpp", U + "error_info.cpp"])
spec("C16", mode="A", src=["c16_udfdesc.cpp"], shards=8, repo=[U + "descriptor/descriptor_analyzer.cpp", U + "descriptor/descriptor_reader.cpp", U + "descriptor/validation/message_duplicate_validator.cpp", U + "descriptor/validation/rpc_duplicate_validator.cpp", U + "descriptor_impl.cpp"])
SCHED_COUNT = "states: scheduling decisions (schedule prefixes) visited; transitions: synchronisation steps executed by the real code; traces: complete schedules, each checked to its end"
SCHED_ASSUME = ["sequentially consistent interleavings of synchronisation operations; data races are reported from the declared memory orders (vector clocks), so weaker effects of correct programs cannot be missed",
                "schedules with more deviations than the stated bound are not covered",
                "code is compiled by g++ 13 -O1 -fsanitize=thread from /repo's working tree and runs on our runtime in place of pthread"]
def sspec(i, **k):
    SPECS[i] = dict(mode="S", kind="sched", shards=8, counting=SCHED_COUNT, assumptions=SCHED_ASSUME, **k)
sspec("C11", src=["c11_latch.cpp"], repo=[S + "utils/latch.cpp"])
sspec("C12", src=["c12_watomic.cpp"])
sspec("C13", src=["c13_stream.cpp"], repo=[S + "udf/generic_record_impl.cpp", S + "udf/error_info.cpp"])
sspec("C14", src=["c14_usecount.cpp"], repo=[S + "utils/use_counter.cpp"])
sspec("C17", src=["c17_watch.cpp"], repo=[S + "utils/watch.cpp", S + "utils/performance_tools.cpp"])
spec("C18", mode="A", src=["c18_udfconf.cpp"], shards=8, libs="-lgrpc++ -lgrpc -lgpr", repo=[U + x for x in ("descriptor_impl.cpp", "error_info.cpp", "generic_client_context.cpp", "generic_record_impl.cpp", "plugin_api.cpp", "udf_config.cpp")])
spec("C19", mode="A", src=["c19_kinds.cpp"], shards=8, repo=[S + "executor/batch/batch_executor_option.cpp", S + "utils/proto_debug_string.cpp", S + "error/error_info.cpp"],
     protos=["src/jogasaki/proto/sql/common.proto"])
spec("C20", mode="A", src=["c20_hash.cpp"], shards=5)
spec("C21", mode="A", src=["c21_serde.cpp"], shards=8, repo=[S + "serializer/base128v.cpp", S + "serializer/value_input.cpp", S + "serializer/value_output.cpp", S + "serializer/value_input_exception.cpp"])
spec("C22", mode="A", src=["c22_coder.cpp"], env={"GLOG_minloglevel": "3", "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=4096"}, shards=8, repo=[S + x for x in ("kvs/coder.cpp", "kvs/readable_stream.cpp", "kvs/writable_stream.cpp", "utils/coder.cpp", "utils/decimal.cpp", "data/any.cpp", "data/aligned_buffer.cpp", "accessor/text.cpp", "accessor/record_ref.cpp", "accessor/const_record_ref.cpp", "meta/character_field_option.cpp", "meta/octet_field_option.cpp", "meta/decimal_field_option.cpp", "meta/time_of_day_field_option.cpp", "meta/time_point_field_option.cpp", "executor/expr/error.cpp", "utils/fail.cpp")])
NOLOG = {"GLOG_minloglevel": "3", "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=4096"}
META = [S + "meta/" + x + "_field_option.cpp" for x in ("character", "octet", "decimal", "time_of_day", "time_point")] + [S + x for x in ("meta/record_meta.cpp", "meta/impl/record_layout_creator.cpp", "data/any.cpp", "data/aligned_buffer.cpp", "accessor/text.cpp", "accessor/record_ref.cpp", "accessor/const_record_ref.cpp", "accessor/record_copier.cpp", "executor/expr/error.cpp", "utils/fail.cpp", "utils/copy_field_data.cpp")]
spec("C23", mode="A", src=["c23_records.cpp"], env=NOLOG, shards=8, repo=META + [S + x for x in ("data/iterable_record_store.cpp", "data/record_store.cpp", "data/result_store.cpp", "data/small_record_store.cpp", "executor/compare_info.cpp", "executor/partitioner.cpp", "memory/page_pool.cpp", "memory/monotonic_paged_memory_resource.cpp", "memory/details/page_allocation_info.cpp")])

NOLOG2 = dict(NOLOG)
def fspec(i, src, **k):
    SPECS[i] = dict(mode="F", src=[src], shards=8, env=k.pop("env", NOLOG), auto=True, protos=k.pop("protos", True), **k)
def sfspec(i, src, **k):
    SPECS[i] = dict(mode="SF", kind="sched", src=[src], shards=8, counting=SCHED_COUNT, assumptions=SCHED_ASSUME, auto=True, protos=k.pop("protos", False), **k)
fspec("C24", "c24_sequence.cpp")
sfspec("C25", "c25_storage.cpp")
fspec("C26", "c26_expr.cpp")
fspec("C27", "c27_cast.cpp")
fspec("C28", "c28_func.cpp")
fspec("C29", "c29_exchange.cpp")
sfspec("C30", "c30_request.cpp", protos=True, repo=[S + "executor/executor.cpp"])
sfspec("C31", "c31_commit.cpp", protos=True, repo=[S + "executor/executor.cpp"])
fspec("C32", "c32_sql.cpp", repo=[S + "executor/executor.cpp", S + "executor/io/record_channel_adapter.cpp"])
fspec("C33", "c33_dml.cpp", repo=[S + "executor/executor.cpp", S + "executor/io/record_channel_adapter.cpp"])
fspec("C34", "c34_definitions.cpp")
fspec("C35", "c35_ddl.cpp", repo=[S + "executor/executor.cpp", S + "executor/io/record_channel_adapter.cpp"])
