# The properties, and for each what its check assures. gen.py writes properties.jsonl and MANIFEST.json from this table.
PROPS = []
def prop(id, title, statement, over, text, why, files, mech, note, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech]}
    if state: a["state"] = [{"name": s[0], "meaning": s[1], "where": s[2]} for s in state]
    if observe: a["observe_at"] = observe
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a), note))
J = "src/jogasaki/"
NA = []   # (id, reason)

prop("C01", "Character and octet values are faithful immutable byte strings",
     "A character or octet value of any length and content reads back exactly the bytes it was built from, however it was built (view, concatenation, buffer, copy), and stays so when the source is changed. Its size, emptiness, printed form, ordering and equality are those of the byte string compared as unsigned bytes with a shorter prefix first, whether the bytes are stored inline or outside.",
     ["inputs", "histories"], "every content over a byte alphabet up to a length, every length around the inline/outside representation limit, all pairs for comparison, all concatenations",
     "text_test checks a few literals of the short and of the long form; a representation error shows only at particular lengths, bytes or pairs.",
     [J + "accessor/text.h", J + "accessor/text.cpp", J + "accessor/binary.h"],
     [("short/long representation and comparison", J + "accessor/text.cpp"), ("binary wraps text", J + "accessor/binary.h")],
     "All contents and pairs within the bounds are run on the real class with exact-size allocations under AddressSanitizer and compared with std::string.")
prop("C02", "The growable byte buffer keeps exactly what was put in it",
     "Through any sequence of constructing, assigning, resizing, shrinking, copying, moving and writing, the byte buffer holds exactly the bytes written to it that were not cut off, is aligned as asked, and its storage covers its size. An owned binary string compares and reads as its bytes.",
     ["histories", "inputs"], "every operation sequence up to a depth over sizes around the growth steps and several alignments",
     "No test in the build covers the buffer; errors need a particular sequence of growth and reuse.",
     [J + "data/aligned_buffer.h", J + "data/aligned_buffer.cpp", J + "data/binary_string_value.h"],
     [("resize/assign/shrink", J + "data/aligned_buffer.cpp")],
     "Every operation sequence up to the depth runs on the real buffer against a vector model; ASan watches the storage.")
prop("C03", "UTF-8 scanning never leaves the string and classifies each position",
     "For any byte string and any offset, the encoding detection reads only inside the string and reports 1 to 4 bytes exactly where a lead byte (00-7f, c2-df, e0-ef, f0-f4) is followed inside the string by its continuation bytes, and invalid anywhere else, including past the end. A string is reported valid exactly when it splits into such sequences.",
     ["inputs"], "every byte string up to a length over the classes of bytes, every offset, truncated sequences at every position",
     "The existing tests only sample strings; the out-of-bounds read needs a sequence cut off at the end of an unterminated view.",
     [J + "utils/utf8_utils.h", J + "utils/utf8_utils.cpp"],
     [("detect_next_encoding, is_valid_utf8", J + "utils/utf8_utils.cpp")],
     "Exhaustive over the byte classes the scanner distinguishes; reads outside the view are caught by exact-size allocations under ASan.")
prop("C04", "Text shown to clients and in logs is safe, and trimming keeps the rest",
     "Sanitized text is always well-formed printable UTF-8: well-formed printable characters are kept as they are, every other byte becomes its hexadecimal escape, and sanitizing twice changes nothing. Log text has no control characters; trimming and case or prefix helpers remove or match exactly what they are asked to, for any bytes.",
     ["inputs"], "every byte string up to a length over all byte classes that the UTF-8 grammar distinguishes",
     "sanitize_utf8_test samples about twenty strings; combinations of truncated, overlong, surrogate and control sequences are not reached.",
     [J + "utils/sanitize_utf8.cpp", J + "utils/convert_control_characters.cpp", J + "utils/string_utils.cpp", J + "utils/string_manipulation.cpp"],
     [("sanitize_utf8", J + "utils/sanitize_utf8.cpp"), ("trim", J + "utils/string_manipulation.cpp")],
     "Exhaustive over byte classes against an independent strict UTF-8 decoder.")
prop("C05", "Base64 and hexadecimal conversions are exact inverses",
     "Decoding the base64 or hexadecimal text of any byte string gives the byte string back, the base64 text is the standard one with padding, and a text is accepted exactly if it is well-formed. Malformed hexadecimal text is refused.",
     ["inputs"], "every byte string up to length 2 over all bytes and up to a depth over byte classes; every text up to a length over the classes of valid and invalid characters",
     "hex_to_octet_test checks three texts and nothing in the build checks base64.",
     [J + "utils/base64_utils.cpp", J + "utils/hex_to_octet.cpp"],
     [("encode/decode", J + "utils/base64_utils.cpp"), ("hex_to_octet", J + "utils/hex_to_octet.cpp")],
     "Exhaustive within the bounds against independent reference encoders.")
prop("C06", "Size rounding, multiset difference and dump printers are exact",
     "Rounding to powers of two gives the nearest power on the right side for every representable size, and subtracting one list from another removes each element once per occurrence and never more than there are. Hexadecimal and binary dumps show exactly the bytes in order with the layout asked for, and leave the formatting of the stream as they found it.",
     ["inputs", "configurations"], "every size in dense ranges and around every power of two; all pairs of lists up to a length over a few values; all byte strings up to a length x all printer options x stream format states",
     "round_test, subtract_vectors_test, hex_printer_test and binary_printer_test check a handful of values each; removing an element more often than it occurs and sizes above 2^63 were wrong.",
     [J + "utils/round.h", J + "utils/subtract_vectors.h", J + "utils/binary_printer.h", J + "utils/hex.h", J + "utils/aligned_unique_ptr.h", J + "utils/base_filename.h", J + "utils/map_schema_name.h"],
     [("rounding", J + "utils/round.h"), ("subtract_vectors", J + "utils/subtract_vectors.h"), ("printers", J + "utils/binary_printer.h")],
     "Exhaustive within the bounds against definitions written independently.")
prop("C07", "Descriptions of types, large objects and statistics are value-exact",
     "Two type options, large-object locators or references, or region identifiers are equal exactly when the content that identifies them is equal, and their printed form shows that content. The statistics of a request report for every kind exactly the sum of what was counted, nothing for kinds never counted, and the time between start and end.",
     ["inputs", "histories"], "all pairs over several values per field; all sequences of counter operations up to a depth",
     "No test in the build covers these classes; a forgotten field shows only for a pair that differs in just that field.",
     [J + "request_statistics.cpp", "include/jogasaki/request_statistics.h", "include/jogasaki/lob/lob_reference.h", "include/jogasaki/lob/lob_locator.h", J + "meta/character_field_option.cpp", J + "meta/decimal_field_option.cpp", J + "executor/process/impl/region_id.h", "include/jogasaki/api/kvsservice/transaction_option.h"],
     [("counters", J + "request_statistics.cpp"), ("lob reference identity", "include/jogasaki/lob/lob_reference.h")],
     "All pairs and counter sequences within the bounds on the real classes.")
prop("C08", "Errors keep their code and their full information up to the client",
     "Every public error code reaches the wire as its own published number and name and maps back to itself; internal codes are only ever shown as the generic service error, and unknown wire codes as none. Error information reports the code, status and message it was given, and a supplemental text that is a JSON object with the source position and, whenever set, the latest additional text and the stack trace.",
     ["inputs", "histories"], "every code and every wire number; all combinations of texts and orders of setting additional information",
     "Nothing in the build tests it; a wrong pair among the sixty codes or a stale supplemental text is invisible to sampling.",
     [J + "api/impl/map_error_code.h", "include/jogasaki/error_code.h", "include/jogasaki/status.h", J + "error/error_info.cpp", J + "api/impl/error_info.cpp", J + "proto/sql/error.proto"],
     [("map_error", J + "api/impl/map_error_code.h"), ("supplemental text", J + "error/error_info.cpp")],
     "The whole code space is enumerated against a frozen table of the published numbers; error information over all combinations of the bounded texts.")
prop("C09", "Table and column descriptions survive the wire unchanged",
     "A column or table description converted to its wire message, serialized, parsed and converted back is equal to the original in every attribute, telling unset, set and arbitrary apart, and unknown wire types become unspecified. A record given by names and values returns for each name the value at its first position and nothing for a name it does not have.",
     ["inputs"], "every combination of attribute values from a small domain for each attribute; all lists of columns and keys up to a length; all name lists up to a length",
     "No test in the build covers the conversions; a swapped or dropped attribute shows only for particular combinations.",
     [J + "executor/dto/common_column_utils.cpp", J + "executor/dto/common_column.h", J + "executor/dto/describe_table_utils.cpp", J + "executor/dto/describe_table.h", J + "api/kvsservice/mapped_record.cpp"],
     [("to_proto/from_proto", J + "executor/dto/common_column_utils.cpp"), ("get_value", J + "api/kvsservice/mapped_record.cpp")],
     "All attribute combinations within the bounds go through the real protobuf messages.")
SCHED_WHY = "Unit tests run one arbitrary schedule per execution; "
prop("C11", "A latch neither loses a wake-up nor lets a waiter through early",
     "A thread waiting on a latch returns only after the latch was released, and once it is released every waiter returns, whatever the order in which threads wait, release and poll; a timed wait tells truly whether the latch was released, and not before its time is up. A latch that is reset blocks again until the next release.",
     ["schedules", "histories"], "every schedule, up to the deviation bound, of every small program of waiters, timed waiters and releasers",
     SCHED_WHY + "a lost wake-up needs one particular interleaving of the check and the notification.",
     [J + "utils/latch.h", J + "utils/latch.cpp"],
     [("wait/release/reset", J + "utils/latch.cpp")],
     "The real class runs on our own scheduler, which enumerates every schedule of the programs with at most the stated number of preemptions, timeouts and spurious wake-ups, with race, deadlock and linearizability checks.")
prop("C12", "Waiting on an atomic value returns exactly when the value has changed",
     "Waiting on a waitable atomic returns only when its value differs from the expected one, and after a store or modification followed by a notification every waiter affected returns; notifying one wakes at least one. Loads, stores, exchanges and read-modify-write operations act as one atomic variable in a single total order.",
     ["schedules", "histories"], "every schedule, up to the deviation bound, of every small program of waits, stores, read-modify-writes and notifications",
     SCHED_WHY + "waitable_atomic_test uses sleeps and sees the intended order only.",
     [J + "utils/waitable_atomic.h"],
     [("wait/notify", J + "utils/waitable_atomic.h")],
     "The real template runs on our scheduler over all schedules up to the deviation bound; results are compared with an atomic variable.")
prop("C13", "A stream of function results delivers every record once, in order, to its end",
     "Records pushed to the stream of a user-defined function come out complete, each exactly once and in the order pushed, until the end that was announced; after closing, nothing more comes out, and a reader never waits for ever once a record or the end is there. Timed reads report that nothing arrived only when nothing was there in time. This stays so when the stream is moved.",
     ["schedules", "histories"], "every schedule, up to the deviation bound, of every small program of producers and readers using each operation of the stream",
     SCHED_WHY + "a reader left waiting or a record lost at close or move needs a particular interleaving.",
     [J + "udf/generic_record_impl.h", J + "udf/generic_record_impl.cpp", J + "udf/generic_record.h"],
     [("push/next/try_next/close", J + "udf/generic_record_impl.cpp")],
     "The real class runs on our scheduler over all schedules up to the deviation bound; each complete history must be linearizable to a queue with an end mark.")
prop("C10", "Paged memory resources never hand out memory that is in use",
     "Every block obtained from a paged memory resource is aligned as asked, lies in a page the resource holds, and overlaps no other block still in use; deallocating or rewinding in the documented order frees exactly the blocks concerned and leaves all others alone, and a page refuses to free from its front a block that blocks still in use precede. Pages are returned to the pool exactly once, and never while a block in use lies on them; a failed acquisition of a page changes nothing.",
     ["histories", "fault_sequences"], "every sequence of allocations, deallocations, checkpoints and rewinds allowed by the documentation up to a depth, over sizes and alignments around the page boundary, with each page acquisition failing in turn",
     "The lifo/fifo/monotonic tests run a few fixed sequences; a checkpoint taken on an untouched page and used twice made live memory be handed out again.",
     [J + "memory/lifo_paged_memory_resource.cpp", J + "memory/fifo_paged_memory_resource.cpp", J + "memory/monotonic_paged_memory_resource.cpp", J + "memory/details/page_allocation_info.cpp", J + "utils/checkpoint_holder.h"],
     [("page list and offsets", J + "memory/details/page_allocation_info.cpp"), ("checkpoint and rewind", J + "memory/lifo_paged_memory_resource.cpp")],
     "Every operation sequence up to the depth, with page exhaustion at every point, runs on the real resources over a recording pool and is compared with an interval model.")
prop("C15", "A function's argument and result records keep every value and its type",
     "A record passed to or from a user-defined function gives back exactly the values appended to it, in order, each only through the accessor of its own type; a null comes out as absent through any accessor, and nothing comes out after the last value. Resetting or assigning an error leaves exactly the state stated, and the error reported is the one assigned.",
     ["inputs", "histories"], "every sequence of values and nulls of every type up to a length, read through every accessor, with reset and errors in between",
     "No test in the build covers the record; a value kind confused with another shows only for a particular pair of type and accessor.",
     [J + "udf/generic_record_impl.h", J + "udf/generic_record_impl.cpp", J + "udf/generic_record.h", J + "udf/error_info.cpp"],
     [("values and cursor", J + "udf/generic_record_impl.cpp")],
     "Every value sequence up to the length runs on the real record against a typed list.")
prop("C16", "Function descriptors are analysed and turned into overloads exactly",
     "Reading a set of function descriptors collects exactly the methods and message types they define and use, and reports precisely the types defined in more than one file and the method names defined twice; unreadable or broken files are reported as errors and do not spoil the others. The overloads derived from a function's input are exactly the combinations of its alternatives, in declaration order, and each column reports its own name, type and position.",
     ["inputs", "configurations"], "every pair of small descriptor files over a few packages, names, nested types and services in one or two sets; every column list over required columns and groups of alternatives up to a length",
     "No test in the build covers the analysis; a missed duplicate needs particular combinations of packages, nesting and file order.",
     [J + "udf/descriptor/descriptor_analyzer.cpp", J + "udf/descriptor/descriptor_reader.cpp", J + "udf/descriptor/validation/message_duplicate_validator.cpp", J + "udf/descriptor/validation/rpc_duplicate_validator.cpp", J + "udf/descriptor_impl.cpp"],
     [("duplicates", J + "udf/descriptor/validation/message_duplicate_validator.cpp"), ("overloads", J + "udf/descriptor_impl.cpp")],
     "All descriptor sets and record shapes within the bounds go through the real analyser and descriptor classes and are compared with an independent model.")
prop("C14", "A use counter tells exactly how many copies are alive",
     "After any sequence of creating, copying, moving, assigning, resetting and destroying use counters, each reports exactly the number of living objects that share its count; a moved-from or reset object counts only itself. Copies may be made and dropped by several threads at once without losing or inventing a user.",
     ["histories", "schedules"], "every operation sequence up to a depth over three objects; every schedule of small programs of two or three threads",
     "use_counter_test runs a handful of sequences in one thread.",
     [J + "utils/use_counter.h", J + "utils/use_counter.cpp"],
     [("shared count", J + "utils/use_counter.cpp")],
     "Every operation sequence up to the depth runs on the real class against a grouping model, and concurrent use over all schedules up to the deviation bound.")
prop("C17", "Timing measurements report exactly what was recorded",
     "A point of the code is recorded once per worker, at the time the worker first reports it, and every recorded point stays until the watch is restarted, also when workers record at the same time. The first and last times, the durations between two points, the duration of each worker and their average are those that follow from the recorded times, the beginning of the watch included.",
     ["histories", "schedules"], "every sequence of recordings up to a length over points and workers with a restart at every place; every schedule of small concurrent recording programs",
     "watch_test measures a few sleeps; asking for durations from the beginning of the watch read outside the records.",
     [J + "utils/watch.h", J + "utils/watch.cpp", J + "utils/performance_tools.cpp"],
     [("records", J + "utils/watch.cpp"), ("report text", J + "utils/performance_tools.cpp")],
     "All recording sequences run on the real class on a virtual clock against a reference, concurrent recording over all schedules up to the deviation bound.")
prop("C18", "Function plugin settings, results and listings are reported faithfully",
     "Every load result and call status of a function plugin is reported under its own name and class (loaded, skipped or failed), and a plugin's settings and the listing of its packages, services, functions and columns show exactly what was configured or described. A call's deadline is the moment its timeout is set plus the timeout, however large, and none when no timeout is set; debug messages appear only when enabled.",
     ["inputs", "configurations", "histories"], "every status and kind; all combinations of settings from small domains; all sequences of timeouts up to a length over values up to the largest; all listings up to a size",
     "No test in the build covers it; a timeout too large for the clock wrapped around and made every call fail at once.",
     [J + "udf/error_info.cpp", J + "udf/udf_config.cpp", J + "udf/generic_client_context.cpp", J + "udf/plugin_api.cpp", J + "udf/enum_types.h"],
     [("classification", J + "udf/error_info.cpp"), ("deadline", J + "udf/generic_client_context.cpp"), ("listing", J + "udf/plugin_api.cpp")],
     "The whole space within the bounds runs on the real code against frozen tables and independently written renderings.")
prop("C19", "States, kinds and options keep their names, numbers and order",
     "Every execution state, step and task kind, value kind and option value is shown under its own published name and keeps its published number, and the states of a step compare in the order of its life. Statuses are exactly one of success, warning or error, exceptions carry the status and text they were raised with, and the log form of a message is a single line from which the message can be read back.",
     ["inputs"], "every enumerator of every kind, every pair of step states, every status number in a range, all option and message values from small domains",
     "No test in the build lists them; a swapped name or number among dozens is invisible to sampling.",
     [J + "scheduler/step_state.h", J + "model/task.h", J + "model/step_kind.h", J + "serializer/entry_type.h", J + "executor/batch/batch_executor_option.cpp", J + "utils/proto_debug_string.cpp", J + "error.h", "include/jogasaki/api/kvsservice/commit_option.h"],
     [("names", J + "scheduler/step_state.h"), ("log form", J + "utils/proto_debug_string.cpp")],
     "Enumerated completely against frozen tables; messages are read back from their log form.")
prop("C20", "Identifier hashing never merges ids and random sequences have full period",
     "Mixing an identifier for hashing maps different identifiers to different values, and combining an identifier with different second parts gives different values. The pseudo random generators repeat the same sequence for the same seed, refuse a zero seed, and visit every nonzero value of their width before repeating.",
     ["inputs", "histories"], "the whole period of the 32-bit generator; the 64-bit one by the order of its transition matrix; all pairs of several hundred values and all values in dense and sparse patterns for the hashes",
     "No test in the build covers them; a wrong shift still looks random in samples.",
     ["include/jogasaki/utils/split_mix64.h", "include/jogasaki/utils/hash_combine.h", J + "utils/random.h"],
     [("mixing", "include/jogasaki/utils/split_mix64.h"), ("generators", J + "utils/random.h")],
     "All states of the 32-bit generator are visited; the 64-bit generator is a linear map whose order is computed exactly from the real code's matrix.")
prop("C21", "Result values keep their documented wire format",
     "Every result value is written as the bytes docs/data-serde-ja.md gives for it, and reading those bytes as their type gives the value back and consumes exactly them. A value that does not fit its buffer is refused with nothing written and the position unchanged; a truncated, reserved or otherwise malformed entry, or one of another type, raises an error without moving the position, whatever the bytes are.",
     ["inputs"], "all entry types over boundary values of every encoding, every buffer size around each entry, every truncation, all short byte strings",
     "Tests round-trip some values in a large buffer; a BLOB entry overran a nearly full one, and legal negative decimals were refused.",
     [J + "serializer/value_output.cpp", J + "serializer/value_input.cpp", J + "serializer/base128v.cpp", J + "serializer/value_writer.h"],
     [("encoding", J + "serializer/value_output.cpp"), ("decoding", J + "serializer/value_input.cpp")],
     "The real encoder and decoder (with stand-ins for the takatori value types) run over the whole space within the bounds against an independent implementation of the documented format.")
prop("C22", "Stored keys keep the order of values, and stored rows read back exactly",
     "Bytes of an index key compare as the values of its columns do, column by column, ascending or descending as declared, with NULL before every value in ascending order; equal values have equal keys. (Varying-length octet keys are only promised to be distinct.) Reading a stored key or row gives the value back (fixed-length text and octets padded, decimals at the scale of the column), skipping it consumes the same bytes, and the stored bytes are the documented ones. Data cut off or damaged is reported as corruption and never read past its end; a value its column cannot hold is refused with its own status.",
     ["inputs"], "all pairs of boundary values of every column type, both orders, nullable or not, every buffer size and truncation; all pairs of two column types for composite keys; patterns of damaged bytes",
     "The tests round-trip samples; an error in order or size shows only for a pair of values around a representation limit, a text cut at the very end was accepted and the position moved behind the data.",
     [J + "kvs/coder.cpp", J + "kvs/coder.h", J + "kvs/writable_stream.cpp", J + "kvs/writable_stream.h", J + "kvs/readable_stream.cpp", J + "kvs/readable_stream.h", J + "utils/coder.cpp", J + "utils/decimal.cpp"],
     [("writing", J + "kvs/writable_stream.h"), ("reading", J + "kvs/readable_stream.h"), ("null flags, corruption", J + "kvs/coder.cpp")],
     "The real coder (with stand-ins for takatori and mpdecimal, the latter compared with Python's decimal) runs over the whole space within the bounds against independently written key bytes.")
prop("C23", "Records keep their fields, and order, equality, hash and partition agree",
     "The fields of every record schema occupy aligned, disjoint memory inside the record, so that writing one leaves the others, and copies (whole, by field, through any values, deep or shallow) carry every value and NULL. Records compare field by field in the declared direction, NULL first and all NaNs equal and last; values that compare equal are equal, hash alike and go to the same partition. Record stores return every appended record once, in order, wherever memory placed it.",
     ["inputs", "histories", "configurations"], "all schemas of up to 3 of 14 field kinds with all nullabilities; all pairs of boundary values in all directions; all placements of records in memory up to a length",
     "The tests compare a few samples; NaNs with different bits were equal for the comparator but hashed to different groups.",
     [J + "meta/record_meta.cpp", J + "meta/impl/record_layout_creator.cpp", J + "accessor/record_copier.cpp", J + "utils/copy_field_data.cpp", J + "executor/comparator.h", J + "executor/less.h", J + "executor/equal_to.h", J + "executor/hash.h", J + "executor/partitioner.cpp", J + "data/iterable_record_store.cpp", J + "data/record_store.cpp", J + "data/small_record_store.cpp", J + "data/result_store.cpp"],
     [("layout", J + "meta/impl/record_layout_creator.cpp"), ("order", J + "executor/comparator.h"), ("hash", J + "executor/hash.h"), ("stores", J + "data/iterable_record_store.cpp")],
     "The real classes (with stand-ins for takatori's value types) run over the whole space within the bounds; decimals are left out of the hash claim, as their hash belongs to the absent library.")
prop("C24", "Sequences hand out every value once, and only committed changes survive",
     "The next value of a sequence is the previous one plus the increment while that stays inside its bounds, the far bound when it leaves them and the sequence cycles, and refused otherwise, exactly for all 64-bit parameters. Values obtained by transactions are made durable with their commit and are never handed out again after it, whatever aborts, crashes or storage faults happen in between; created sequences survive a restart, dropped ones stay away, a failed operation leaves what it found, and definition ids are never shared.",
     ["inputs", "histories", "crash_points", "fault_sequences"], "corner values of all parameters against 128-bit arithmetic; all histories of create, drop, next, commit, abort and restart up to a depth, and all of them with one storage fault at any operation",
     "Tests take a few values of an ordinary sequence; near the limits of int64 the distance of the bounds overflowed and legal values were refused.",
     [J + "executor/sequence/sequence.cpp", J + "executor/sequence/manager.cpp", J + "executor/sequence/metadata_store.cpp", J + "executor/sequence/info.cpp"],
     [("arithmetic", J + "executor/sequence/sequence.cpp"), ("durability", J + "executor/sequence/manager.cpp"), ("catalog", J + "executor/sequence/metadata_store.cpp")],
     "The real classes run on an in-memory stand-in for the storage engine that can crash and fail at any call. A failed create or drop is judged after the restart; a crash between DDL and its commit may leave an unused id.")
prop("C25", "Table locks exclude each other, references are counted, and lookups always end",
     "A table locked exclusively is held by one holder and by no shared one; shared locks do not exclude each other; a lock over several tables is taken completely or not at all, and every way of giving it up frees exactly its tables. Each transaction counts once in a table's references until it ends. Looking tables up by name or storage key while others create, drop and remove them always ends, and finds a table exactly while it exists.",
     ["schedules"], "all schedules up to a deviation bound of all pairs of locking programs, some triples, of threads adding references, and of all pairs of catalog changes and lookups",
     "The tests are single-threaded; a lookup of a name concurrent with the deletion of its table made both wait forever.",
     [J + "storage/storage_manager.cpp", J + "storage/unique_lock.cpp", J + "storage/shared_lock.cpp", J + "storage/reference_scope.cpp"],
     [("locking", J + "storage/storage_manager.cpp"), ("references", J + "storage/reference_scope.cpp"), ("lock counts", J + "storage/storage_manager.h")],
     "The real classes run under the controlled scheduler; TBB's concurrent containers are replaced by stand-ins with their documented behaviour, so that schedules branch at their operations.")
prop("C26", "Expressions are evaluated as SQL defines them",
     "Logic is three-valued; arithmetic on integers and decimals is exact (quotients of decimals to 38 digits) and on floats that of the machine, operands of different types meeting in the wider one; dividing by zero, or beyond the range of the result, is an arithmetic error and never ends the process; comparisons, IS [NOT] DISTINCT FROM, IS NULL/TRUE/FALSE/UNKNOWN and concatenation give the values of SQL, NULL operands included; CASE and COALESCE take the first branch that applies and evaluate no other; LIKE matches by characters, whatever their length in UTF-8, with any escape character. The overflow of + - * on integers is not covered.",
     ["inputs"], "all logic trees of a depth, all pairs of boundary numbers of five types under all operators against exact arithmetic, all small CASE and COALESCE tables with failing branches, all short texts against all short patterns and escapes",
     "Tests take single expressions; the smallest integer divided by -1 killed the server, and LIKE with backtracking accepted a part of a multi-byte character.",
     [J + "executor/expr/evaluator.cpp", J + "executor/equal_to.h", J + "executor/less.h", J + "executor/conv/unify.cpp"],
     [("operators", J + "executor/expr/evaluator.cpp"), ("LIKE", J + "executor/expr/evaluator.cpp"), ("type unification", J + "executor/conv/unify.cpp")],
     "Expression trees are built directly with a stand-in of takatori's classes and evaluated by the real evaluator; decimal arithmetic uses a stand-in of mpdecimal checked against Python's decimal.")
prop("C27", "Conversions between types keep the value, or say what was lost",
     "CAST, assignment, parameters, defaults and unification convert every value as SQL defines it: numbers exactly where the target can hold them, else toward zero or to its nearest limit; decimals at the target's precision and scale on whatever thread; texts by their numeric, boolean, octet or date and time meaning, spaces around it ignored; strings cut at a character boundary and padded to a fixed length. What is lost is lost as the policy says: silently, with a warning, or with an error of its own kind, and assignment reports the documented error code for it. A text that means nothing in the target type is a format error, an unsupported pair is refused, NULL stays NULL, and no input ends the process. Numbers written by a float's text form have its six digits.",
     ["inputs"], "boundary values of every type to 40 target types under all policies and settings; all short texts over a numeric alphabet to every type that reads them",
     "Tests convert samples, on threads that evaluated an expression before; on other threads decimals were rounded to 16 digits, a text of only spaces crashed, an infinite float overflowed DECIMAL(5,2).",
     [J + "executor/expr/details/cast_evaluation.cpp", J + "executor/expr/details/cast_evaluation.h", J + "executor/expr/details/cast_evaluation_temporal.cpp", J + "executor/expr/details/common.h", J + "executor/expr/evaluator.cpp", J + "executor/conv/assignment.cpp", J + "executor/conv/parameter_apply.cpp", J + "executor/conv/unify.cpp", J + "executor/conv/create_default_value.cpp"],
     [("numbers", J + "executor/expr/details/cast_evaluation.cpp"), ("lengths", J + "executor/expr/details/cast_evaluation.h"), ("error codes", J + "executor/conv/assignment.cpp")],
     "The real conversions run over the whole space within the bounds; the oracle computes in exact decimal arithmetic. The kind of the error is left open where a target is both unsupported and lossy, as is a padded text cut by an octet target.")
prop("C28", "Builtin scalar functions return what their documents say",
     "Every builtin scalar function (ABS, CEIL, FLOOR, ROUND, MOD, character and octet lengths, UPPER, LOWER, LTRIM, RTRIM, SUBSTRING, SUBSTR, POSITION, ENCODE, DECODE, the date and time functions) is registered with a body for each of its argument types and returns, for every argument of those types, the value its document in docs/ defines, of the declared type: exact numbers, whole characters of valid UTF-8 text, NULL for NULL and where the document says NULL, and an error with a diagnostic where it says error. No argument makes it loop, crash, wrap around or fail internally.",
     ["inputs"], "all short texts of valid and invalid units on both sides of the short string limit in all text functions with every position and length and the 64 bit limits; all pairs of boundary numbers of five types in the numeric functions; all short Base64 inputs",
     "Tests take samples; SUBSTRING(x FROM 1 FOR 9223372036854775807) never ended, and ROUND(-2147483644, -7) was positive.",
     [J + "executor/function/builtin_scalar_functions.cpp", J + "executor/function/builtin_scalar_functions.h", J + "executor/function/scalar_function_repository.cpp", "docs/round-ja.md", "docs/substring_substr-ja.md"],
     [("bodies", J + "executor/function/builtin_scalar_functions.cpp"), ("specification", "docs/round-ja.md")],
     "The real function bodies run over the whole space within the bounds against an independent reading of the documents. Overlong and surrogate UTF-8 forms, and UPPER, LOWER and trimming of invalid UTF-8, are left open.")
X = J + "executor/exchange/"
prop("C29", "Exchanges deliver, group and aggregate exactly the rows written",
     "Between two steps of a query, the rows readers get from an exchange are determined by the multiset of rows written, however the rows are spread over writers and partitions, in whatever order they come, and wherever buffers and hash tables flush. A forward exchange delivers every row once, in order, up to its limit; a group exchange delivers one group per distinct key (NULLs group together), each complete, with its members in the requested order and cut at the limit; an aggregate exchange delivers one row per key (one row even without input, when there is no key) with COUNT, COUNT DISTINCT, SUM, AVG, MIN and MAX over exactly the non-NULL values of that key.",
     ["inputs", "histories"], "all short row sequences over all types with NULL, NaN and signed zeros, all assignments to writers, flush points, partition counts, table sizes, limits and member orders",
     "Tests fix one order, one partitioning and one buffer size; with the sorted vector reader, groups were split wherever the sort column changed.",
     [X + "group/*", X + "aggregate/*", X + "forward/*", X + "shuffle/*", J + "executor/function/builtin_functions.cpp", J + "executor/function/incremental/builtin_functions.cpp"],
     [("group reader", X + "group/sorted_vector_reader.cpp"), ("merging reader", X + "group/priority_queue_reader.cpp"), ("aggregating partition", X + "aggregate/input_partition.cpp"), ("functions", J + "executor/function/incremental/builtin_functions.cpp")],
     "The real flows run over the whole space within the bounds and are compared with a reference over multisets of rows. Overflow of integer SUM and AVG, grouping of decimals that differ only in exponent (decided by the decimal library), and concurrent use of one forward partition (never done by the scheduler) are not claimed.")
prop("C30", "Every statement request is answered once, in order, and leaves nothing behind",
     "However worker threads interleave, a statement request (query, write or DDL, resolved or not, synchronous or not) is answered exactly once, when none of its work runs any more; it is answered ok only if all of its work was done, and an error answer carries a diagnostic. Steps of a query are activated and deactivated once, run only after the steps before them ended, and each task runs to its end once. Requests that are refused (ended transaction, table under DDL, no result, failing resolution) or that fail by error or exception are answered in the same way. Afterwards the job is gone, the request is released, and the transaction can still be ended; a transaction is committed or aborted at most once and never while work of a statement uses it, and tasks bound to a transaction do not run at the same time.",
     ["schedules", "histories"], "all schedules with one preemption of main thread, clients and two workers, over query graphs, writes and DDL x outcome of each step x scheduler kinds and in-place settings x refusals x concurrent abort or commit",
     "Tests run each request under one schedule of real threads; a teardown that overtakes a task, or a commit that overtakes a write, needs one particular interleaving.",
     [J + "executor/executor.cpp", J + "scheduler/*", J + "transaction_context.cpp", J + "request_context.cpp", J + "commit_common.cpp", J + "durability_common.cpp"],
     [("request entry points", J + "executor/executor.cpp"), ("tasks and teardown", J + "scheduler/flat_task.cpp"), ("dag", J + "scheduler/dag_controller_impl.cpp"), ("transaction use counts", J + "transaction_context.cpp")],
     "The real entry points, schedulers, dag controller, tasks, job and transaction contexts run on worker fibers under the schedule-exploring engine; the storage engine's transaction and the bodies of steps are stand-ins that record what happens to them. The database object, statement compilation and the external worker pool are stand-ins. The order in which rows flow through steps is C29's.")
prop("C31", "Every commit is answered once, truthfully, at the point that was asked for",
     "However worker threads, the storage engine and the log interleave, a commit request is answered exactly once: ok as accepted only after the engine committed the transaction, ok as stored only when the log is durable up to its marker, an error with a diagnostic if and only if the engine refused it, the transaction was already being ended, its work was still going on, or the client cancelled while it waited for the log. When it is answered, the tables it locked are free, the state of the transaction says what happened, and its handle was disposed of once if that was asked for and the commit succeeded. Of several commits of one transaction one is done. Afterwards the job is gone, the request and the transaction are released, never from inside the engine, and nothing waits for the log.",
     ["schedules", "histories"], "all schedules with one preemption of client/engine thread and two workers, over response kinds x engine outcomes now and later x epochs before, between and after x cancellation x one or two transactions x scheduler and callback settings",
     "Tests see one order of commit callback, durability report and teardown; an answer that comes before the marker is durable, or before the locks are released, needs one particular interleaving.",
     [J + "executor/executor.cpp", J + "durability_callback.cpp", J + "durability_manager.cpp", J + "durability_common.cpp", J + "commit_common.cpp", J + "commit_context.h", J + "transaction_context.cpp", J + "transaction_state.cpp"],
     [("commit", J + "executor/executor.cpp"), ("durability callback", J + "durability_callback.cpp"), ("wait list", J + "durability_manager.cpp"), ("answer", J + "durability_common.cpp")],
     "The real commit path, durability callback and wait list, schedulers, jobs and transaction contexts run under the schedule-exploring engine; the storage engine and the log are scripted. A commit that joins the wait list just after the last epoch it needed is answered at the next epoch, which the code relies on too; the check reports further epochs once everything is quiet. Shutdown (stop requested) is not covered.")
O = J + "executor/process/impl/ops/"
prop("C32", "A query returns exactly the rows its plan stands for",
     "For every content of the tables, a query answered ok returns exactly the multiset of rows its relational plan denotes, in order where it orders or limits them: scans and finds over primary and secondary indexes (ascending, descending, bounded, with NULL in any nullable key column), filters, projections, literal rows, inner, outer, semi and anti joins by key or through an index with or without a further condition, grouping, aggregation, DISTINCT, LIMIT, UNION, EXCEPT and INTERSECT, with host variables of any compatible type. An outer join gives one null-extended row for a row without partner and none otherwise. The rows do not depend on the number of partitions, on where scans yield their thread, or on block sizes, and each query is answered once.",
     ["inputs", "histories"], "all contents of up to two rows per table over NULL and two or three values per column x every statement shape x two engine set-ups (partitions, block sizes, yields at each row)",
     "Tests fix one content per statement; a join whose first candidate fails the condition, a negative parameter of a wider host variable, or a limit met by two branches of a UNION needs particular rows.",
     [O + "*", J + "plan/compiler.cpp", J + "executor/process/*", J + "executor/exchange/*", J + "executor/executor.cpp", J + "index/*"],
     [("plan to operators", O + "operator_builder.cpp"), ("index join", O + "index_join.h"), ("join", O + "join.h"), ("scan", O + "scan.cpp"), ("plan compiler", J + "plan/compiler.cpp")],
     "The real plan compiler (after the analyzer's step plan, which the check builds), operators, exchanges, processors, task scheduler and request entry point run over an in-memory engine; the reference evaluates the same plan over lists of rows. Parsing and optimisation are other repositories.")
prop("C33", "A data changing statement does all of what it says, in every index, or nothing",
     "INSERT (plain, IF NOT EXISTS, OR REPLACE; of literal rows, parameters or a query), UPDATE and DELETE change the table to exactly the rows the statement stands for, with defaults for omitted columns, and give every secondary index exactly one entry for each row, whatever its columns, directions and NULLs and even when the primary key is updated; the reported counts are those of the rows. The transaction sees its own changes, others see none before the commit; commit keeps them in all indexes, abort leaves none. A statement in error (a duplicate key, NULL in a NOT NULL column, an expression that cannot be evaluated, or a failure of any storage operation, at whichever row) leaves no part of its effect that could still be committed.",
     ["inputs", "histories", "fault_sequences"], "all contents of up to two rows x every statement, pairs of statements in a transaction, commit or abort, and a failure of every single storage operation with each kind of engine error",
     "Tests look at the table after a successful statement; entries left in a secondary index after an error in the middle of a statement appear only with a fault at one operation, or at the second row.",
     [O + "write_create.cpp", O + "write_existing.cpp", J + "executor/wrt/*", J + "executor/common/write_statement.cpp", J + "index/*", J + "executor/executor.cpp"],
     [("update and delete", O + "write_existing.cpp"), ("insert from a query", O + "write_create.cpp"), ("insert", J + "executor/wrt/insert_new_record.cpp"), ("secondary entries", J + "index/secondary_target.cpp"), ("end of the request", J + "executor/executor.cpp")],
     "The real statements run as in C32 over an in-memory engine that can fail any call; the stored images of all indexes are compared with those of inserting the expected rows afresh. A concurrent-operation report on reading an entry (the row is just being inserted elsewhere) is injected on iterators only. LOB columns are C07's and C23's.")
prop("C34", "The definition of a table or index survives being stored",
     "For every definition of a table or index that can be created, the metadata written for it reads back, into an empty or an existing catalog, as the same table, columns, types, nullability, defaults, sequences, keys, directions, features and privileges, and is written again as the same bytes. Reading a definition whose name exists is refused without any change, or with overwrite replaces exactly that entry; merging a catalog moves every entry. Metadata that is cut short, of an incompatible version, or that names what does not exist is refused.",
     ["inputs"], "definitions over all types, defaults, names, key and value combinations, features and privileges of a bounded alphabet; every truncation and version of a stored definition",
     "Tests write a few definitions; a default at the edge of its type, a direction, or a flag that is lost shows only after a restart, when the data can no longer be read as it was written.",
     [J + "utils/storage_metadata_serializer.cpp", J + "recovery/storage_options.cpp", J + "auth/fill_action_set.cpp", J + "proto/metadata/storage.proto"],
     [("serializer", J + "utils/storage_metadata_serializer.cpp"), ("envelope, validation, merge", J + "recovery/storage_options.cpp"), ("privileges", J + "auth/fill_action_set.cpp")],
     "The real serializer, validation, deserialization and merge run over stand-ins for the catalog classes of the SQL compiler (tables, indexes, sequences, providers) and the generated message classes.")
prop("C35", "DDL keeps every place that describes a table in agreement, or fails whole",
     "After any history of CREATE, DROP and TRUNCATE of tables and indexes, GRANT, REVOKE, INSERT and clean-up, by users with or without the privilege and beside other transactions, the catalog, the storage manager, the names and keys of storages, the stored metadata, the sequences, the privileges and the rows are those of the statements answered ok. A statement that cannot be carried out (the name is taken or missing, the table is locked by another DDL, the privilege is missing) is refused, and a statement refused, or failing in any call of the engine, changes nothing, so that it works when repeated. Locks end with the transaction, and a dropped or replaced storage is deleted by the clean-up exactly once, not while a transaction uses it, with nothing left of it.",
     ["histories", "fault_sequences"], "all histories of three of 30 statements after six starts, with surrogate keys and with names as keys; each single failure of an engine call in the last statement of a history, with two kinds of error",
     "Tests look at the table after the statement; an index that still refers to the table before a TRUNCATE, or a name left taken after a failure, shows only in a later statement or after one particular failure.",
     [J + "executor/common/*", J + "storage/*", J + "recovery/storage_options.cpp", J + "executor/sequence/*", J + "auth/*", J + "utils/storage_utils.cpp"],
     [("create", J + "executor/common/create_table.cpp"), ("drop", J + "executor/common/drop_table.cpp"), ("truncate", J + "executor/common/truncate_table.cpp"), ("privileges", J + "executor/common/process_grant_revoke.cpp"), ("entries and locks", J + "storage/storage_manager.cpp"), ("clean-up", J + "storage/maintenance_storage.cpp")],
     "The real statements run through the request entry point over an in-memory engine; the reference is a small model of what exists. One call fails per history, and of the metadata writes of a statement only the first; failures of looking up a storage are not injected (the code treats them as fatal). Three ways in which a failing TRUNCATE or DROP loses part of the table are known findings.")
