// A bed for whole statements: what yugawara would give for a statement is built here together with the rows the statement stands for; the real
// compiler, step graph, processes, exchanges, relational operators, write operators and index access run it over the in-memory stand-in of the
// storage engine. Stand-ins: the parser and analyzer (the statement is built, not parsed) and the database object, reduced to its accessors.
#pragma once
#include "vf.h"
#include <jogasaki/api/impl/database.h>
#include <jogasaki/api/impl/executable_statement.h>
#include <jogasaki/api/impl/parameter_set.h>
#include <jogasaki/api/impl/prepared_statement.h>
#include <jogasaki/api/impl/result_set.h>
#include <jogasaki/api/impl/result_store_channel.h>
#include <jogasaki/api/record.h>
#include <jogasaki/api/result_set_iterator.h>
#include <jogasaki/durability_manager.h>
#include <jogasaki/executor/executor.h>
#include <jogasaki/executor/file/arrow_writer.h>
#include <jogasaki/executor/file/loader.h>
#include <jogasaki/executor/file/parquet_writer.h>
#include <jogasaki/executor/function/builtin_functions.h>
#include <jogasaki/executor/function/incremental/builtin_functions.h>
#include <jogasaki/executor/global.h>
#include <jogasaki/executor/sequence/manager.h>
#include <jogasaki/kvs/database.h>
#include <jogasaki/kvs/transaction.h>
#include <jogasaki/memory/lifo_paged_memory_resource.h>
#include <jogasaki/plan/compiler.h>
#include <jogasaki/plan/compiler_context.h>
#include <jogasaki/plan/prepared_statement.h>
#include <jogasaki/request_statistics.h>
#include <jogasaki/scheduler/hybrid_task_scheduler.h>
#include <jogasaki/scheduler/serial_task_scheduler.h>
#include <jogasaki/scheduler/stealing_task_scheduler.h>
#include <jogasaki/storage/storage_manager.h>
#include <jogasaki/transaction_context.h>
#include <mizugaki/mz.h>
#include <sharksfin/mem.h>
#include <yugawara/yg.h>
#include <algorithm>
using namespace jogasaki; namespace mem = sharksfin::mem;
namespace sqlbed {
inline std::shared_ptr<kvs::database> kvs{};
inline std::shared_ptr<yugawara::storage::configurable_provider> tables{};
inline std::shared_ptr<yugawara::aggregate::configurable_provider> aggregates{};
inline executor::sequence::manager* sequences{};
inline std::shared_ptr<yugawara::function::configurable_provider> functions{};
}
namespace jogasaki::api::impl {
database::database(std::shared_ptr<class configuration> c) : cfg_(std::move(c)) {
    durability_manager_ = std::make_shared<durability_manager>(); kvs_db_ = sqlbed::kvs; tables_ = sqlbed::tables;
    if (cfg_->single_thread()) task_scheduler_ = std::make_shared<scheduler::serial_task_scheduler>(); else if (cfg_->enable_hybrid_scheduler()) task_scheduler_ = std::make_shared<scheduler::hybrid_task_scheduler>(scheduler::thread_params{cfg_}); else task_scheduler_ = std::make_shared<scheduler::stealing_task_scheduler>(scheduler::thread_params{cfg_});
}
status database::start() { return status::ok; }
status database::stop() { stop_requested_ = true; return status::ok; }
status database::prepare(std::string_view, api::statement_handle&) { return status::ok; }
status database::prepare(std::string_view, std::unordered_map<std::string, api::field_type_kind> const&, api::statement_handle&) { return status::ok; }
status database::create_executable(std::string_view, std::unique_ptr<api::executable_statement>&) { return status::ok; }
status database::resolve(api::statement_handle, maybe_shared_ptr<api::parameter_set const>, std::unique_ptr<api::executable_statement>&) { return status::ok; }
status database::destroy_statement(api::statement_handle) { return status::ok; }
status database::destroy_transaction(api::transaction_handle) { return status::ok; }
status database::explain(api::executable_statement const&, std::ostream&) { return status::ok; }
status database::dump(std::ostream&, std::string_view, std::size_t) { return status::ok; }
status database::load(std::istream&, std::string_view, std::size_t) { return status::ok; }
status database::do_create_transaction(transaction_handle&, transaction_option const&) { return status::ok; }
scheduler::job_context::job_id_type database::do_create_transaction_async(create_transaction_callback, transaction_option const&) { return 0; }
std::shared_ptr<class configuration>& database::config() noexcept { return cfg_; }
std::shared_ptr<class configuration> const& database::configuration() const noexcept { return cfg_; }
void database::print_diagnostic(std::ostream&) {}
std::string database::diagnostic_string() { return {}; }
status database::list_tables(std::vector<std::string>&) { return status::ok; }
status database::do_create_table(std::shared_ptr<yugawara::storage::table>, std::string_view) { return status::ok; }
std::shared_ptr<yugawara::storage::table const> database::do_find_table(std::string_view, std::string_view) { return {}; }
status database::do_drop_table(std::string_view, std::string_view) { return status::ok; }
status database::do_create_index(std::shared_ptr<yugawara::storage::index>, std::string_view) { return status::ok; }
std::shared_ptr<yugawara::storage::index const> database::do_find_index(std::string_view, std::string_view) { return {}; }
status database::do_drop_index(std::string_view, std::string_view) { return status::ok; }
status database::do_create_sequence(std::shared_ptr<yugawara::storage::sequence>, std::string_view) { return status::ok; }
std::shared_ptr<yugawara::storage::sequence const> database::do_find_sequence(std::string_view, std::string_view) { return {}; }
status database::do_drop_sequence(std::string_view, std::string_view) { return status::ok; }
std::shared_ptr<kvs::database> const& database::kvs_db() const noexcept { return kvs_db_; }
std::shared_ptr<yugawara::storage::configurable_provider> const& database::tables() const noexcept { return tables_; }
scheduler::task_scheduler* database::task_scheduler() const noexcept { return task_scheduler_.get(); }
std::shared_ptr<scheduler::task_scheduler> const& database::scheduler() const noexcept { return task_scheduler_; }
executor::sequence::manager* database::sequence_manager() const noexcept { return sqlbed::sequences; }
bool database::stop_requested() const noexcept { return stop_requested_; }
utils::use_counter const& database::requests_inprocess() const noexcept { return requests_inprocess_; }
std::shared_ptr<durability_manager> const& database::durable_manager() const noexcept { return durability_manager_; }
status database::resolve_common(impl::prepared_statement const& p, maybe_shared_ptr<api::parameter_set const> parameters, std::unique_ptr<api::executable_statement>& s, std::shared_ptr<error::error_info>& e) {
    auto resource = std::make_shared<memory::lifo_paged_memory_resource>(&global::page_pool()); auto ctx = std::make_shared<plan::compiler_context>();
    ctx->resource(resource); ctx->storage_provider(tables_); ctx->aggregate_provider(sqlbed::aggregates); ctx->function_provider(sqlbed::functions);
    auto& ps = p.body(); ctx->variable_provider(ps->host_variables()); ctx->prepared_statement(ps);
    auto params = static_cast<impl::parameter_set const&>(*parameters).body();
    if (auto rc = plan::compile(*ctx, params.get()); rc != status::ok) { e = ctx->error_info(); return rc; }
    s = std::make_unique<impl::executable_statement>(ctx->executable_statement(), std::move(resource), std::move(parameters)); return status::ok;
}
}
namespace jogasaki::api::impl {
std::shared_ptr<transaction_context> database::find_transaction(api::transaction_handle) { return {}; }
std::shared_ptr<prepared_statement> database::find_statement(api::statement_handle) { return {}; }
}
namespace jogasaki::executor::file {
std::shared_ptr<arrow_writer> arrow_writer::open(maybe_shared_ptr<meta::external_record_meta>, std::string_view, arrow_writer_option) { return {}; }
std::shared_ptr<parquet_writer> parquet_writer::open(maybe_shared_ptr<meta::external_record_meta>, std::string_view, parquet_writer_option) { return {}; }
loader::loader(std::vector<std::string>, std::shared_ptr<api::impl::prepared_statement>, maybe_shared_ptr<api::parameter_set const>, std::shared_ptr<transaction_context>, api::impl::database&, std::size_t) noexcept {}
loader_result loader::operator()() { return loader_result::ok; }
std::pair<status, std::string> loader::error_info() const noexcept { return {status::err_io_error, "load"}; }
}
