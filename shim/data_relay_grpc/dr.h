// Stand-in for the data relay library (absent here).
#pragma once
#include <cstdint>
#include <filesystem>
#include <memory>
#include <optional>
#include <vector>
namespace data_relay_grpc::common {
class blob_session {
public:
    using session_id_type = std::uint64_t; using blob_id_type = std::uint64_t; using blob_path_type = std::filesystem::path; using blob_tag_type = std::uint64_t; using transaction_id_type = std::uint64_t;
    virtual ~blob_session() = default;
    virtual session_id_type session_id() const { return 0; }
    virtual blob_id_type add(blob_path_type) { return 0; }
    virtual std::optional<blob_path_type> find(blob_id_type) const { return {}; }
    virtual std::vector<blob_id_type> entries() const { return {}; }
    virtual blob_tag_type compute_tag(blob_id_type) const { return 0; }
    virtual void dispose() {}
};
}
namespace data_relay_grpc::blob_relay {
class blob_relay_service {
public:
    virtual ~blob_relay_service() = default;
    virtual common::blob_session& create_session(std::optional<std::uint64_t> = {}) = 0;
};
}
