// A paged_memory_resource whose every allocation is its own heap block of exactly the requested size, so that the
// address sanitizer sees any access outside it.
#pragma once
#include <cstdlib>
#include <map>
#include <vector>
#include <jogasaki/memory/paged_memory_resource.h>
namespace vf {
class exact_resource : public jogasaki::memory::paged_memory_resource {
public:
    ~exact_resource() override { for (auto* p : blocks_) std::free(p); }
    void end_current_page() override {}
    void clear() { for (auto* p : blocks_) std::free(p); blocks_.clear(); bytes_ = 0; }
    std::size_t count() const { return blocks_.size(); }
    std::size_t bytes() const { return bytes_; }
protected:
    void* do_allocate(std::size_t bytes, std::size_t alignment) override {
        void* p{};
        if (posix_memalign(&p, alignment < sizeof(void*) ? sizeof(void*) : alignment, bytes ? bytes : 1) != 0) std::abort();
        blocks_.push_back(p);
        bytes_ += bytes;
        return p;
    }
    void do_deallocate(void*, std::size_t, std::size_t) override {}
    bool do_is_equal(boost::container::pmr::memory_resource const& o) const noexcept override { return this == &o; }
    std::size_t do_page_remaining(std::size_t) const noexcept override { return unknown_size; }
private:
    std::vector<void*> blocks_;
    std::size_t bytes_{};
};
} // namespace vf
