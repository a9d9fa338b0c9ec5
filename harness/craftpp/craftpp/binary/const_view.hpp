#pragma once

#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <initializer_list>
#include <span>
#include <string_view>
#include <vector>

#include <craftpp/binary/endian.hpp>
#include <craftpp/maybe/maybe.hpp>

namespace craftpp::binary {

class ConstView {
public:
    using ByteVec = std::vector<uint8_t>;
    using value_type = uint8_t;

    struct Interval {
        size_t offset;
        size_t count;
        friend bool operator==(const Interval&, const Interval&) = default;
    };

    ConstView() = default;
    ConstView(const void *ptr, size_t size) : m_ptr(reinterpret_cast<const uint8_t *>(ptr)), m_size(size) {}
    explicit ConstView(const ByteVec& v) : m_ptr(v.data()), m_size(v.size()) {}
    template<size_t N> explicit ConstView(const std::array<uint8_t, N>& v) : m_ptr(v.data()), m_size(N) {}
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Winit-list-lifetime"
    explicit ConstView(std::initializer_list<uint8_t> v) : m_ptr(v.begin()), m_size(v.size()) {}
#pragma GCC diagnostic pop
    ConstView(const ConstView&) = default;
    ConstView& operator=(const ConstView&) = default;

    size_t size() const noexcept { return m_size; }
    bool empty() const noexcept { return m_size == 0; }
    const uint8_t *data() const noexcept { return m_ptr; }
    const uint8_t *begin() const noexcept { return m_ptr; }
    const uint8_t *end() const noexcept { return m_ptr + m_size; }
    uint8_t operator[](size_t i) const { return m_ptr[i]; }

    bool contains(const Interval& i) const noexcept {
        return i.offset <= m_size && i.count <= m_size - i.offset;
    }
    maybe::Maybe<ConstView> subview(const Interval& i) const {
        if (!contains(i)) { return maybe::none(); }
        return ConstView(m_ptr + i.offset, i.count);
    }
    maybe::Maybe<ConstView> subview(size_t offset, size_t count) const { return subview(Interval{offset, count}); }
    maybe::Maybe<ConstView> subview(size_t offset) const {
        if (offset > m_size) { return maybe::none(); }
        return ConstView(m_ptr + offset, m_size - offset);
    }
    ConstView assured_subview(const Interval& i) const { return ConstView(m_ptr + i.offset, i.count); }
    ConstView assured_subview(size_t offset, size_t count) const { return ConstView(m_ptr + offset, count); }
    ConstView assured_subview(size_t offset) const { return ConstView(m_ptr + offset, m_size - offset); }

    uint8_t assured_read_u8(size_t o) const { return m_ptr[o]; }
    uint16_t assured_read_u16be(size_t o) const { return (uint16_t)rd<2>(o); }
    uint32_t assured_read_u32be(size_t o) const { return (uint32_t)rd<4>(o); }
    uint64_t assured_read_u64be(size_t o) const { return rd<8>(o); }
    maybe::Maybe<uint8_t> read_u8(size_t o) const {
        if (!contains({o, 1})) { return maybe::none(); }
        return assured_read_u8(o);
    }
    maybe::Maybe<uint16_t> read_u16be(size_t o) const {
        if (!contains({o, 2})) { return maybe::none(); }
        return assured_read_u16be(o);
    }
    maybe::Maybe<uint32_t> read_u32be(size_t o) const {
        if (!contains({o, 4})) { return maybe::none(); }
        return assured_read_u32be(o);
    }
    maybe::Maybe<uint64_t> read_u64be(size_t o) const {
        if (!contains({o, 8})) { return maybe::none(); }
        return assured_read_u64be(o);
    }

    static ByteVec concat(const std::vector<ConstView>& views) {
        ByteVec result;
        for (const auto& v: views) { result.insert(result.end(), v.begin(), v.end()); }
        return result;
    }

    friend bool operator==(const ConstView& a, const ConstView& b) noexcept {
        return a.m_size == b.m_size && std::equal(a.begin(), a.end(), b.begin());
    }

private:
    template<size_t N> uint64_t rd(size_t o) const {
        uint64_t v = 0;
        for (size_t i = 0; i < N; ++i) { v = (v << 8) | m_ptr[o + i]; }
        return v;
    }
    const uint8_t *m_ptr = nullptr;
    size_t m_size = 0;
};

}
