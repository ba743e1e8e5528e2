#pragma once
#include "common.hpp"
template<> neolib::i_async_task& neolib::services::start_service<neolib::i_async_task>();
namespace ecs_sim
{
    namespace ne = neolib::ecs;
    struct pumped_task : neolib::async_task { pumped_task() : neolib::async_task{ "ecs task" } {} bool work() { return static_cast<neolib::i_task&>(*this).do_work(neolib::yield_type::NoYield); } };
    inline ne::ecs* sWorldReleases; inline int sReleasedTwice;
    struct data_a
    {
        std::uint64_t v; std::string payload; inline static std::atomic<int> sLive{ 0 };
        static std::string text(std::uint64_t v) { return std::string(18 + (v & 15), (char)('a' + v % 26)); }
        data_a(std::uint64_t v = 0) : v{ v }, payload{ text(v) } { ++sLive; }
        data_a(data_a const& o) : v{ o.v }, payload{ o.payload } { ++sLive; }
        data_a(data_a&& o) noexcept : v{ o.v }, payload{ std::move(o.payload) } { ++sLive; }
        data_a& operator=(data_a const& o) { std::string p{ o.payload }; payload = std::move(p); v = o.v; return *this; }
        data_a& operator=(data_a&& o) noexcept { v = o.v; std::string p{ std::move(o.payload) }; payload = std::move(p); return *this; }
        ~data_a() { --sLive; }
        bool whole() const { return payload == text(v); }
        struct meta : ne::i_component_data::meta
        {
            static neolib::uuid const& id() { static neolib::uuid const s{ 0x1, 0x2, 0x3, 0x4, { 0, 0, 0, 0, 0, 1 } }; return s; }
            static neolib::i_string const& name() { static neolib::string const s = "A"; return s; }
            static uint32_t field_count() { return 0; } static ne::component_data_field_type field_type(uint32_t) { throw invalid_field_index(); } static neolib::i_string const& field_name(uint32_t) { throw invalid_field_index(); }
        };
    };
    struct data_b
    {
        std::uint64_t v;
        struct meta : ne::i_component_data::meta
        {
            static neolib::uuid const& id() { static neolib::uuid const s{ 0x1, 0x2, 0x3, 0x4, { 0, 0, 0, 0, 0, 2 } }; return s; }
            static neolib::i_string const& name() { static neolib::string const s = "B"; return s; }
            static uint32_t field_count() { return 0; } static ne::component_data_field_type field_type(uint32_t) { throw invalid_field_index(); } static neolib::i_string const& field_name(uint32_t) { throw invalid_field_index(); }
        };
    };
    struct data_c
    {
        std::uint64_t v;
        struct meta : ne::i_component_data::meta
        {
            static neolib::uuid const& id() { static neolib::uuid const s{ 0x1, 0x2, 0x3, 0x4, { 0, 0, 0, 0, 0, 4 } }; return s; }
            static neolib::i_string const& name() { static neolib::string const s = "C"; return s; }
            static uint32_t field_count() { return 0; } static ne::component_data_field_type field_type(uint32_t) { throw invalid_field_index(); } static neolib::i_string const& field_name(uint32_t) { throw invalid_field_index(); }
        };
    };
    struct data_h
    {
        std::uint64_t v; ne::handle_id handle;
        struct meta : ne::i_component_data::meta
        {
            static constexpr bool has_handles = true;
            static void free_handles(data_h& d, ne::i_ecs& e) { if (e.to_handle<void*>(d.handle) == nullptr) ++sReleasedTwice; e.release_handle<void*>(d.handle); }
            static neolib::uuid const& id() { static neolib::uuid const s{ 0x1, 0x2, 0x3, 0x4, { 0, 0, 0, 0, 0, 3 } }; return s; }
            static neolib::i_string const& name() { static neolib::string const s = "H"; return s; }
            static uint32_t field_count() { return 0; } static ne::component_data_field_type field_type(uint32_t) { throw invalid_field_index(); } static neolib::i_string const& field_name(uint32_t) { throw invalid_field_index(); }
        };
    };
}
