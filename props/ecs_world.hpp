// What ECS checks need around them: services and an ECS without threads of its own.
#pragma once
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <neolib/core/service.hpp>
#include <neolib/task/async_task.hpp>
#include <neolib/ecs/ecs.hpp>
#include <neolib/ecs/entity.hpp>
#include <neolib/ecs/entity_info.hpp>
#include <neolib/ecs/entity_archetype.hpp>
#include <neolib/ecs/component.hpp>
#include <optional>
#include <map>
#include <set>

namespace world
{
    namespace E = neolib::ecs;
    struct Task : neolib::async_task { Task() : async_task{ "world" } {} using async_task::do_work; };
    inline Task& task() { static Task sTask; return sTask; }
    inline void services()
    {
        static bool const sReady = (neolib::allocate_service_provider(), task(), true); (void)sReady;
    }
    inline void strategy(int k)
    {
        services(); static E::ecs_locking_strategy const s[] = { E::ecs_locking_strategy::MultiThreaded, E::ecs_locking_strategy::SingleThreaded, E::ecs_locking_strategy::MultiThreadedProfiled, E::ecs_locking_strategy::MultiThreadedSpinlock };
        neolib::service<E::i_ecs_params>().set_locking_strategy(s[k]);
    }
    template <int N> struct meta : E::i_component_data::meta
    {
        static neolib::uuid const& id() { static neolib::uuid const s{ 0x1000u + N, 2, 3, 4, { 1, 2, 3, 4, 5, 6 } }; return s; }
        static neolib::i_string const& name() { static neolib::string const s{ "Number" }; return s; }
        static std::uint32_t field_count() { return 1; }
        static E::component_data_field_type field_type(std::uint32_t i) { if (i) throw E::i_component_data::meta::invalid_field_index(); return E::component_data_field_type::Int32; }
        static neolib::i_string const& field_name(std::uint32_t) { static neolib::string const s{ "Value" }; return s; }
    };
}
template <> neolib::i_async_task& neolib::services::start_service<neolib::i_async_task>() { return world::task(); }
