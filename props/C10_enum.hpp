#pragma once
#include <neolib/core/i_enum.hpp>
#include <neolib/core/enum.hpp>
namespace verif { enum class kind : std::uint32_t { Int, Real, Text }; }
begin_declare_enum(verif::kind)
declare_enum_string(verif::kind, Int)
declare_enum_string(verif::kind, Real)
declare_enum_string(verif::kind, Text)
end_declare_enum(verif::kind)
