// Element type that notices missed, doubled or misplaced construction and destruction.
#pragma once
#include "pbt.hpp"
#include <compare>
#include <ostream>
#include <functional>

namespace pbt
{
    struct Tracked
    {
        static inline long live = 0;
        static inline std::string error;
        static void reset() { live = 0; error.clear(); }
        static void bad(char const* what) { if (error.empty()) error = what; }
        static constexpr std::uint32_t kAlive = 0x1ab0a11e, kDead = 0xdeadbeef;

        int v;
        std::uint32_t state;
        Tracked* self;
        char* heap; // so that lost or doubled destruction is also an ASan matter

        Tracked() : Tracked{ 0 } {}
        Tracked(int x) : v{ x }, state{ kAlive }, self{ this }, heap{ new char{ 'x' } } { ++live; }
        Tracked(Tracked const& o) : v{ o.v }, state{ kAlive }, self{ this }, heap{ new char{ 'x' } } { o.check("copy-construct from dead element"); ++live; }
        Tracked(Tracked&& o) noexcept : v{ o.v }, state{ kAlive }, self{ this }, heap{ new char{ 'x' } } { o.check("move-construct from dead element"); if (this != &o) o.v = -7777; ++live; }
        Tracked& operator=(Tracked const& o) { check("assign to dead element"); o.check("assign from dead element"); v = o.v; return *this; }
        Tracked& operator=(Tracked&& o) noexcept { check("move-assign to dead element"); o.check("move-assign from dead element"); if (this != &o) { v = o.v; o.v = -7777; } return *this; }
        ~Tracked() { check("destroy dead element"); state = kDead; --live; delete heap; heap = nullptr; }
        void check(char const* w) const { if (state != kAlive || self != this) bad(w); }
        friend bool operator==(Tracked const& a, Tracked const& b) { a.check("compare dead element"); b.check("compare dead element"); return a.v == b.v; }
        friend auto operator<=>(Tracked const& a, Tracked const& b) { a.check("compare dead element"); b.check("compare dead element"); return a.v <=> b.v; }
        friend std::ostream& operator<<(std::ostream& o, Tracked const& t) { return o << t.v; }
    };
}
namespace std { template <> struct hash<pbt::Tracked> { size_t operator()(pbt::Tracked const& t) const noexcept { return std::hash<int>{}(t.v); } }; }
