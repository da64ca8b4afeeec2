// A01: settings. Part 0: histories of edits, applies, saves and new instances against a model, and damaged files.
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <neolib/app/settings.hpp>
#include <neolib/core/service.hpp>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <optional>

using namespace pbt; namespace nl = neolib;

namespace neolib { enum class Colour : std::uint32_t { Red, Green, Blue = 7 }; enum class Small : std::int8_t { Minus = -1, Nought, One }; }
begin_declare_enum(neolib::Colour)
declare_enum_string(neolib::Colour, Red)
declare_enum_string(neolib::Colour, Green)
declare_enum_string_explicit(neolib::Colour, Blue, Bleu)
end_declare_enum(neolib::Colour)
begin_declare_enum(neolib::Small)
declare_enum_string(neolib::Small, Minus)
declare_enum_string(neolib::Small, Nought)
declare_enum_string(neolib::Small, One)
end_declare_enum(neolib::Small)

namespace
{
    using neolib::Colour; using neolib::Small;
    template <typename T> T value(Source& s)
    {
        if constexpr (std::is_same_v<T, bool>) return s.coin();
        else if constexpr (std::is_same_v<T, Colour>) return s.pick({ Colour::Red, Colour::Green, Colour::Blue });
        else if constexpr (std::is_same_v<T, Small>) return s.pick({ Small::Minus, Small::Nought, Small::One });
        else if constexpr (std::is_integral_v<T>) return s.coin() ? static_cast<T>(s.below(4)) : static_cast<T>(s.edgy());
        else if constexpr (std::is_floating_point_v<T>)
        {
            switch (s.below(4)) { case 0: return static_cast<T>(static_cast<double>(s.below(4))); case 1: return static_cast<T>(static_cast<double>(s.range(-100000, 100000)) / 1000); case 2: return std::nextafter(static_cast<T>(static_cast<double>(s.range(-100, 100)) / 3), T{}); default: { auto b = s.edgy(); T v; std::memcpy(&v, &b, sizeof v); return std::isfinite(v) ? v : T{ 1 }; } }
        }
        else
        {
            std::string t; for (auto n = s.len(8); n > 0; --n) { char ch = static_cast<char>(1 + s.below(255)); if (s.coin()) ch = s.pick({ ' ', '&', '<', '>', '"', '\'', ';', '\n', '\r', '\t', '/', '=', 'a', '#', '3', '4', 'x', '\x7f' }); t += ch; } if (s.chance(1, 6)) t = s.pick({ "&amp;", "&#34;", "a  b ", " ", "&quot;x", "]]>", "<!--", "?>", "caf\xc3\xa9", "\xe2\x82\xac" });
            return nl::string{ t };
        }
    }
    template <typename T> std::string text(T const& v) { if constexpr (std::is_same_v<T, nl::string>) return show(v.to_std_string()); else if constexpr (std::is_enum_v<T>) return std::to_string(static_cast<int>(v)); else { std::ostringstream o; o.precision(17); o << +v; return o.str(); } }
    template <typename T> bool same(T const& a, T const& b) { return a == b; }

    struct Counts { int changing = 0, changed = 0, managerChanging = 0, managerChanged = 0; bool operator==(Counts const&) const = default; };
    inline std::ostream& operator<<(std::ostream& o, Counts const& c) { return o << c.changing << '/' << c.changed << '/' << c.managerChanging << '/' << c.managerChanged; }

    // one setting as the model knows it, whatever its type
    struct Item
    {
        Source* source = nullptr;
        std::string key; bool optional = false, disabled = false; nl::i_setting* real = nullptr; bool registered = false; bool enabled = true; Counts told, expect; nl::sink sink;
        std::string category() const { return key.substr(0, key.find('.')); }
        virtual ~Item() = default;
        virtual void enroll(Case&, nl::settings&) = 0; virtual void edit(Case&, nl::settings&) = 0; virtual bool modified() const = 0; virtual bool apply() = 0; virtual void discard() = 0; virtual void clear(Case&) = 0; virtual void redefault(Case&) = 0;
        virtual bool change(Case&, nl::settings&) = 0; virtual void check() = 0; virtual void store() = 0; virtual void unstore() = 0; virtual bool stored() const = 0; virtual void reopen(Case&) = 0; virtual int damaged() = 0; virtual std::string shown() const = 0;
        void changing() { ++expect.changing; ++expect.managerChanging; } void changed() { ++expect.changed; ++expect.managerChanged; }
    };
    template <typename T> struct Of : Item
    {
        using A = nl::abstract_t<T>; T def{}; std::optional<T> val, saved; std::optional<std::optional<T>> pending;
        T effective() const { return val ? *val : def; }
        static T got(nl::i_setting_value const& v) { return T{ v.get<T>() }; }
        std::string shown() const override { return key + " = " + text(effective()) + (val ? "" : " (default)"); }
        void enroll(Case& c, nl::settings& all) override
        {
            nl::setting_constraints<T> const k{ optional, disabled }; auto& r = all.register_setting<T>(nl::string{ key }, def, k, nl::string{ "format" }); real = &r; registered = true; enabled = !disabled; told = expect = Counts{}; pending = {}; val = {};
            if (saved && !same(*saved, def)) val = saved;
            sink.clear(); sink += r.changing([this] { ++told.changing; }); sink += r.changed([this] { ++told.changed; }); c.note("register ", shown());
            bool twice = false; try { all.register_setting<T>(nl::string{ key }, def, k); } catch (nl::i_settings::setting_already_registered const&) { twice = true; } REQUIRE(twice, key, " is registered twice");
        }
        void set(T const& v) { if (!same(v, effective())) { if (!pending || !*pending || !same(**pending, v)) { pending = std::optional<T>{ v }; changing(); } } else if (pending) { pending.reset(); changing(); } }
        T next(Case& c) { auto& s = c.s; switch (s.below(5)) { case 0: return effective(); case 1: return def; case 2: return pending && *pending ? **pending : def; default: return value<T>(s); } }
        void edit(Case& c, nl::settings&) override
        {
            T v = next(c); auto how = c.s.below(4); c.note("set ", key, " to ", text(v), " (", how, ")"); set(v);
            switch (how) { case 0: real->set_value(v); break; case 1: real->set_value(static_cast<nl::i_setting_value const&>(nl::setting_value<T>{ v })); break; case 2: *real = static_cast<nl::i_setting_value const&>(nl::setting_value<T>{ v }); break; default: { nl::setting_value<T> const temp{ v }; real->set_value(static_cast<nl::i_setting_value const&>(temp)); } }
        }
        bool change(Case& c, nl::settings& all) override
        {
            T v = next(c); bool now = c.s.coin(); auto how = c.s.below(3); c.note("change ", key, " to ", text(v), how == 2 ? " and apply" : now ? " now" : ""); set(v);
            if (how == 2) { real->apply_value(v); apply(); return false; }
            auto& any = static_cast<nl::i_settings&>(all); if (how) any.change_setting(*real, v, now); else any.change_setting(*real, static_cast<nl::i_setting_value const&>(nl::setting_value<T>{ v }), now);
            if (now) apply(); return now;
        }
        bool modified() const override { return pending.has_value(); }
        bool apply() override { if (!pending) return false; bool const differ = !(val.has_value() == pending->has_value() && (!val || same(*val, **pending))); val = *pending; pending.reset(); if (differ) changed(); else changing(); return true; }
        void discard() override { if (pending) { pending.reset(); changing(); } }
        void clear(Case& c) override
        {
            c.note("clear ", key); bool refused = false; try { real->clear(); } catch (nl::i_setting::setting_not_optional const&) { refused = true; } REQUIRE(refused == !optional, key, refused ? " cannot be cleared" : " can be cleared"); if (refused) return;
            if (!val) { if (!pending) return; pending.reset(); } else pending = std::optional<T>{}; changing();
        }
        void redefault(Case& c) override { T v = next(c); c.note("default of ", key, " is ", text(v)); if (!same(v, def)) { def = v; if (!val) changed(); } if (c.s.coin()) real->set_default_value(v); else real->set_default_value(static_cast<nl::i_setting_value const&>(nl::setting_value<T>{ v })); }
        void check() override
        {
            auto const& r = *real; REQUIRE(r.key().to_std_string() == key && r.format().to_std_string() == "format" && !r.hidden() && r.enabled() == enabled, key, " has lost its key, format or state");
            REQUIRE(same(got(r.value()), effective()), key, " is ", text(got(r.value())), ", not ", text(effective())); REQUIRE(same(T{ r.template value<T>() }, effective()), key);
            REQUIRE(same(got(r.default_value()), def), "the default of ", key, " is ", text(got(r.default_value()))); REQUIRE(r.modified() == pending.has_value(), key, " is ", r.modified() ? "" : "not ", "modified"); REQUIRE(r.is_default() == !val, key, " is ", r.is_default() ? "" : "not ", "default");
            T const unapplied = pending ? (*pending ? **pending : def) : effective(); REQUIRE(same(got(r.value(true)), unapplied), key, " will be ", text(got(r.value(true))), ", not ", text(unapplied)); REQUIRE(r.is_default(true) == (pending ? !*pending : !val), key, " will ", r.is_default(true) ? "" : "not ", "be default");
            REQUIRE(r.value().type() == nl::setting_type_v<T> && r.value().type_name().to_std_string() == nl::setting_type_name<T>::name().to_std_string(), "type of ", key);
            bool refused = false; try { auto& m = r.modified_value(); REQUIRE(pending && m.is_set() == pending->has_value() && (!m.is_set() || same(got(m), **pending)), "pending value of ", key); } catch (nl::i_setting::setting_not_modified const&) { refused = true; } REQUIRE(refused == !pending, key, " has a pending value or not");
            REQUIRE(told == expect, "changing/changed of ", key, " are told ", told, " times, not ", expect);
            // copies have the same values
            nl::setting_value<T> const one{ r.value() }, two{ effective() }; REQUIRE(one == two && !(one != two) && !(one < two), "values differ from their copies"); nl::setting_value<T> const none; REQUIRE(none != two && none < two && !(two < none) && !none.is_set(), "no value"); REQUIRE(r.value() == two, key);
            // its text says the same
            std::string t = r.value_as_string(); nl::settings other{ nl::string{} }; nl::setting<T> read{ other, nl::string{ "read" }, value<T>(*source) }; read.set_value_from_string(nl::string{ t }); REQUIRE(same(got(read.value(true)), effective()), key, " is ", text(effective()), " and its text ", show(t), " reads ", text(got(read.value(true))));
        }
        void store() override { saved = val; } void unstore() override { saved.reset(); } bool stored() const override { return saved.has_value(); }
        void reopen(Case& c) override { registered = false; real = nullptr; sink.clear(); if (c.s.chance(1, 4)) { def = next(c); c.note("default of ", key, " becomes ", text(def)); } }
        int damaged() override { T v = got(real->value()); bool const old = saved && same(v, *saved), d = same(v, def); REQUIRE(old || d, key, " is ", text(v), ", which is neither the value it was saved with nor its default"); pending.reset(); val.reset(); if (!real->is_default()) val = v; return old ? 1 : 0; }
    };
    std::unique_ptr<Item> item(Source& s)
    {
        switch (s.below(16))
        {
        case 0: return std::make_unique<Of<bool>>(); case 1: return std::make_unique<Of<std::int8_t>>(); case 2: return std::make_unique<Of<std::int16_t>>(); case 3: return std::make_unique<Of<std::int32_t>>(); case 4: return std::make_unique<Of<std::int64_t>>();
        case 5: return std::make_unique<Of<std::uint8_t>>(); case 6: return std::make_unique<Of<std::uint16_t>>(); case 7: return std::make_unique<Of<std::uint32_t>>(); case 8: return std::make_unique<Of<std::uint64_t>>(); case 9: return std::make_unique<Of<float>>(); case 10: return std::make_unique<Of<double>>();
        case 11: return std::make_unique<Of<Colour>>(); case 12: return std::make_unique<Of<Small>>(); default: return std::make_unique<Of<nl::string>>();
        }
    }
    struct World
    {
        std::string file; std::vector<std::unique_ptr<Item>> items; std::vector<Item*> order; nl::ref_ptr<nl::settings> all; nl::sink sink; bool dirty = false; std::vector<std::string> categories; int reopened = 0;
        explicit World(Case& c) : file{ tmpDir() + "/settings.xml" }
        {
            std::filesystem::create_directories(tmpDir()); std::remove(file.c_str()); static char const* const keys[] = { "app", "app.window", "app.window.width", "app.window.height", "appearance", "x.y.z", "x.y", "language", "net.port.settings", "settings" }; std::vector<std::string> k(std::begin(keys), std::end(keys));
            for (auto n = 1 + c.s.below(7); n > 0; --n) { auto i = item(c.s); i->source = &c.s; auto at = c.s.below(k.size()); i->key = k[at]; k.erase(k.begin() + static_cast<long>(at)); i->optional = c.s.coin(); i->disabled = c.s.chance(1, 5); items.push_back(std::move(i)); }
            open(c);
        }
        Item& of(nl::i_setting const& s) { for (auto& i : items) if (i->real == &s) return *i; FAIL("another setting is told of"); return *items[0]; }
        void open(Case& c)
        {
            sink.clear(); order.clear(); all.reset(); all = nl::make_ref<nl::settings>(nl::string{ file }); dirty = false; categories.clear();
            sink += all->setting_changing([this](nl::i_setting const& s) { ++of(s).told.managerChanging; }); sink += all->setting_changed([this](nl::i_setting const& s) { ++of(s).told.managerChanged; }); sink += all->settings_changed([this](nl::i_string const& s) { categories.push_back(s.to_std_string()); });
            std::vector<Item*> todo; for (auto& i : items) todo.push_back(i.get()); while (!todo.empty()) { auto at = c.s.below(todo.size()); todo[at]->enroll(c, *all); order.push_back(todo[at]); todo.erase(todo.begin() + static_cast<long>(at)); }
        }
        void saved() { for (auto i : order) i->store(); for (auto& i : items) if (!i->registered) i->unstore(); dirty = false; }
        void check()
        {
            bool any = dirty; for (auto i : order) { i->check(); any = any || i->modified(); REQUIRE(&all->setting(nl::string{ i->key }) == i->real, i->key, " is another setting"); } REQUIRE(all->modified() == any, "the settings are ", all->modified() ? "" : "not ", "modified");
            REQUIRE(all->all_settings().size() == order.size() && all->all_settings_ordered().size() == order.size(), "number of settings"); std::size_t k = 0; for (auto& r : all->all_settings_ordered()) REQUIRE(&*r == order[k++]->real, "order of registration");
            for (auto& i : items) if (!i->registered) { bool refused = false; try { all->setting(nl::string{ i->key }); } catch (nl::i_settings::setting_not_found const&) { refused = true; } REQUIRE(refused, i->key, " is still there"); }
        }
    };
    std::string slurp(std::string const& f) { std::ifstream i{ f, std::ios::binary }; return std::string{ std::istreambuf_iterator<char>{ i }, {} }; }
}

PBT_SUITE("histories", 12000, 200000)
{
    static bool const sProvider = (nl::allocate_service_provider(), true); (void)sProvider; auto& s = c.s; World w{ c }; w.check(); int saves = 0, explicitSaved = 0;
    for (auto n = 1 + s.len(30); n > 0; --n)
    {
        if (w.order.empty()) break; auto& i = *w.order[s.below(w.order.size())]; int const changedBefore = i.expect.changed; w.categories.clear(); int before = 0; for (auto o : w.order) before += o->expect.changed;
        switch (s.below(14))
        {
        case 0: case 1: case 2: case 3: i.edit(c, *w.all); break;
        case 4: case 5: if (i.change(c, *w.all)) { w.saved(); ++saves; before = 0; for (auto o : w.order) before += o->expect.changed; } break;
        case 6: i.clear(c); break;
        case 7: i.redefault(c); break;
        case 8: { bool e = s.coin(); c.note(i.key, e ? " enabled" : " disabled"); if (e != i.enabled) { i.enabled = e; i.changed(); } if (e) i.real->enable(); else i.real->set_enabled(false); break; }
        case 9: case 10:
        {
            c.note("apply"); bool any = w.dirty; std::set<std::string> cats; for (auto o : w.order) any = any || o->modified(); if (any) { for (auto o : w.order) if (o->apply()) cats.insert(o->category()); } w.all->apply_changes();
            REQUIRE(w.categories == std::vector<std::string>(cats.begin(), cats.end()), w.categories.size(), " categories are told of, not ", cats.size()); if (any) { w.saved(); ++saves; before = 0; for (auto o : w.order) before += o->expect.changed; } break;
        }
        case 11: c.note("discard"); for (auto o : w.order) o->discard(); w.all->discard_changes(); break;
        case 12: if (s.coin()) { c.note("save"); w.all->save(); w.saved(); ++saves; } else if (s.coin())
            {
                c.note("delete ", i.key); int deleted = 0; nl::sink d; d += w.all->setting_deleted([&](nl::i_setting const& x) { ++deleted; REQUIRE(x.key().to_std_string() == i.key, "another is deleted"); }); i.sink.clear(); i.registered = false; auto r = i.real; i.real = nullptr; w.order.erase(std::find(w.order.begin(), w.order.end(), &i)); w.all->delete_setting(*r); REQUIRE(deleted == 1, "deletion is told ", deleted, " times"); w.saved(); ++saves; before = 0; for (auto o : w.order) before += o->expect.changed;
                if (s.coin()) { i.enroll(c, *w.all); w.order.push_back(&i); }
            }
            break;
        default:
            c.note("a new instance"); explicitSaved = 0; for (auto o : w.order) explicitSaved += o->stored(); { std::vector<Item*> gone; for (auto& o : w.items) o->reopen(c); } w.open(c); ++w.reopened; before = 0;
        }
        (void)changedBefore; int after = 0; for (auto o : w.order) after += o->expect.changed; if (after > before) w.dirty = true;
        w.check();
    }
    std::size_t k = 0; for (auto& i : w.items) { if (!i->registered) continue; auto cat = nl::string{ i->category() }; w.all->register_category(cat, nl::string{ "C" + std::to_string(k) }); REQUIRE(w.all->category_title(cat).to_std_string() == "C" + std::to_string(k), "category title"); w.all->register_group(nl::string{ i->key }, nl::string{ "G" + std::to_string(k) }); REQUIRE(w.all->group_title(nl::string{ i->key }).to_std_string() == "G" + std::to_string(k), "group title"); w.all->register_friendly_text(*i->real, nl::string{ "plain" }, nl::string{ "F" + std::to_string(k) }); ++k; }
    k = 0; for (auto& i : w.items) if (i->registered) REQUIRE(w.all->friendly_text(*i->real, nl::string{ "plain" }).to_std_string() == "F" + std::to_string(k++) && w.all->friendly_text(*i->real, nl::string{ "other" }).to_std_string() == "other", "friendly text");
    bool refused = false; try { w.all->category_title(nl::string{ "nowhere" }); } catch (nl::i_settings::category_not_found const&) { refused = true; } REQUIRE(refused, "category that is not there"); refused = false; try { w.all->group_title(nl::string{ "nowhere.at.all" }); } catch (nl::i_settings::group_not_found const&) { refused = true; } REQUIRE(refused, "group that is not there");
    c.nontrivial(w.reopened > 0 && saves > 0 && explicitSaved > 0);
}

// the program ended while it was saving
PBT_SUITE("cut", 6000, 100000)
{
    static bool const sProvider = (nl::allocate_service_provider(), true); (void)sProvider; auto& s = c.s; World w{ c }; for (auto i : w.order) if (!s.chance(1, 4)) { i->edit(c, *w.all); i->apply(); } w.all->apply_changes(); for (auto i : w.order) while (i->modified()) i->discard(); w.all->save(); w.saved(); w.check();
    std::string whole = slurp(w.file); auto at = s.below(whole.size() + 1); c.note(show(whole), " is cut at ", at); { std::ofstream o{ w.file, std::ios::binary | std::ios::trunc }; o << whole.substr(0, at); }
    for (auto& i : w.items) { i->registered = false; i->real = nullptr; i->sink.clear(); }
    w.sink.clear(); w.all.reset(); w.all = nl::make_ref<nl::settings>(nl::string{ w.file }); int kept = 0;
    for (auto i : w.order) { auto x = dynamic_cast<Item*>(i); x->enroll(c, *w.all); kept += x->damaged(); }
    REQUIRE(at < whole.size() || kept == static_cast<int>(std::count_if(w.order.begin(), w.order.end(), [](Item* i) { return i->stored(); })), "a whole file is read");
    c.nontrivial(at > 20 && at < whole.size() && w.order.size() > 1);
}
