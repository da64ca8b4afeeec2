// F01: well-formed documents read as the values they denote and survive writing.
#include "json_model.hpp"
#include <filesystem>
#include <fstream>
#include <unistd.h>

using namespace pbt; using namespace jm;
#if PBT_PART == 0
namespace
{
    template <class J>
    void check(Case& c, std::string const& t, V const& v, bool paths)
    {
        J j; bool const ok = jm::read(j, t, c.s.coin(), c.s.chance(1, 4) ? 1 + c.s.below(40) : 0); REQUIRE(ok, "a well-formed document was refused: ", j.error_text());
        REQUIRE(j.has_root() && j.root().is_root() && !j.root().has_name(), "the root"); compare<J>(j.root(), v); lookups<J>(j.root(), v); order<J>(j, v);
        std::size_t scalars = 0, seen = 0; auto count = [&](auto const& self, V const& x) -> void { ++scalars; for (auto const& y : x.c) self(self, y); }; count(count, v); j.visit([&](auto&&) { ++seen; }); REQUIRE(seen == scalars, "visit() saw ", seen, " of ", scalars, " values");
        std::size_t lines = 1 + static_cast<std::size_t>(std::count(t.begin(), t.end(), '\n')) + 1; for (auto i = j.cbegin(); i != j.cend(); ++i) REQUIRE(i.value().document_source_location().line >= 1 && i.value().document_source_location().line <= lines, "a value's line lies outside the document");
        if (paths)
        {
            // every value reachable through uniquely named, dot-free, non-empty names
            auto walk = [&](auto const& self, typename J::json_value const& n, V const& x, std::string const& path) -> void
            {
                if (!path.empty()) REQUIRE(&j.at(typename J::json_string{ path }) == &n, "the path ", show(path), " finds another value");
                if (x.k == V::Array && !path.empty()) { bool threw = false; try { (void)j.at(typename J::json_string{ path + ".x" }); } catch (neolib::json_path_not_found const&) { threw = true; } REQUIRE(threw, "a path into an array"); }
                if (x.k != V::Object) return; std::size_t i = 0; for (auto const& ch : n) { V const& m = x.c[i++]; bool const first = std::find_if(x.c.begin(), x.c.end(), [&](V const& o) { return o.name == m.name; }) == x.c.begin() + static_cast<std::ptrdiff_t>(i - 1); if (first && !m.name.empty() && m.name.find('.') == std::string::npos) self(self, ch, m, path.empty() ? m.name : path + "." + m.name); }
                if (std::none_of(x.c.begin(), x.c.end(), [&](V const& o) { return o.name == "nowhere"; })) { bool threw = false; try { (void)j.at(typename J::json_string{ path.empty() ? "nowhere" : path + ".nowhere" }); } catch (neolib::json_path_not_found const&) { threw = true; } REQUIRE(threw, "a path to nowhere was found"); }
            };
            walk(walk, j.root(), v, "");
        }
        std::ostringstream out; REQUIRE(j.write(out, c.s.coin() ? std::string(2, ' ') : c.s.coin() ? std::string{} : std::string{ "\t" }), "write failed"); J k; REQUIRE(jm::read(k, out.str(), c.s.coin()), "the written document was refused: ", k.error_text(), " in ", show(out.str())); compare<J>(k.root(), v, false);
        std::ostringstream again; REQUIRE(j.write(again) && (jm::read(k, again.str()), true), "write"); compare<J>(k.root(), v, false);
    }
    std::size_t size(V const& v) { std::size_t n = 1; for (auto const& x : v.c) n += size(x); return n; }
}
PBT_SUITE("documents", 100000, 3000000)
{
    std::string t = ws(c); bool const words = c.s.chance(1, 4); V const v = generate(c, t, static_cast<int>(c.s.below(5)), words); t += ws(c); bool const bom = c.s.chance(1, 8); if (bom) t = "\xEF\xBB\xBF" + t; c.note(show(t));
    { V w; Parser p{ t, words }; REQUIRE(p.document(w), "the model refuses its own document"); }
    switch (c.s.below(3)) { case 0: check<neolib::json>(c, t, v, true); break; case 1: check<neolib::fast_json>(c, t, v, true); break; default: if (!words) { check<nkjson>(c, t, v, true); c.label("no keywords"); } else check<neolib::json>(c, t, v, true); }
    if (t.find("\\u") != std::string::npos) c.label("unicode escapes"); if (words) c.label("keywords allowed"); if (bom) c.label("byte order mark"); c.nontrivial(size(v) >= 3);
}
#elif PBT_PART == 1
namespace
{
    std::string relaxed_ws(Case& c, bool& comment) { std::string r = ws(c); if (c.s.chance(1, 4)) { comment = true; if (c.s.coin()) r += "/*" + c.s.from("ab *\"{,\n", c.s.len(6)) + " */"; else r += " //" + c.s.from("ab\"'{,/*]", c.s.len(6)) + "\n"; } return r + ws(c); }
    std::string relaxed_text(Case& c, V& v, bool name)
    {
        char const q = c.s.pick({ '"', '\'', '`' }); std::string t(1, q); auto const x = text(c, name); std::string& s = name ? v.name : v.s; s = x.first; t += x.second;
        if (c.s.chance(1, 4)) { t += "//"; s += "//"; } if (c.s.chance(1, 6)) { t += "/*"; s += "/*"; }
        if (q != '"' && t.find(q, 1) != std::string::npos) { s = "plain"; t = std::string(1, q) + "plain"; } if (q != '"' && c.s.coin()) { std::string const other = q == '\'' ? "`" : "'"; t += other; s += other; if (c.s.coin()) { t += "\\n\"z"; s += "\n\"z"; } }
        return t + q;
    }
    V relaxed(Case& c, std::string& t, int depth, bool& comment)
    {
        V v; auto W = [&] { t += relaxed_ws(c, comment); };
        switch (c.s.below(depth > 0 ? 6 : 3))
        {
        case 0: v.k = V::Number; v.s = number(c); t += v.s; break;
        case 1: v.k = V::String; t += relaxed_text(c, v, false); break;
        case 2: v.k = V::Word; v.s = c.s.pick({ "abc", "x-y", "c#f", "a*b", "p.q" }); t += v.s; break;
        case 3: { v.k = V::Array; t += '['; W(); std::size_t const n = c.s.len(4); for (std::size_t i = 0; i < n; ++i) { v.c.push_back(relaxed(c, t, depth - 1, comment)); t += ' '; W(); if (i + 1 < n && c.s.coin()) { t += ','; W(); } } t += ']'; break; }
        default: { v.k = V::Object; t += '{'; W(); std::size_t const n = c.s.len(4); for (std::size_t i = 0; i < n; ++i) { std::string name; V m; bool const word = c.s.coin(); if (word) { m.name = c.s.pick({ "a", "bc", "d_e" }); t += m.name; if (c.s.coin()) { t += ' '; W(); } } else { t += relaxed_text(c, m, true); t += ' '; W(); } name = m.name; t += ':'; W(); m = relaxed(c, t, depth - 1, comment); m.name = name; m.wordName = word; v.c.push_back(m); t += ' '; W(); if (i + 1 < n && c.s.coin()) { t += ','; W(); } } t += '}'; break; }
        }
        return v;
    }
}
// the relaxed syntax: comments, three kinds of quote, bare names, optional separators
PBT_SUITE("relaxed", 100000, 3000000)
{
    bool comment = false; std::string t = relaxed_ws(c, comment); V const v = relaxed(c, t, static_cast<int>(1 + c.s.below(4)), comment); t += " "; t += relaxed_ws(c, comment); c.note(show(t));
    neolib::rjson j; REQUIRE(jm::read(j, t), "a relaxed document was refused: ", j.error_text()); compare<neolib::rjson>(j.root(), v); lookups<neolib::rjson>(j.root(), v); order(j, v);
    if (comment) c.label("comment"); c.nontrivial(v.c.size() >= 2);
}
// the same standard document through every reader that accepts it
PBT_SUITE("readers", 50000, 1500000)
{
    std::string t; V const v = generate(c, t, static_cast<int>(c.s.below(5)), false); c.note(show(t));
    if (t.find("//") != std::string::npos || t.find("/*") != std::string::npos || true) { neolib::rjson r; REQUIRE(jm::read(r, t), "the relaxed reader refuses a standard document: ", r.error_text()); compare<neolib::rjson>(r.root(), v); neolib::fast_rjson f; REQUIRE(jm::read(f, t), "the relaxed reader refuses a standard document"); compare<neolib::fast_rjson>(f.root(), v); }
    c.nontrivial(v.c.size() >= 2);
}
#elif PBT_PART == 2
// documents built and changed through the tree, then written and read back
namespace
{
    using J = neolib::json;
    V scalar(Case& c, J::value_type& out)
    {
        V v; switch (c.s.below(7))
        {
        case 0: v.k = V::Null; out = J::json_null{}; break;
        case 1: v.k = V::Bool; v.b = c.s.coin(); out = v.b; break;
        case 2: { v.k = V::Number; auto const x = static_cast<std::int32_t>(c.s.edgy()); v.s = std::to_string(x); out = x; break; }
        case 3: { v.k = V::Number; auto const x = static_cast<std::int64_t>(c.s.edgy()); v.s = std::to_string(x); out = x; break; }
        case 4: { v.k = V::Number; auto const x = c.s.edgy(); v.s = std::to_string(x); out = x; break; }
        case 5: { v.k = V::Number; double const x = std::ldexp(1.0 + static_cast<double>(c.s.below(1u << 30)) / (1u << 30), static_cast<int>(c.s.range(-60, 60))) * (c.s.coin() ? -1 : 1); char b[40]; std::snprintf(b, sizeof b, "%.17g", x); v.s = b; if (v.s.find_first_of(".e") == std::string::npos) v.s += ".0"; out = x; break; }
        default: v.k = V::String; v.s = text(c).first; out = J::json_string{ v.s };
        }
        return v;
    }
    void grow(Case& c, J::json_value& n, V& v, int depth)
    {
        std::size_t const steps = 1 + c.s.below(5);
        for (std::size_t i = 0; i < steps; ++i)
        {
            J::value_type x; V m; bool const composite = depth > 0 && c.s.chance(1, 3), array = c.s.coin(); if (composite) { if (array) x = J::json_array{}; else x = J::json_object{}; m.k = array ? V::Array : V::Object; } else m = scalar(c, x);
            if (v.k == V::Array)
            {
                auto& a = n.as<J::json_array>(); if (!v.c.empty() && c.s.chance(1, 4)) { auto const k = static_cast<std::size_t>(c.s.below(v.c.size())); c.note("replace ", k); a[k] = std::move(x); v.c[k] = m; if (composite) grow(c, a[k], v.c[k], depth - 1); }
                else { auto& e = a.push_back(std::move(x)); v.c.push_back(m); REQUIRE(&e == &a.back() && &e == n.last_child(), "push_back returned another value"); if (composite) grow(c, e, v.c.back(), depth - 1); }
            }
            else
            {
                auto& o = n.as<J::json_object>(); std::string const name = c.s.coin() ? c.s.pick({ "a", "b", "c" }) : text(c, true).first; auto k = std::find_if(v.c.begin(), v.c.end(), [&](V const& y) { return y.name == name; });
                if (k == v.c.end()) { v.c.push_back({}); k = std::prev(v.c.end()); } m.name = name; auto& e = o[J::json_string{ name }]; e = std::move(x); *k = m; if (composite) grow(c, e, *k, depth - 1);
            }
        }
    }
}
PBT_SUITE("build", 60000, 2000000)
{
    J j; V v; if (c.s.coin()) { std::string t; do { t.clear(); v = generate(c, t, 3, false); } while (v.k != V::Array && v.k != V::Object && !c.s.exhausted()); if (v.k != V::Array && v.k != V::Object) return; std::vector<std::string> names; bool duplicates = false; auto walk = [&](auto const& self, V const& x) -> void { for (std::size_t a = 0; a < x.c.size(); ++a) { for (std::size_t b = 0; b < a; ++b) if (x.k == V::Object && x.c[a].name == x.c[b].name) duplicates = true; self(self, x.c[a]); } }; walk(walk, v); if (duplicates) return; REQUIRE(jm::read(j, t), "refused"); c.note("from ", show(t)); }
    else { if (c.s.coin()) { v.k = V::Array; j.root() = J::json_array{}; } else { v.k = V::Object; j.root() = J::json_object{}; } }
    grow(c, j.root(), v, 3); compare<J>(j.root(), v, false); lookups<J>(j.root(), v); order(j, v);
    std::ostringstream out; REQUIRE(j.write(out), "write"); J k; REQUIRE(jm::read(k, out.str(), true), "the written document was refused: ", k.error_text(), " in ", show(out.str())); compare<J>(k.root(), v, false); lookups<J>(k.root(), v);
    if (c.s.chance(1, 30))
    {
        std::string const p = (std::filesystem::temp_directory_path() / ("f01-" + std::to_string(::getpid()) + ".json")).string(); bool const w = j.write(p); J f; bool const r = f.read(p); std::error_code e; std::filesystem::remove(p, e); REQUIRE(w && r, "writing to and reading from a file: ", f.error_text()); compare<J>(f.root(), v, false); bool threw = false; try { J missing{ p }; } catch (neolib::json_error const&) { threw = true; } REQUIRE(threw, "a missing file was read"); c.label("file");
    }
    c.nontrivial(v.c.size() >= 2);
}
#endif
