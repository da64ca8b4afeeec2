// F03: XML. Trees built through the API, written and read back; documents rendered by an independent writer and read;
// the tree's own editing operations against a plain model; and damaged documents.
#include "pbt.hpp"
#include <optional>
#include <fstream>
#include <neolib/neolib.hpp>
#include <neolib/file/xml.hpp>
#include <map>
#include <typeinfo>
#include <memory>
#include <sstream>

using namespace pbt;
using neolib::xml;

namespace
{
    using Node = xml::node; using Element = xml::element;
    enum Kind { El = Node::Element, Tx = Node::Text, Co = Node::Comment, De = Node::Declaration, Cd = Node::Cdata };
    struct N { int kind = El; std::string name, content; std::map<std::string, std::string> attrs; std::vector<N> kids; bool emptyTag = true; };

    std::string str(xml::string const& s) { return std::string{ s.begin(), s.end() }; }
    bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
    bool all_ws(std::string const& s) { return std::all_of(s.begin(), s.end(), ws); }
    std::string collapse(std::string const& s)
    {
        std::string r; bool gap = false;
        for (char c : s) if (ws(c)) gap = true; else { if (gap && !r.empty()) r += ' '; gap = false; r += c; }
        return r;
    }
    std::string contentOf(Node const& n)
    {
        switch (n.type())
        {
        case Node::Text: return str(static_cast<xml::text const&>(n).content());
        case Node::Comment: return str(static_cast<xml::comment const&>(n).content());
        case Node::Declaration: return str(static_cast<xml::declaration const&>(n).content());
        case Node::Cdata: return str(static_cast<xml::cdata const&>(n).content());
        case Node::Dtd: return str(static_cast<xml::dtd const&>(n).content());
        default: return "";
        }
    }
    N snapshot(Node const& n)
    {
        N r; r.kind = n.type();
        if (n.type() == Node::Element)
        {
            auto& e = static_cast<Element const&>(n); r.name = str(e.name());
            for (auto& a : e.attributes()) r.attrs[str(a.first)] = str(a.second);
        }
        else r.content = contentOf(n);
        for (auto i = n.begin(); i != n.end(); ++i) r.kids.push_back(snapshot(*i));
        return r;
    }
    // what a reader is to find: adjacent texts joined, white space alone dropped, everything collapsed when stripping
    void normalise(N& n, bool strip, bool apart = false)
    {
        std::vector<N> k;
        for (auto& c : n.kids)
        {
            if (c.kind == Tx && !k.empty() && k.back().kind == Tx) { k.back().content += (apart ? "\n" : "") + c.content; continue; }
            k.push_back(c);
        }
        n.kids.clear();
        for (auto& c : k)
        {
            if (c.kind == Tx) { if (all_ws(c.content)) continue; if (strip) c.content = collapse(c.content); }
            normalise(c, strip, apart); n.kids.push_back(c);
        }
        if (strip) for (auto& a : n.attrs) a.second = collapse(a.second);
    }
    void dump(std::ostream& o, N const& n, int d)
    {
        o << std::string(static_cast<std::size_t>(d), ' ') << n.kind << " " << show(n.name) << " " << show(n.content);
        for (auto& a : n.attrs) o << " " << show(a.first) << "=" << show(a.second);
        o << "\n"; for (auto& k : n.kids) dump(o, k, d + 1);
    }
    std::string dumped(N const& n) { std::ostringstream o; dump(o, n, 0); return o.str(); }

    std::string gen_name(Source& s)
    {
        std::string r{ s.pick({ 'a', 'b', 'c', 'Z', '_', ':' }) };
        if (s.chance(40, 100)) r += s.from("ab.-1:_", s.len(4));
        if (s.chance(5, 100)) r += "\xC3\xA9";
        return r;
    }
    std::string gen_text(Source& s)
    {
        switch (s.below(6))
        {
        case 0: return s.from("<>&\"'", s.len(6));
        case 1: return s.from(" \t\n\rx", s.len(6));
        case 2: { std::string r; for (std::size_t i = s.len(5); i-- > 0;) r += s.pickv(std::vector<std::string>{ "&amp;", "&lt;", "amp;", "&#65;", "]]>", "-->", "?>", "\xE2\x82\xAC", "/>", "&", ";" }); return r; }
        case 3: return s.from("ab \n<&;#'\"=/?!-[]", s.len(20));
        default: return s.from("abc xyz\n", s.len(10));
        }
    }
    std::string gen_raw(Source& s, char const* end) // content of comments and the like
    {
        std::string r = s.from("ab <>&\n\"'-!?]", s.len(10));
        while (r.find(end) != std::string::npos) r.erase(r.find(end), 1);
        std::string const e = end; // nor may content and terminator together end early
        while ((r + e).find(e) != r.size()) r.pop_back();
        return r;
    }
    N gen(Source& s, int depth, int& budget)
    {
        N n; n.name = gen_name(s); n.emptyTag = s.coin();
        for (std::size_t i = s.chance(60, 100) ? s.len(3) : 0; i-- > 0;) n.attrs[gen_name(s)] = gen_text(s);
        for (std::size_t i = s.len(4); i-- > 0 && budget > 0;)
        {
            --budget; N k;
            int const w = static_cast<int>(s.below(10));
            if (w < 4 && depth < 6) k = gen(s, depth + 1, budget);
            else if (w < 8) { k.kind = Tx; k.content = gen_text(s); }
            else if (w == 8) { k.kind = Co; k.content = gen_raw(s, "-->"); }
            else if (s.coin()) { k.kind = Cd; k.content = gen_raw(s, "]]>"); }
            else { k.kind = De; k.content = "p" + gen_raw(s, "?>"); }
            n.kids.push_back(k);
        }
        return n;
    }
    Node* make(N const& n)
    {
        switch (n.kind)
        {
        case Tx: return new xml::text(n.content);
        case Co: return new xml::comment(n.content);
        case De: return new xml::declaration(n.content);
        default: return new xml::cdata(n.content);
        }
    }
    void build(Element& e, N const& n)
    {
        e.name() = n.name; e.set_use_empty_element_tag(n.emptyTag);
        for (auto& a : n.attrs) e.set_attribute(a.first, a.second);
        for (auto& k : n.kids)
            if (k.kind == El) build(e.append(k.name), k);
            else if (k.kind == Tx && k.content.size() % 2) e.append_text(k.content);
            else e.push_back(make(k));
    }
    std::size_t count(N const& n) { std::size_t r = 1; for (auto& k : n.kids) r += count(k); return r; }
    bool markup(N const& n)
    {
        auto has = [](std::string const& t) { return t.find_first_of("<>&\"'") != std::string::npos; };
        if (n.kind == Tx && has(n.content)) return true;
        for (auto& a : n.attrs) if (has(a.second)) return true;
        for (auto& k : n.kids) if (markup(k)) return true;
        return false;
    }
    bool read(xml& x, std::string const& text)
    {
        std::unique_ptr<char[]> p{ new char[text.size()] }; std::copy(text.begin(), text.end(), p.get()); // the stream ends where the text ends
        std::istringstream in{ std::string(p.get(), text.size()) };
        return x.read(in);
    }
    std::string written(xml& x) { std::ostringstream o; x.write(o); return o.str(); }
    std::string escape(Source& s, std::string const& t, char quote)
    {
        std::string r;
        for (char c : t)
        {
            char const* e = c == '&' ? "&amp;" : c == '<' ? "&lt;" : c == '>' ? "&gt;" : c == '"' ? "&quot;" : c == '\'' ? "&apos;" : nullptr;
            if (e != nullptr && (c != '"' && c != '\'' || c == quote || s.coin()))
            {
                if (s.chance(20, 100)) { std::ostringstream o; if (s.coin()) o << "&#" << int(c) << ";"; else o << "&#x" << std::hex << int(c) << ";"; r += o.str(); }
                else r += e;
            }
            else if (static_cast<unsigned char>(c) < 0x80 && s.chance(4, 100) && !ws(c)) { std::ostringstream o; o << "&#" << int(c) << ";"; r += o.str(); }
            else r += c;
        }
        for (std::size_t p = 0; s.chance(30, 100) && (p = r.find("\xE2\x82\xAC", p)) != std::string::npos;) r.replace(p, 3, s.coin() ? "&#8364;" : "&#x20aC;");
        return r;
    }
    std::string gap(Source& s, bool need = false) { std::string r = s.chance(25, 100) ? s.from(" \t\n\r", s.len(3)) : ""; return r.empty() && need ? " " : r; }
    std::string render(Source& s, N const& n)
    {
        switch (n.kind)
        {
        case Tx: return escape(s, n.content, 0);
        case Co: return "<!--" + n.content + "-->";
        case De: return "<?" + n.content + "?>";
        case Cd: return "<![CDATA[" + n.content + "]]>";
        default: break;
        }
        std::string r = "<" + n.name;
        std::vector<std::pair<std::string, std::string>> as(n.attrs.begin(), n.attrs.end());
        for (std::size_t i = as.size(); i > 1; --i) std::swap(as[i - 1], as[s.below(i)]);
        for (auto& a : as)
        {
            char const q = s.coin() ? '"' : '\'';
            r += gap(s, true) + a.first + gap(s) + "=" + gap(s) + q + escape(s, a.second, q) + q;
        }
        r += gap(s);
        if (n.kids.empty() && s.coin()) return r + "/>";
        r += ">"; for (auto& k : n.kids) r += render(s, k);
        return r + "</" + n.name + ">";
    }
    std::vector<N> prolog(Source& s)
    {
        std::vector<N> r;
        if (s.coin()) { N d; d.kind = De; d.content = "xml version=\"1.0\""; r.push_back(d); }
        if (s.chance(20, 100)) { N d; d.kind = Co; d.content = "c" + gen_raw(s, "-->"); r.push_back(d); }
        return r;
    }
    N document(std::vector<N> pre, N root) { N d; d.kind = Node::Document; d.kids = pre; d.kids.push_back(root); return d; }
}

PBT_SUITE("round-trip", 20000, 300000)
{
    Source& s = c.s; int budget = 24; N root = gen(s, 0, budget); auto pre = prolog(s);
    bool const stripWrite = s.chance(25, 100), stripRead = stripWrite || s.chance(10, 100);
    c.note(dumped(root));
    xml x{ stripWrite };
    for (auto& p : pre) x.document().push_back(make(p));
    build(x.root(), root);
    if (s.chance(30, 100)) x.set_indent(s.coin() ? ' ' : '\t', s.below(4));
    std::string const text = written(x);
    c.note("written: " + show(text));
    REQUIRE(dumped(snapshot(x.root())) == dumped(root), "the built tree is not what was put in, or writing it changed it");
    xml y{ stripRead }; if (s.coin()) { read(y, s.pick({ "<a><b x='1'>t</b></a>", "<a><b>", "<a b=></a>", "", "<!-- a" })); }
    REQUIRE(read(y, text) && !y.error(), "what was written is refused");
    N want = document(pre, root); normalise(want, stripRead, stripWrite);
    N const got = snapshot(y.document());
    REQUIRE(dumped(got) == dumped(want), "read back:\n" + dumped(got) + "expected:\n" + dumped(want));
    if (!stripWrite && !stripRead)
    {
        xml z; REQUIRE(read(z, written(y)) && !z.error() && dumped(snapshot(z.document())) == dumped(want), "the second round trip differs");
        REQUIRE(written(z) == written(y), "writing what was read gives another text");
    }
    c.nontrivial(count(root) > 4 && markup(root));
}

PBT_SUITE("documents", 20000, 300000)
{
    Source& s = c.s; int budget = 24; N root = gen(s, 0, budget); auto pre = prolog(s);
    std::string text; for (auto& p : pre) text += render(s, p) + gap(s);
    if (s.chance(15, 100)) text += "<!DOCTYPE note [ <!ELEMENT note (#PCDATA)> ]>";
    bool const dtd = text.find("<!DOCTYPE") != std::string::npos;
    text += render(s, root); std::size_t const rootEnd = text.size(); text += gap(s);
    c.note("document: " + show(text));
    bool const strip = s.chance(20, 100); N want = document(pre, root);
    if (dtd) { N d; d.kind = Node::Dtd; d.content = " note [ <!ELEMENT note (#PCDATA)> ]"; want.kids.insert(want.kids.end() - 1, d); }
    xml x{ strip };
    REQUIRE(read(x, text), "the document is refused"); REQUIRE(!x.error(), "an error is reported");
    N got = snapshot(x.document());
    // references are decoded after stripping, so compare stripped documents collapsed
    normalise(want, strip); if (strip) normalise(got, strip);
    REQUIRE(dumped(got) == dumped(want), "read:\n" + dumped(got) + "expected:\n" + dumped(want));
    // cut anywhere before the end of the root element
    for (int i = 0; i < 3; ++i)
    {
        std::size_t const cut = s.below(rootEnd);
        bool const ok = read(x, text.substr(0, cut));
        REQUIRE(!ok || x.error(), "cut after " + std::to_string(cut) + " bytes, the document is accepted");
    }
    REQUIRE(read(x, text) && !x.error(), "the document is refused after damaged ones");
    got = snapshot(x.document()); if (strip) normalise(got, strip);
    REQUIRE(dumped(got) == dumped(want), "the reader finds something else after reading damaged documents");
    c.nontrivial(count(root) > 4 && markup(root));
}

PBT_SUITE("editing", 12000, 200000)
{
    Source& s = c.s; xml x; Element& e = x.root(); e.name() = "r"; std::vector<N> m; std::map<std::string, std::string> attrs;
    std::size_t const steps = 3 + s.len(30); int hits = 0, erased = 0;
    auto at = [&](std::size_t i) { auto p = static_cast<Node&>(e).begin(); while (i-- > 0) ++p; return p; };
    auto element = [&](std::string const& n) { N k; k.name = n; return k; };
    for (std::size_t step = 0; step < steps; ++step)
    {
        char const* const literal = s.pick({ "a", "b", "c" }); std::string const name = literal; /* names given as char const* are viewed, so they are literals */ std::size_t const pos = s.below(m.size() + 1);
        switch (s.below(10))
        {
        case 0: { c.note("append " + name); auto& n = s.coin() ? e.append(name) : x.append(e, literal); REQUIRE(str(n.name()) == name, "append returned another element"); m.push_back(element(name)); break; }
        case 1: { c.note("insert " + name + " at " + std::to_string(pos)); auto i = x.insert(e, at(pos), literal); REQUIRE(i == at(pos) && str(static_cast<Element&>(*i).name()) == name, "insert returned another position"); m.insert(m.begin() + static_cast<long>(pos), element(name)); break; }
        case 2: if (!m.empty()) { std::size_t p = s.below(m.size()); c.note("erase " + std::to_string(p)); x.erase(e, at(p)); m.erase(m.begin() + static_cast<long>(p)); ++erased; } break;
        case 3: { c.note("text"); N k; k.kind = Tx; k.content = gen_text(s); e.append_text(k.content); m.push_back(k); break; }
        case 4: { N k; k.kind = s.pick({ int(Co), int(De), int(Cd) }); k.content = "z"; c.note("kind " + std::to_string(k.kind)); e.insert(at(pos), make(k)); m.insert(m.begin() + static_cast<long>(pos), k); break; }
        case 5: case 6:
            {
                c.note("find " + name);
                std::size_t w = 0; while (w < m.size() && !(m[w].kind == El && m[w].name == name)) ++w;
                auto i = x.find(static_cast<Node&>(e), literal); Element const& ce = e; auto ci = x.find(static_cast<Node const&>(ce), literal);
                REQUIRE(i == at(w) && ci == Node::const_iterator(at(w)), "find found something else");
                REQUIRE(bool(static_cast<Node&>(e).find_maybe(name)) == (w < m.size()) && bool(static_cast<Node const&>(e).find_maybe(name)) == (w < m.size()), "find_maybe differs");
                bool threw = false; try { REQUIRE(static_cast<Node&>(e).find_or_throw<std::bad_cast>(name) == at(w), "find_or_throw found something else"); } catch (std::bad_cast const&) { threw = true; }
                REQUIRE(threw == (w == m.size()), "find_or_throw");
                if (s.coin())
                {
                    c.note("or append");
                    auto f = x.find_or_append(e, literal); if (w == m.size()) m.push_back(element(name));
                    REQUIRE(f == at(w) && str(static_cast<Element&>(*f).name()) == name, "find_or_append returned another element");
                }
                if (w < m.size()) ++hits;
                break;
            }
        case 7: { std::string v = gen_text(s); c.note("attribute " + name); e.set_attribute(name, v); attrs[name] = v; break; }
        case 8: { c.note("erase attribute " + name); e.attributes().erase(name); attrs.erase(name); break; }
        default: if (s.chance(10, 100)) { c.note("clear"); e.clear(); m.clear(); } break;
        }
        N want; want.name = "r"; want.kids = m; want.attrs = attrs;
        REQUIRE(dumped(snapshot(e)) == dumped(want), "the element holds\n" + dumped(snapshot(e)) + "expected\n" + dumped(want));
        for (auto n : { "a", "b", "c" })
        {
            bool const has = attrs.count(n) != 0;
            REQUIRE(e.has_attribute(n) == has && str(e.attribute_value(n)) == (has ? attrs[n] : ""), "attribute lookup");
            REQUIRE(str(e.attribute_value("a", n)) == (attrs.count("a") ? attrs["a"] : has ? attrs[n] : ""), "attribute lookup with fall-back");
        }
        std::string t; for (auto& k : m) if (k.kind == Tx) t += k.content;
        REQUIRE(str(e.text()) == t, "text()");
        // filtered iteration, both ways
        for (int f : { int(El), int(Tx), int(Co | De), int(Node::All) })
        {
            auto const filter = static_cast<Node::type_e>(f); std::vector<Node const*> fw, bw, all;
            for (auto i = static_cast<Node&>(e).begin(); i != static_cast<Node&>(e).end(); ++i) if (i->type() & f) all.push_back(&*i);
            for (auto i = static_cast<Node const&>(e).begin(filter); i != static_cast<Node const&>(e).end(filter); i++) fw.push_back(&*i);
            REQUIRE(fw == all, "filtered iteration visits something else");
            auto const b = static_cast<Node&>(e).begin(filter);
            for (auto i = static_cast<Node&>(e).end(filter); i != b;) { --i; bw.push_back(&*i); }
            std::reverse(bw.begin(), bw.end()); REQUIRE(bw == all, "reverse filtered iteration visits something else");
        }
        std::vector<std::string> names, wantNames; for (auto& k : e) names.push_back(str(k.name())); for (auto& k : m) if (k.kind == El) wantNames.push_back(k.name);
        REQUIRE(names == wantNames, "iterating the elements");
    }
    c.nontrivial(steps > 10 && hits > 0 && erased > 0);
}

PBT_SUITE("junk", 60000, 1500000)
{
    Source& s = c.s; static thread_local std::unique_ptr<xml> keep; if (!keep || s.chance(5, 100)) keep = std::make_unique<xml>(s.coin());
    int budget = 10; N root = gen(s, 2, budget); std::string text = s.chance(85, 100) ? render(s, root) : s.from("<>/!?-[]CDATA=\"'&;#x1 ab\n", s.len(40));
    std::size_t const edits = s.len(5);
    for (std::size_t i = 0; i < edits; ++i)
    {
        std::size_t const p = s.below(text.size() + 1);
        switch (s.below(5))
        {
        case 0: text.insert(p, s.pickv(std::vector<std::string>{ "<", ">", "</", "/>", "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "<!DOCTYPE ", "&", "&#", "&#;", "&#x;", ";", "\"", "'", "=", "<>", "</>", "<a", "<a ", "<a b", "<a b=", "<a b=\"", "\xFF", " ", "&#x99999999999;", "&#-1;" })); break;
        case 1: if (p < text.size()) text.erase(p, 1 + s.below(4)); break;
        case 2: if (p < text.size()) text[p] = static_cast<char>(s.below(256)); break;
        case 3: text = text.substr(0, p); break;
        case 4: if (p < text.size()) text.insert(s.below(text.size()), text.substr(p, 1 + s.below(12))); break;
        }
    }
    c.note("document: " + show(text));
    bool const ok = read(*keep, text);
    REQUIRE(ok == keep->got_root(), "the result does not tell whether there is a root");
    N const got = snapshot(keep->document()); if (ok && !keep->error()) c.label("accepted"); else c.label("refused");
    xml fresh; fresh.set_strip_whitespace(false); keep->set_strip_whitespace(false);
    bool const again = read(*keep, text), other = read(fresh, text);
    REQUIRE(again == other && keep->error() == fresh.error() && dumped(snapshot(keep->document())) == dumped(snapshot(fresh.document())), "a reader used before and a fresh one disagree");
    if (again && !keep->error()) { std::string const w = written(*keep); (void)w; }
    // a root element must have been closed for the document to be accepted
    if (again && !keep->error()) REQUIRE(!keep->root().name().empty(), "an element without a name is accepted");
    c.nontrivial(edits > 0 && text.size() > 5);
}

PBT_SUITE("nesting", 60, 600)
{
    Source& s = c.s; std::size_t const depth = s.pick({ 10, 100, 250, 1000, 5000, 20000, 100000 }) + s.below(20); bool const closed = s.coin();
    std::string text; for (std::size_t i = 0; i < depth; ++i) text += "<a>"; if (closed) for (std::size_t i = 0; i < depth; ++i) text += "</a>";
    c.note("nested " + std::to_string(depth) + " deep, " + (closed ? "closed" : "left open"));
    xml x; bool const ok = read(x, text);
    if (!closed) REQUIRE(!ok || x.error(), "a document whose elements are never closed is accepted");
    if (depth <= 250 + 20 && closed)
    {
        REQUIRE(ok && !x.error(), "refused"); std::size_t d = 0;
        for (Node const* n = &x.root(); ; n = &*n->begin()) { ++d; if (n->empty()) break; }
        REQUIRE(d == depth, "depth differs");
    }
    else if (ok && !x.error()) { std::size_t d = 0; for (Node const* n = &x.root(); ; n = &*n->begin()) { ++d; if (n->empty()) break; } REQUIRE(d == depth, "depth differs"); }
    c.nontrivial(depth > 200);
}
