// I03: packet framing. Part 0: streams of text chopped in every way. Part 1: packets over real connections to this machine.
#include "pbt.hpp"
#include <neolib/neolib.hpp>
#include <deque>
#if PBT_PART == 0
#include <neolib/io/string_packet.hpp>
#include <neolib/io/binary_packet.hpp>
#else
#include <neolib/io/packet_stream.hpp>
#include <neolib/io/tcp_packet_stream_server.hpp>
#endif

using namespace pbt;

namespace
{
    bool delim(int c) { return c == '\r' || c == '\n'; }
    // the lines a stream consists of, and the text after the last one
    template <typename C> std::vector<std::basic_string<C>> lines(std::basic_string<C> const& s, std::basic_string<C>& rest)
    {
        std::vector<std::basic_string<C>> r; rest.clear();
        for (C c : s) if (!delim(c)) rest += c; else if (!rest.empty()) { r.push_back(rest); rest.clear(); }
        return r;
    }
    std::string text(Source& s, std::size_t max)
    {
        std::string r;
        for (auto n = s.len(max); n > 0; --n)
            switch (s.below(6)) { case 0: r += '\n'; break; case 1: r += s.chance(2, 3) ? "\r\n" : "\r"; break; case 2: r += s.bytes(1); break; default: r += s.from("abc", 1 + s.below(4)); }
        return r;
    }
}

#if PBT_PART == 0
namespace
{
    template <typename C> void framing(Case& c)
    {
        auto& s = c.s; auto t8 = text(s, 24); std::basic_string<C> t(t8.begin(), t8.end()), rest;
        auto expected = lines(t, rest);
        c.note(show(t8));
        using P = neolib::basic_string_packet<C>;
        P p; std::vector<std::basic_string<C>> got; std::size_t reads = 0, calls = 0;
        for (std::size_t at = 0; at < t.size();)
        {
            auto n = s.coin() ? 1 + s.below(3) : 1 + s.below(t.size() - at); n = std::min<std::size_t>(n, t.size() - at);
            std::unique_ptr<C[]> block{ new C[n] }; std::copy(t.begin() + at, t.begin() + at + n, block.get());
            typename P::const_pointer b = block.get(), e = b + n;
            while (p.take_some(b, e))
            {
                REQUIRE(b <= e, "read past the end"); REQUIRE(++calls < 1000, "taking never ends");
                if (!p.empty())
                {
                    REQUIRE(std::basic_string<C>(p.begin(), p.end()) == p.contents() && p.length() == p.contents().size(), "the packet disagrees with its contents");
                    got.push_back(p.contents());
                    if (s.chance(1, 4)) { auto k = p.clone(); REQUIRE(k->length() == p.length() && std::equal(k->begin(), k->end(), p.begin()), "a clone differs"); P q; q.copy_from(p); REQUIRE(q.contents() == p.contents(), "a copy differs"); }
                    p.clear(); REQUIRE(p.empty(), "cleared, but not empty");
                }
            }
            REQUIRE(b == e, "part of a read is left");
            at += n; ++reads; c.note(" read ", n, ", packets ", got.size());
        }
        REQUIRE(got.size() == expected.size(), got.size(), " packets, not ", expected.size());
        for (std::size_t i = 0; i < got.size(); ++i) REQUIRE(got[i] == expected[i], "packet ", i, " is ", show(std::string(got[i].begin(), got[i].end())), ", not ", show(std::string(expected[i].begin(), expected[i].end())));
        REQUIRE(p.contents() == rest, "pending text ", show(std::string(p.contents().begin(), p.contents().end())), ", not ", show(std::string(rest.begin(), rest.end())));
        c.nontrivial(expected.size() > 1 && reads > 2);
    }
}
PBT_SUITE("framing", 20000, 400000) { framing<char>(c); }
PBT_SUITE("wide framing", 3000, 40000) { framing<wchar_t>(c); }

PBT_SUITE("binary", 4000, 40000)
{
    auto& s = c.s; auto a = s.bytes(s.len(20));
    neolib::binary_packet p{ a.data(), a.size() }; std::string model = a;
    for (auto n = s.len(12); n > 0; --n)
    {
        auto d = s.bytes(s.len(8));
        switch (s.below(5))
        {
        case 0: case 1:
        {
            std::unique_ptr<char[]> block{ new char[d.size()] }; std::copy(d.begin(), d.end(), block.get()); char const* b = block.get(); char const* e = b + d.size();
            bool took = p.take_some(b, e); REQUIRE(took == !d.empty() && b == e, "take_some takes some of it"); model += d; break;
        }
        case 2: { neolib::binary_packet q{ std::vector<char>(d.begin(), d.end()) }; p.copy_from(q); model = d; break; }
        case 3: { neolib::binary_packet q{ p }; auto k = q.clone(); p = q; p = p; REQUIRE(k->length() == p.length() && std::equal(k->begin(), k->end(), p.begin()), "a clone differs"); break; }
        default: p.clear(); model.clear();
        }
        c.note("size ", model.size());
        REQUIRE(p.length() == model.size() && p.empty() == model.empty(), "length ", p.length(), ", not ", model.size());
        REQUIRE(std::string(p.begin(), p.end()) == model && std::string(p.contents().begin(), p.contents().end()) == model, "other bytes than it was given");
        bool thrown = false; try { if (*p.data() != model[0]) thrown = true; } catch (std::logic_error const&) { thrown = true; }
        REQUIRE(thrown == model.empty(), "data() of the packet");
    }
    c.nontrivial(model.size() > 8);
}
#else
namespace
{
    static bool const sProvider = (neolib::allocate_service_provider(), true);
    template <typename P> struct Net
    {
        using Server = neolib::tcp_packet_stream_server<P>; using Stream = neolib::packet_stream<P, neolib::tcp_protocol>;
        neolib::async_task task; std::unique_ptr<Server> server; unsigned short port = 0;
        std::unique_ptr<Stream> client; Stream* remote = nullptr; neolib::sink sink, remoteSink;
        std::vector<std::string> atServer, atClient; std::vector<std::string> clientSent, serverSent; int added = 0, removed = 0, established = 0, closedClient = 0, failures = 0;
        bool closeOnArrival = false; std::size_t afterClose = 0;
        static std::string str(P const& p) { return p.empty() ? std::string() : std::string(p.begin(), p.end()); }
        Net()
        {
            static unsigned n = 0;
            for (int i = 0; !server; ++i)
            {
                port = static_cast<unsigned short>(15000 + (getpid() * 131u + ++n * 7u) % 15000);
                try { server = n % 2 ? std::make_unique<Server>(task, port) : std::make_unique<Server>(task, "127.0.0.1", port); } catch (boost::system::system_error const&) { if (i > 200) throw; }
            }
            sink += server->packet_stream_added([this](Stream& s)
            {
                ++added; remote = &s; remoteSink.clear();
                remoteSink += s.packet_arrived([this](P const& p) { atServer.push_back(str(p)); });
                remoteSink += s.packet_sent([this](P const& p) { serverSent.push_back(str(p)); });
            });
            sink += server->packet_stream_removed([this](Stream& s) { ++removed; if (remote == &s) remote = nullptr; });
            client = std::make_unique<Stream>(task);
            sink += client->connection_established([this]() { ++established; });
            sink += client->connection_closed([this]() { ++closedClient; });
            sink += client->connection_failure([this](boost::system::error_code const&) { ++failures; });
            sink += client->packet_sent([this](P const& p) { clientSent.push_back(str(p)); });
            sink += client->packet_arrived([this](P const& p)
            {
                if (client->closed()) ++afterClose;
                atClient.push_back(str(p));
                if (closeOnArrival) client->close();
            });
        }
        void poll() { task.io_context().poll(); }
        template <typename F> bool until(F f)
        {
            auto limit = std::chrono::steady_clock::now() + std::chrono::seconds(10);
            while (!f()) { poll(); if (std::chrono::steady_clock::now() > limit) return false; }
            return true;
        }
        ~Net() { remoteSink.clear(); sink.clear(); client.reset(); server.reset(); }
    };
    std::string joined(std::vector<std::string> const& v) { std::string r; for (auto& x : v) r += x; return r; }
    template <typename P, bool Lines> void connections(Case& c)
    {
        auto& s = c.s; Net<P> n; std::size_t total = 0; int rounds = 1 + static_cast<int>(s.below(3));
        for (int round = 0; round < rounds; ++round)
        {
            n.atServer.clear(); n.atClient.clear(); n.clientSent.clear(); n.serverSent.clear(); n.closeOnArrival = false;
            auto packet = [&] { auto t = s.chance(1, 6) ? std::string(1 + s.below(9000), static_cast<char>('a' + s.below(3))) + "\n" : text(s, 10); if (t.empty()) t = "x"; return t; };
            auto make = [](std::string const& t) { if constexpr (Lines) return P{ t }; else return P{ t.data(), t.size() }; };
            std::deque<std::string> toServer; std::vector<std::string> toClient;
            bool early = s.coin(); // queued before there is a connection, some with priority
            auto queue = [&] { for (auto k = s.below(6); k > 0; --k) { auto t = packet(); bool first = s.chance(1, 3); if (first) toServer.push_front(t); else toServer.push_back(t); n.client->send_packet(make(t), first); c.note("  queued ", t.size(), first ? " first" : ""); } };
            if (round > 0 && s.coin()) queue(); // before opening
            int was = n.established, added = n.added;
            REQUIRE(n.client->open("127.0.0.1", n.port), "cannot open");
            REQUIRE(n.client->opened() && !n.client->closed(), "opened, but it says not");
            if (early) queue();
            REQUIRE(n.until([&] { return n.established > was && n.added > added; }), "no connection within ten seconds, failures ", n.failures);
            REQUIRE(n.client->connected() && n.remote, "connected, but it says not");
            c.note(" round ", round, " connected");
            for (auto k = s.below(8); k > 0; --k)
            {
                auto t = packet();
                switch (s.below(3))
                {
                case 0: n.client->send_packet(make(t)); toServer.push_back(t); c.note("  to server ", t.size()); break;
                case 1: n.remote->send_packet(make(t)); toClient.push_back(t); c.note("  to client ", t.size()); break;
                default: for (auto p = s.below(4); p > 0; --p) n.poll();
                }
            }
            std::string all1, all2, rest; for (auto& t : toServer) all1 += t; for (auto& t : toClient) all2 += t; total += all1.size() + all2.size();
            auto arrived = [&](std::vector<std::string> const& got, std::string const& all) { if constexpr (Lines) return got.size() >= lines(all, rest).size(); else return joined(got).size() >= all.size(); };
            REQUIRE(n.until([&] { return n.clientSent.size() >= toServer.size() && n.serverSent.size() >= toClient.size() && arrived(n.atServer, all1) && arrived(n.atClient, all2); }),
                "after ten seconds ", n.clientSent.size(), " of ", toServer.size(), " and ", n.serverSent.size(), " of ", toClient.size(), " packets are sent; ", n.atServer.size(), " and ", n.atClient.size(), " arrived");
            for (int k = 0; k < 3; ++k) n.poll();
            REQUIRE(n.clientSent == std::vector<std::string>(toServer.begin(), toServer.end()), "the client's packets are sent in another order or altered");
            REQUIRE(n.serverSent == toClient, "the server's packets are sent in another order or altered");
            REQUIRE(n.client->underflow() && n.remote->underflow(), "packets are still queued after all were sent");
            if constexpr (Lines)
            {
                REQUIRE(n.atServer == lines(all1, rest), "the server received ", n.atServer.size(), " packets ", show(joined(n.atServer).substr(0, 100)), " for ", lines(all1, rest).size(), " of ", show(all1.substr(0, 100)));
                REQUIRE(n.atClient == lines(all2, rest), "the client received ", n.atClient.size(), " packets ", show(joined(n.atClient).substr(0, 100)), " for ", show(all2.substr(0, 100)));
            }
            else REQUIRE(joined(n.atServer) == all1 && joined(n.atClient) == all2, "the bytes received are not the bytes sent");
            // the end: by the client, by the server, or by the client when something arrives
            int closed = n.closedClient, removed = n.removed;
            switch (s.below(3))
            {
            case 0: n.client->close(); c.note(" closed by client"); break;
            case 1: n.remote->close(); c.note(" closed by server"); break;
            default:
                n.closeOnArrival = true; n.atClient.clear(); n.remote->send_packet(make("q\nr\ns\n")); if (s.coin()) n.remote->send_packet(make("t\n")); c.note(" closed on arrival");
            }
            REQUIRE(n.until([&] { return n.closedClient > closed && n.removed > removed; }), "the connection is not closed on both sides: ", n.closedClient - closed, " ", n.removed - removed);
            for (int k = 0; k < 3; ++k) n.poll();
            REQUIRE(n.closedClient == closed + 1 && n.removed == removed + 1, "the end of a connection is announced more than once");
            REQUIRE(n.client->closed() && !n.client->connected() && n.client->underflow(), "closed, but it says not");
            REQUIRE(n.afterClose == 0 && (!n.closeOnArrival || n.atClient.size() == 1), "packets arrive on a closed connection");
            // what is queued and then discarded is never sent
            if (s.chance(1, 3)) { n.client->send_packet(make("discarded\n")); n.client->close(); c.note(" discarded one"); }
        }
        c.note("bytes ", total); c.nontrivial(total > 20 && rounds > 1);
    }
}
PBT_SUITE("lines", 400, 6000) { connections<neolib::string_packet, true>(c); }
PBT_SUITE("binary connections", 250, 3000) { connections<neolib::binary_packet, false>(c); }
#endif
