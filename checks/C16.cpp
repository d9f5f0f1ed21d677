// MC-VARIANT: tsan
// MC-SOURCES: mc/sched.cpp
// MC-TECHNIQUE: stateless model checking of the implementation over a simulated network: every division of a message into partial sends and receives, every single failing system call of bounded socket histories, and every schedule (up to a number of departures) of the asynchronous client and server operations, against a byte-queue and open-handle model
// Sockets deliver exactly the bytes sent, in order, through partial operations.
#include "checks/common.h"
#include "mc/sched.h"
#include "Socket.h"
#include "SocketBase.h"
#include "SocketClient.h"
#include "SocketServer.h"
#include "NetworkTools.h"
#include "InternetAddress.h"
#include <algorithm>
#include <cstring>
#include <set>
using namespace Network; using CEX::ipv4_address; using CEX::ipv6_address; using Tools::NetworkTools; using Exception::CryptoSocketException; typedef std::vector<uint8_t> Msg;
const char* const MC_PROPERTY = "C16";

namespace
{
	int D(int q, int t) { return mc::thorough() ? t : q; }
	const SocketAddressFamilies F4 = SocketAddressFamilies::IPv4, F6 = SocketAddressFamilies::IPv6; const SocketProtocols TCP = SocketProtocols::TCP; const SocketTransports ST = SocketTransports::Stream;
	/* a refused system call, by number, and a watch over handles that are closed twice */
	int g_calls, g_failAt; const char* g_failed; uint64_t g_bad; bool g_closing; int g_twice; const int CODE = WSAENETDOWN;
	bool can(const char* n) { return std::strcmp(n, "WSAStartup") != 0; }
	void watch(bool points) { sim::net.call = [points](const char* n) { if (points && sched::active()) sched::point(); if (g_closing && sim::netStats.badHandle > g_bad) ++g_twice; g_bad = sim::netStats.badHandle; g_closing = !std::strcmp(n, "closesocket"); }; }
	void world(int failAt = 0, bool points = false) { sim::reset(); sim::netReset(); g_calls = 0; g_failAt = failAt; g_failed = nullptr; g_bad = 0; g_closing = false; g_twice = 0; watch(points); sim::net.fail = [](const char* n) { if (!can(n)) return 0; if (++g_calls == g_failAt) { g_failed = n; return CODE; } return 0; }; }
	void notTwice(const char* w) { if (g_closing && sim::netStats.badHandle > g_bad) ++g_twice; MC_CHECK(g_twice == 0, "handle-twice", "%s: a handle was released that is not open", w); }
	bool isFail(const char* n) { return g_failed && !std::strcmp(g_failed, n); }
	sim::NetAddr addr(int fam, const Msg& b, uint16_t port) { sim::NetAddr a; a.family = fam; std::memcpy(a.bytes, b.data(), b.size()); a.port = port; return a; }
	const Msg L4{ 127, 0, 0, 1 }, P4{ 192, 168, 7, 200 }; Msg l6() { Msg m(16, 0); m[15] = 1; return m; } Msg p6() { Msg m(16, 0); m[0] = 0x20; m[1] = 1; m[2] = 0x0d; m[3] = 0xb8; m[15] = 0x45; m[14] = 0x01; return m; }
	std::string libc(int fam, const Msg& b) { char t[64]; return inet_ntop(fam == 2 ? AF_INET : AF_INET6, b.data(), t, sizeof t) ? t : ""; }
	bool parse(int fam, const std::string& s, Msg& b) { b.assign(fam == 2 ? 4 : 16, 0); return inet_pton(fam == 2 ? AF_INET : AF_INET6, s.c_str(), b.data()) == 1; }
	Msg bytes(const ipv4_address& a) { return Msg{ a.a1, a.a2, a.a3, a.a4 }; } Msg bytes(const ipv6_address& a) { return ipv6_address::ToVector(a); }
	/* a connected pair: the near end is the library's, so is the far one */
	struct Pair { Socket l{ F4, TCP, ST }, a{ F4, TCP, ST }, b{ F4, TCP, ST }; };
	void join(Pair& p) { SocketBase::Create(p.l); SocketBase::Bind(p.l, ipv4_address(127, 0, 0, 1), 9000); SocketBase::Listen(p.l, 5); SocketBase::Create(p.a); bool c = SocketBase::Connect(p.a, ipv4_address(127, 0, 0, 1), 9000), d = SocketBase::Accept(p.l, p.b); MC_CHECK(c && d && p.a.Connection != p.b.Connection, "pair", "two sockets of the library can not be connected"); }

	/* ------------------------------------------------------------------ bytes */
	struct Limits { std::vector<int> said; size_t total() const { size_t n = 0; for (int x : said) if (x > 0) n += (size_t)x; return n; } bool stopped() const { return !said.empty() && said.back() <= 0; } };
	int answer(int want, Limits& l) { int k = mc::choose(want + 3); int v = k == 0 ? want : k < want ? k : k == want ? 0 : k == want + 1 ? -WSAEWOULDBLOCK : -WSAECONNRESET; if (want > 0 && l.stopped()) mc::fail("send-after", "a send follows one that was refused"); l.said.push_back(v); return v; }
	void sends(bool client, size_t most)
	{
		size_t cap = (size_t)mc::choose((int)most + 1), len = client ? cap : (size_t)mc::choose((int)most + 2); world(); Pair p; join(p); Msg m = pat(cap, 3); Limits lim; sim::net.sendLimit = [&](int w) { MC_CHECK(w > 0 && (size_t)w <= cap, "send-window", "a send of %d bytes of an array of %zu", w, cap); return answer(w, lim); };
		bool threw = false; uint32_t r = 0; int sent = 0, sentN = -1, errs = 0;
		{ SocketClient c(p.a); c.OnSocketSent += std::function<void(int32_t)>([&](int32_t n) { ++sent; sentN = n; }); c.OnSocketError += std::function<void(SocketExceptions, const std::string&)>([&](SocketExceptions, const std::string&) { ++errs; });
			try { r = client ? c.Send(m, len) : SocketBase::Send(p.a, m, len, SocketSendFlags::None); } catch (CryptoSocketException&) { threw = true; } }
		std::string w = sim::netWire(p.a.Connection); size_t n = lim.total(); MC_OP("send %zu of %zu, %zu answers: %s %u", len, cap, lim.said.size(), threw ? "threw" : "returned", r);
		if (len > cap) { MC_CHECK(threw && w.empty(), "send-length", "a length beyond the array was not refused"); mc::outcome(1); return; }
		MC_CHECK(w == std::string(m.begin(), m.begin() + (ptrdiff_t)n), "send-bytes", "%zu bytes were accepted, and the wire does not carry the first %zu of the message", n, n); MC_CHECK(sim::netOob(p.b.Connection).empty(), "send-oob", "a byte left out of band");
		if (!lim.stopped()) { MC_CHECK(!threw && r == len && n == len, "send-complete", "%zu of %zu bytes were sent, and %u returned, although nothing was refused", n, len, r); }
		else if (lim.said.back() == 0 || (lim.said.back() == -WSAEWOULDBLOCK && n)) MC_CHECK(threw || r == n, "send-count", "%zu bytes were sent and %u returned", n, r); else MC_CHECK(threw, "send-lost", "the failure of a send was lost");
		if (client && !threw) { MC_CHECK(r ? sent == 1 && (size_t)sentN == r && errs == 0 : sent == 0, "send-event", "%u bytes sent: %d events, with %d", r, sent, sentN); }
		MC_CHECK(sim::netIsOpen(p.a.Connection), "handle-foreign", "an attached socket was closed by the client"); notTwice("send"); mc::outcome(mc::hash(w) + threw);
	}
	void receives(int form)
	{
		size_t n = (size_t)mc::choose(6), cap = 1 + (size_t)mc::choose(4); int end = mc::choose(2); world(); Pair p; join(p); Msg m = pat(n, 5), got; sim::netInject(p.a.Connection, std::string(m.begin(), m.end())); if (end) sim::netHangup(p.a.Connection);
		SocketClient c(p.a); Msg ev; int evN = 0, errs = 0, evFlag = 0; c.OnSocketReceived += std::function<void(int32_t, const Msg&)>([&](int32_t x, const Msg& v) { ++evN; evFlag = x; ev = v; }); c.OnSocketError += std::function<void(SocketExceptions, const std::string&)>([&](SocketExceptions, const std::string&) { ++errs; });
		bool stop = false; sim::net.recvLimit = [&](int a) { int k = mc::choose(a + 1); if (k == a) { stop = true; return -WSAECONNRESET; } return a - k; };
		for (int round = 0; round < 8; ++round)
		{
			bool threw = false; uint32_t r = 0; Msg out(cap, 0xEE); evN = errs = 0; size_t left = sim::netPending(p.a.Connection); try { r = form == 0 ? SocketBase::Receive(p.a, out, SocketReceiveFlags::None) : form == 1 ? c.Receive(out) : c.Receive(cap); } catch (CryptoSocketException&) { threw = true; }
			MC_OP("receive %zu: %s %u", cap, threw ? "threw" : "returned", r); MC_CHECK(r <= cap, "receive-count", "%u bytes in an array of %zu", r, cap);
			if (form == 2 && !threw && r) { MC_CHECK(evN == 1 && ev.size() == r, "receive-event", "%u bytes received, an event with %zu", r, ev.size()); out = ev; }
			if (stop) { MC_CHECK(threw, "receive-lost", "the failure of a receive was lost"); break; }
			if (!left) { if (end) { MC_CHECK(!threw && r == 0, "receive-end", "a closed connection gives %u bytes", r); if (form) MC_CHECK(errs == 1 && evN == 0, "receive-end-event", "the end of the connection raised %d errors and %d messages", errs, evN); } else MC_CHECK(threw, "receive-lost", "the failure of a receive was lost"); break; }
			MC_CHECK(!threw && r > 0 && left - r == sim::netPending(p.a.Connection), "receive-count", "%u bytes were returned of %zu, %zu are left", r, left, sim::netPending(p.a.Connection)); got.insert(got.end(), out.begin(), out.begin() + r); for (size_t i = r; i < out.size(); ++i) MC_CHECK(form == 2 || out[i] == 0xEE, "receive-window", "byte %zu was written", i);
		}
		if (!stop) CHECK_EQ("receive-bytes", got, m, "the message received"); else { MC_CHECK(got.size() <= m.size() && std::equal(got.begin(), got.end(), m.begin()), "receive-bytes", "the bytes before the failure differ"); } mc::outcome(h(got) + stop); 
	}
	/* long messages in pieces of the usual sizes, one of them refused for a while */
	void transfers()
	{
		static const std::vector<size_t> N{ 255, 256, 1460, 65535, 65536, 70001 }, C{ 7, 1460, 8192, 65535, 70001 }; size_t n = mc::pick(N), cap = mc::pick(C), part = mc::pick(C); int full = mc::choose(3); world(); Pair p; join(p); Msg m = pat(n, 41), got; SocketClient a(p.a), b(p.b); if (n / cap > 20000) throw mc::Infeasible(); int calls = 0; size_t at = 0, rounds = 0; sim::net.sendLimit = [&](int w) { if (++calls == full * 2) return -WSAEWOULDBLOCK; return std::min(w, (int)cap); };
		while (at < n && ++rounds < 100) { Msg rest(m.begin() + (ptrdiff_t)at, m.end()); uint32_t r = 0; try { r = a.Send(rest, rest.size()); } catch (CryptoSocketException&) {} at += r; MC_CHECK(at <= n, "send-count", "more bytes were sent than there are"); } MC_CHECK(at == n, "send-complete", "%zu of %zu bytes were sent", at, n);
		SocketBase::CloseSocket(p.a); rounds = 0; for (;;) { Msg o(part); uint32_t r = b.Receive(o); if (!r) break; got.insert(got.end(), o.begin(), o.begin() + r); MC_CHECK(++rounds < 100000, "receive-end", "there is no end"); } MC_OP("%zu bytes in pieces of %zu and %zu", n, cap, part); CHECK_EQ("receive-bytes", got, m, "the message received"); mc::outcome(h(got) + part);
	}
	/* the machine's own address */
	void own()
	{
		bool v6 = mc::flip(); int at = mc::choose(5); world(at); bool threw = false; Msg r; try { r = v6 ? bytes(NetworkTools::GetIPv6Address()) : bytes(NetworkTools::GetIPv4Address()); } catch (CryptoSocketException&) { threw = true; } MC_OP("own address, failing %s: %s", g_failed ? g_failed : "nothing", threw ? "threw" : hx(r).c_str()); Msg w(v6 ? 16 : 4, 0), z = w; if (v6) { w[0] = 0xFE; w[1] = 0x80; w[15] = 0x77; } else w = Msg{ 10, 1, 2, 3 };
		if (!g_failed) MC_CHECK(!threw && r == w, "own-address", "the address is %s", hx(r).c_str()); else MC_CHECK(threw || r == z || isFail("closesocket"), "own-address-lost", "an address was invented after %s failed", g_failed); MC_CHECK(sim::netOpenHandles().empty(), "handle-leak", "a handle is still open"); mc::outcome(h(r) + (uint64_t)at);
	}
	/* both directions of one pair */
	void duplex(int depth)
	{
		world(); Pair p; join(p); std::string q[2], t[2]; int used = 0; mc::setDeviations(2); sim::net.sendLimit = [&](int w) { int k = w > 1 ? mc::deviate(w) : 0; return k ? k : w; }; sim::net.recvLimit = [&](int a) { int k = a > 1 ? mc::deviate(a) : 0; return k ? k : a; };
		for (int i = 0; i < depth; ++i)
		{
			int op = mc::choose(6), d = op & 1; Socket& s = d ? p.b : p.a;
			if (op < 4) { Msg m = pat(op < 2 ? 1 : 4, 10 + (uint32_t)used++); uint32_t r = SocketBase::Send(s, m, m.size(), SocketSendFlags::None); MC_OP("%c sends %zu: %u", 'a' + d, m.size(), r); MC_CHECK(r == m.size(), "send-complete", "%u of %zu bytes", r, m.size()); q[d].append(m.begin(), m.end()); }
			else { if (q[!d].size() == t[d].size()) throw mc::Infeasible(); bool peek = mc::flip(); Msg o(3, 0); uint32_t r = SocketBase::Receive(s, o, peek ? SocketReceiveFlags::Peek : SocketReceiveFlags::None); MC_OP("%c receives %u%s", 'a' + d, r, peek ? " (peek)" : ""); MC_CHECK(r > 0 && r <= 3 && q[!d].compare(t[d].size(), r, std::string(o.begin(), o.begin() + r)) == 0, "receive-bytes", "%c received other bytes than those sent", 'a' + d); if (!peek) t[d].append(o.begin(), o.begin() + r); MC_CHECK(SocketBase::IsConnected(p.a) && SocketBase::IsConnected(p.b), "connected", "the pair is connected"); }
		}
		for (int d = 0; d < 2; ++d) { Socket& s = d ? p.b : p.a; while (t[d].size() < q[!d].size()) { Msg o(5, 0); uint32_t r = SocketBase::Receive(s, o, SocketReceiveFlags::None); MC_CHECK(r > 0, "receive-lost", "no bytes"); t[d].append(o.begin(), o.begin() + r); } MC_CHECK(t[d] == q[!d] && sim::netPending(s.Connection) == 0, "receive-bytes", "the bytes received are not those sent"); }
		mc::outcome(mc::hash(t[0]) * 3 + mc::hash(t[1]));
	}

	/* ------------------------------------------------------------------ handles */
	Socket listener(int fam, uint16_t port) { Socket l(fam == AF_INET6 ? F6 : F4, TCP, ST); SocketBase::Create(l); if (fam == AF_INET6) SocketBase::Bind(l, ipv6_address::LoopBack(), port); else SocketBase::Bind(l, ipv4_address::LoopBack(), port); SocketBase::Listen(l, 5); return l; }
	std::set<uint64_t> mine(const std::set<uint64_t>& other) { std::set<uint64_t> v; for (uint64_t x : sim::netOpenHandles()) if (!other.count(x)) v.insert(x); return v; }
	void life(int depth, int fam)
	{
		int at = mc::choose(depth * 3 + 2); world(0); Socket l = listener(fam, 9000); g_calls = 0; g_failAt = at; std::set<uint64_t> far{ l.Connection }; int errs = 0, conn = 0, disc = 0; bool open = false; uint64_t hnd = 0;
		{
			SocketClient c(fam == AF_INET6 ? F6 : F4, TCP, ST); c.OnSocketError += std::function<void(SocketExceptions, const std::string&)>([&](SocketExceptions, const std::string&) { ++errs; }); c.OnSocketConnected += std::function<void(int32_t, const std::string&)>([&](int32_t, const std::string&) { ++conn; }); c.OnSocketDisconnected += std::function<void(int32_t, const std::string&)>([&](int32_t, const std::string&) { ++disc; });
			for (int i = 0; i < depth; ++i)
			{
				int op = mc::choose(5); errs = conn = disc = 0; g_failed = nullptr; bool threw = false, ret = false; uint32_t n = 0; Msg m = pat(3, (uint32_t)i); if (op >= 2 && op != 4 && !open) throw mc::Infeasible();
				const char* N[] = { "connect", "connect to nobody", "send", "shut down", "close" };
				try { if (op < 2) ret = fam == AF_INET6 ? c.Connect(ipv6_address::LoopBack(), op ? 9001 : 9000) : c.Connect(ipv4_address::LoopBack(), op ? 9001 : 9000); else if (op == 2) n = c.Send(m, 3); else if (op == 3) c.ShutDown(); else SocketBase::CloseSocket(c.BaseSocket()); } catch (CryptoSocketException&) { threw = true; }
				for (uint64_t x : sim::netOpenHandles()) { uint64_t peer = sim::netPeer(x); if (peer && sim::netPeer(peer) == x && x != c.BaseSocket().Connection && peer == hnd) far.insert(x); }
				MC_OP("%s%s%s: %s", N[op], g_failed ? " while failing: " : "", g_failed ? g_failed : "", threw ? "threw" : ret ? "true" : "returned"); notTwice(N[op]);
				/* what is open now: the library's end of one connection, or nothing */
				std::set<uint64_t> near; for (uint64_t x : sim::netOpenHandles()) if (x != l.Connection) { near.insert(x); } uint64_t now = c.BaseSocket().Connection;
				if (op < 2)
				{
					bool want = op == 0 && !g_failed; MC_CHECK(!want || (ret && !threw), "connect-refused", "a connection that the system made was not reported"); MC_CHECK(want || isFail("closesocket") || isFail("shutdown") || !ret || threw, "connect-invented", "a connection was reported that failed in %s", g_failed ? g_failed : "connect");
					if (isFail("socket")) MC_CHECK(threw || errs > 0, "connect-lost", "the failure of socket was lost"); if (!ret && !threw) MC_CHECK(errs == 1, "connect-error", "a refused connection raised %d errors", errs);
					if (ret && !threw) { MC_CHECK(conn == 1 && errs == 0, "connect-event", "%d events", conn); hnd = now; open = true; MC_CHECK(sim::netIsOpen(now) && c.BaseSocket().ConnectionStatus == SocketStates::Connected, "connect-handle", "a connected client has no open handle"); sim::NetAddr r = sim::netRemote(now); MC_CHECK(r.port == 9000 && Msg(r.bytes, r.bytes + (fam == AF_INET6 ? 16 : 4)) == (fam == AF_INET6 ? l6() : L4), "connect-address", "connected to another address"); } else open = false;
				}
				else if (op == 2) { MC_CHECK(g_failed ? threw : !threw && n == 3, "send-lost", "the send %s", threw ? "threw" : "did not"); if (!g_failed) { std::string w = sim::netWire(now); MC_CHECK(w.size() >= 3 && w.compare(w.size() - 3, 3, std::string(m.begin(), m.end())) == 0, "send-bytes", "other bytes were sent"); } }
				else { if (op == 3 && (isFail("shutdown") || isFail("closesocket"))) MC_CHECK(threw, "shutdown-lost", "the failure of %s was lost", g_failed); if (op == 4 && isFail("closesocket")) MC_CHECK(threw, "close-lost", "the failure of closesocket was lost"); if (op == 3 && !threw) MC_CHECK(disc == 1, "disconnect-event", "%d events", disc); if (!g_failed) MC_CHECK(!threw, "close-threw", "closing threw"); open = false; }
				if (!open) { MC_CHECK(!hnd || !sim::netIsOpen(hnd), "handle-leak", "%s: the handle is still open", N[op]); if (!threw) MC_CHECK(now == UNINITIALIZED_SOCKET, "handle-stale", "%s: the socket keeps its handle", N[op]); }
				size_t lib = 0; for (uint64_t x : near) if (sim::netLocal(x).port != 9000 ) ++lib; MC_CHECK(lib <= (open ? 1u : 0u), "handle-leak", "%s: %zu handles are open", N[op], lib);
			}
		}
		for (uint64_t x : sim::netOpenHandles()) MC_CHECK(x == l.Connection || sim::netLocal(x).port == 9000, "handle-leak", "a handle is still open after the client has been destroyed"); notTwice("destruction"); mc::outcome((uint64_t)at * 10 + open);
	}
	void closing(bool shut)
	{
		int how = mc::choose(3), which = mc::choose(3), at = mc::choose(5); world(); Pair p; join(p); if (how == 1) SocketBase::CloseSocket(p.b); Socket none(F4, TCP, ST); Socket& s = which == 0 ? p.a : which == 1 ? p.l : none; uint64_t hnd = s.Connection; g_calls = 0; g_failAt = at; bool threw = false; if (shut && which == 2) throw mc::Infeasible();
		try { if (shut) SocketBase::ShutDown(s, how == 2 ? SocketShutdownFlags::Both : SocketShutdownFlags::Receive); else SocketBase::CloseSocket(s); } catch (CryptoSocketException&) { threw = true; } MC_OP("%s, failing %s: %s", shut ? "shut down" : "close", g_failed ? g_failed : "nothing", threw ? "threw" : "returned");
		if (which < 2) MC_CHECK(!sim::netIsOpen(hnd), "handle-leak", "the handle is still open"); MC_CHECK(s.Connection == UNINITIALIZED_SOCKET, "handle-stale", "the socket keeps its handle"); if (isFail("closesocket")) MC_CHECK(threw, "close-lost", "the failure of closesocket was lost"); if (shut && isFail("shutdown")) MC_CHECK(threw, "shutdown-lost", "the failure of shutdown was lost"); if (!g_failed) MC_CHECK(!threw, "close-threw", "closing threw"); notTwice("close");
		try { SocketBase::CloseSocket(s); } catch (CryptoSocketException&) { MC_CHECK(false, "close-twice", "closing a closed socket threw"); } notTwice("second close"); mc::outcome(threw);
	}
	void serverSync(int fam)
	{
		int at = mc::choose(8), rounds = 1 + mc::choose(2); world(); int acc = 0, errs = 0; std::set<uint64_t> mineOpen, far; bool v6 = fam == AF_INET6;
		{
			SocketServer s(v6 ? F6 : F4, TCP, ST); s.OnSocketAccepted += std::function<void(int32_t, Socket&)>([&](int32_t, Socket&) { ++acc; }); s.OnSocketError += std::function<void(SocketExceptions, const std::string&)>([&](SocketExceptions, const std::string&) { ++errs; });
			for (int i = 0; i < rounds; ++i)
			{
				sim::NetAddr from = addr(fam, v6 ? p6() : P4, (uint16_t)(4000 + i)), to = addr(fam, v6 ? l6() : L4, 9000); uint64_t peer = 0; sim::onBlock = [&](uint64_t) { peer = sim::netCall(from, to); if (peer) far.insert(peer); }; g_calls = 0; g_failAt = i == rounds - 1 ? at : 0; g_failed = nullptr; acc = errs = 0; bool threw = false; Socket t;
				try { t = v6 ? s.Listen(ipv6_address::LoopBack(), 9000) : s.Listen(ipv4_address::LoopBack(), 9000); } catch (CryptoSocketException&) { threw = true; } MC_OP("listen, failing %s: %s", g_failed ? g_failed : "nothing", threw ? "threw" : "returned"); notTwice("listen");
				if (isFail("socket") || isFail("bind") || isFail("listen")) MC_CHECK(threw, "listen-lost", "the failure of %s was lost", g_failed); if (isFail("accept")) MC_CHECK(threw || errs >= 1, "accept-lost", "the failure of accept was lost"); if (!g_failed) MC_CHECK(!threw && acc == 1, "accept", "no connection was accepted");
				if (acc && !threw) { MC_CHECK(peer && t.Connection == sim::netPeer(peer) && sim::netIsOpen(t.Connection), "accept-handle", "the socket returned is not the accepted one"); MC_CHECK(t.Address == libc(v6 ? 10 : 2, v6 ? p6() : P4) && t.Port == 4000 + i, "accept-address", "the peer is %s:%u", t.Address.c_str(), t.Port); MC_CHECK(t.ConnectionStatus == SocketStates::Connected, "accept-state", "the accepted socket is not connected"); mineOpen.insert(t.Connection); }
				else MC_CHECK(t.Connection == UNINITIALIZED_SOCKET, "accept-invented", "a socket was returned that was not accepted"); MC_CHECK(!s.IsListening(), "listening", "the server is still listening");
				for (uint64_t x : sim::netOpenHandles()) MC_CHECK(mineOpen.count(x) || far.count(x), "handle-leak", "handle %zu is open after the call", (size_t)x);
			}
		}
		for (uint64_t x : mineOpen) MC_CHECK(sim::netIsOpen(x), "handle-foreign", "an accepted socket that was handed out was closed by the server"); notTwice("destruction"); mc::outcome((uint64_t)at * 4 + (uint64_t)acc);
	}

	/* ------------------------------------------------------------------ answers of the system */
	void options()
	{
		static const std::vector<SocketOptions> O{ SocketOptions::Broadcast, SocketOptions::KeepAlive, SocketOptions::Linger, SocketOptions::NoRoute, SocketOptions::OutOfBand, SocketOptions::ReceiveTimeOut, SocketOptions::SendTimeOut, SocketOptions::TcpNoDelay }; SocketOptions o = mc::pick(O); bool bad = mc::flip(); world(); Pair p; join(p); if (bad) { g_calls = 0; g_failAt = 1; } bool threw = false;
		try { SocketBase::SocketOption(p.a, TCP, o); } catch (CryptoSocketException&) { threw = true; } MC_OP("option %x: %s", (unsigned)o, threw ? "threw" : "returned"); MC_CHECK(threw == bad, "option-lost", "the result of an option"); auto m = sim::netOptions(p.a.Connection); int lev = o == SocketOptions::TcpNoDelay ? 6 : 0xffff; MC_CHECK(m.size() == (bad ? 0u : 1u) && (bad || (m.begin()->first == lev * 100000 + (int)o && m.begin()->second.size() && m.begin()->second[0] == 1)), "option", "option %x was set as %d", (unsigned)o, m.empty() ? 0 : m.begin()->first); mc::outcome((uint64_t)o);
	}
	void states()
	{
		int st = mc::choose(6); static const std::vector<const char*> C{ "", "getpeername", "select", "recv" }; const char* f = mc::pick(C); world(); Pair p; join(p); Socket fresh(F4, TCP, ST); SocketBase::Create(fresh); if (st == 1 || st == 3) sim::netInject(p.a.Connection, "xy"); if (st == 2 || st == 3) SocketBase::CloseSocket(p.b); Socket& s = st == 4 ? fresh : st == 5 ? p.l : p.a; size_t pend = sim::netPending(s.Connection);
		bool hit = false; sim::net.fail = [&](const char* n) { if (*f && !std::strcmp(n, f)) { hit = true; return CODE; } return 0; }; uint64_t wb = sim::netStats.wouldBlock; bool r = SocketBase::IsConnected(s); MC_OP("state %d, failing %s: %d", st, f, r); MC_CHECK(sim::netStats.wouldBlock == wb, "connected-waits", "testing a connection waits for data"); MC_CHECK(sim::netPending(s.Connection) == pend, "connected-takes", "testing a connection takes data");
		if (!hit) MC_CHECK(r == (st == 0 || st == 1 || st == 3), "connected", "state %d is reported as %d", st, r); else if (std::strcmp(f, "select")) MC_CHECK(!r, "connected-lost", "the failure of %s was lost", f); mc::outcome((uint64_t)st * 2 + r);
	}
	void names()
	{
		bool v6 = mc::flip(), bad = mc::flip(); int what = mc::choose(4); world(); int fam = v6 ? AF_INET6 : AF_INET; Socket l = listener(fam, 9000); sim::NetAddr want = addr(fam, v6 ? l6() : L4, 9000); Socket c(v6 ? F6 : F4, TCP, ST); SocketBase::Create(c); bool k = v6 ? SocketBase::Connect(c, ipv6_address::LoopBack(), 9000) : SocketBase::Connect(c, ipv4_address::LoopBack(), 9000); MC_CHECK(k, "connect", "no connection"); std::string nm; bool threw = false; if (bad) { g_calls = 0; g_failAt = 1; }
		auto same = [&](const std::string& s, const Msg& b) { Msg g; return parse(v6 ? 10 : 2, s, g) && g == b; };
		if (what < 2) { try { nm = what ? NetworkTools::GetSocketName(l) : NetworkTools::GetPeerName(c); } catch (CryptoSocketException&) { threw = true; } MC_OP("%s of a socket: %s", what ? "name" : "peer", threw ? "threw" : nm.c_str()); if (bad) MC_CHECK(threw, "name-lost", "the failure was lost"); else MC_CHECK(!threw && same(nm, v6 ? l6() : L4), "name", "the address is %s", nm.c_str()); }
		else
		{
			std::string host, service; int n = 1 + mc::choose(3); sim::net.resolve = [&](const char* h, const char* s, int f, std::vector<sim::NetAddr>& v) { host = h; service = s; MC_CHECK(f == fam || f == 0, "resolve-family", "family %d was asked for", f); if (bad) return 11001; for (int i = 0; i < n; ++i) v.push_back(addr(fam, v6 ? l6() : L4, i ? 9001 : 9000)); return 0; }; g_failAt = 0; std::string svc = "9000"; bool r = false; sim::netStats.lists = 0; int ev = 0;
			if (what == 2) { try { if (v6) { ipv6_info i = NetworkTools::GetIPv6Info("host", svc); r = bytes(i.address) == l6() && i.port == 9000; } else { ipv4_info i = NetworkTools::GetIPv4Info("host", svc); r = bytes(i.address) == L4 && i.port == 9000; } } catch (CryptoSocketException&) { threw = true; } }
			else { SocketClient cl(v6 ? F6 : F4, TCP, ST); cl.OnSocketConnected += std::function<void(int32_t, const std::string&)>([&](int32_t, const std::string& a) { ++ev; MC_CHECK(same(a, v6 ? l6() : L4), "connect-event", "connected to %s", a.c_str()); }); try { r = cl.Connect("host", svc); } catch (CryptoSocketException&) { threw = true; } if (r) { sim::NetAddr a = sim::netRemote(cl.BaseSocket().Connection); MC_CHECK(a.port == 9000 && !std::memcmp(a.bytes, want.bytes, 16) && ev >= 1, "connect-address", "connected to port %u", a.port); } }
			MC_OP("resolving: %s", threw ? "threw" : r ? "yes" : "no"); MC_CHECK(host == "host" && service == svc, "resolve-arguments", "%s %s was resolved", host.c_str(), service.c_str()); MC_CHECK(bad ? threw || !r : r && !threw, "resolve", "the host was %s", r ? "resolved" : "not resolved"); if (bad && what == 2) MC_CHECK(threw, "resolve-lost", "the failure was lost"); MC_CHECK(sim::netStats.lists == 0, "list-leak", "the list of addresses was not released");
		}
		mc::outcome(mc::hash(nm) + (uint64_t)what * 2 + threw);
	}
	void bindings()
	{
		bool v6 = mc::flip(); int op = mc::choose(4), at = mc::choose(2); static const std::vector<uint16_t> P{ 0, 1, 80, 255, 256, 0x1234, 65535 }; uint16_t port = mc::pick(P); world(); int fam = v6 ? AF_INET6 : AF_INET; Socket s(v6 ? F6 : F4, TCP, ST); if (op == 0) { g_failAt = at; bool r = SocketBase::Create(s); MC_CHECK(r == !at, "create-lost", "the failure of socket was lost"); MC_OP("create %d", r); mc::outcome(r); return; }
		SocketBase::Create(s); g_calls = 0; g_failAt = at; bool r; Msg m6 = p6(); ipv6_address a6(m6.data()); ipv4_address a4(P4[0], P4[1], P4[2], P4[3]);
		if (op == 1) { r = v6 ? SocketBase::Bind(s, a6, port) : SocketBase::Bind(s, a4, port); MC_CHECK(r == !at, "bind-lost", "the result of bind"); if (r) { sim::NetAddr a = sim::netLocal(s.Connection); MC_CHECK(a.port == port && Msg(a.bytes, a.bytes + (v6 ? 16 : 4)) == (v6 ? m6 : P4), "bind-address", "bound to port %u of another address", a.port); Msg g; MC_CHECK(s.Port == port && parse(v6 ? 10 : 2, s.Address, g) && g == (v6 ? m6 : P4), "bind-state", "the socket says %s:%u", s.Address.c_str(), s.Port); } }
		else if (op == 2) { r = SocketBase::Listen(s, 3); MC_CHECK(r == !at, "listen-lost", "the result of listen"); }
		else { g_failAt = 0; Socket l(v6 ? F6 : F4, TCP, ST); SocketBase::Create(l); v6 ? SocketBase::Bind(l, a6, port) : SocketBase::Bind(l, a4, port); SocketBase::Listen(l); g_calls = 0; g_failAt = at; r = v6 ? SocketBase::Connect(s, a6, port) : SocketBase::Connect(s, a4, port); MC_CHECK(r == !at, "connect-lost", "the result of connect"); if (r) { sim::NetAddr a = sim::netRemote(s.Connection); MC_CHECK(a.port == port, "connect-address", "connected to port %u", a.port); Msg g; MC_CHECK(parse(v6 ? 10 : 2, s.Address, g) && g == (v6 ? m6 : P4) && s.ConnectionStatus == SocketStates::Connected, "connect-state", "the socket says %s", s.Address.c_str()); } else MC_CHECK(s.ConnectionStatus != SocketStates::Connected, "connect-state", "a refused socket says it is connected"); }
		MC_OP("operation %d port %u: %d", op, port, r); notTwice("binding"); mc::outcome((uint64_t)op * 4 + r);
	}
	void control()
	{
		int op = mc::choose(3); bool bad = mc::flip(); world(); Pair p; join(p); g_calls = 0; g_failAt = bad ? 1 : 0; bool threw = false;
		if (op == 0) { uint64_t v = 1; try { SocketBase::IOCtl(p.a, (int64_t)0x8004667EL, &v); } catch (CryptoSocketException&) { threw = true; } MC_CHECK(threw == bad, "ioctl-lost", "the result of an ioctl"); }
		else { timeval z{}; bool data = mc::flip(); if (data) sim::netInject(p.a.Connection, "x"); bool r = op == 1 ? SocketBase::ReceiveReady(p.a, &z) : SocketBase::SendReady(p.a, &z); MC_CHECK(r == (!bad && (op == 2 || data)), "ready", "%d is reported", r); } MC_OP("control %d", op);
		static const std::vector<std::string> N{ "0", "80", "443", "65535", "http", "none", "65616", "080" }; std::string nm = mc::pick(N); sim::net.service = [](const char* n, const char* q) { return std::strcmp(n, "http") || std::strcmp(q, "tcp") ? -1 : 8080; }; int port = -1; try { port = NetworkTools::PortNameToNumber(nm, "tcp"); } catch (CryptoSocketException&) {} MC_CHECK(port == (nm == "http" ? 8080 : nm == "none" || nm == "65616" ? -1 : nm == "080" ? port : atoi(nm.c_str())), "port-name", "%s is port %d", nm.c_str(), port); mc::outcome((uint64_t)(port + 2));
	}

	/* ------------------------------------------------------------------ addresses */
	void addresses6(int part)
	{
		static const Msg V[] = { { 0x12, 0x34 }, { 0x00, 0x01 }, { 0xff, 0xff }, { 0x10, 0x00 }, { 0x00, 0xf0 } }; for (int z = part; z < 256; z += 4) for (auto& v : V) { Msg b; for (int g = 0; g < 8; ++g) { b.push_back(z >> g & 1 ? v[0] : 0); b.push_back(z >> g & 1 ? v[1] : 0); } ipv6_address a(b.data()); MC_CHECK(bytes(a) == b, "address-bytes", "an address made of %s", hx(b).c_str()); std::string s = ipv6_address::ToString(a); Msg g; MC_CHECK(parse(10, s, g) && g == b, "address-text", "%s is written as %s", hx(b).c_str(), s.c_str());
			bool ok = true; Msg r; try { r = bytes(ipv6_address::FromString(s)); } catch (CryptoSocketException&) { ok = false; } MC_CHECK(ok && r == b, "address-round-trip", "%s does not come back from %s", hx(b).c_str(), s.c_str()); std::string t = libc(10, b); try { r = bytes(ipv6_address::FromString(t)); } catch (CryptoSocketException&) { ok = false; } MC_CHECK(ok && r == b, "address-parse", "%s is not read", t.c_str()); std::string z1 = t + "%3"; try { r = bytes(ipv6_address::FromString(z1)); } catch (CryptoSocketException&) { ok = false; } MC_CHECK(!ok || r == b, "address-zone", "%s is read as %s", z1.c_str(), hx(r).c_str());
			std::string t2 = t; ipv6_address st(t2); MC_CHECK(bytes(st) == b, "address-parse", "%s makes another address", t.c_str()); ipv6_address cpy(a), mv(ipv6_address(b.data())), as, am; as = a; ipv6_address tmp(a); am = std::move(tmp); MC_CHECK(bytes(cpy) == b && bytes(mv) == b && bytes(as) == b && bytes(am) == b && cpy == a && as == a, "address-copy", "a copy of %s differs", hx(b).c_str()); for (int k = 0; k < 16; ++k) { Msg d = b; d[(size_t)k] ^= 0x10; ipv6_address e(d.data()); MC_CHECK(!(e == a), "address-equal", "byte %d is not compared", k); } MC_OP("%s", s.c_str()); }
		mc::outcome((uint64_t)part);
	}
	void addresses4(int part)
	{
		for (int pos = 0; pos < 4; ++pos) for (int v = part; v < 256; v += 4) for (int o : { 0, 9, 127, 255 }) { Msg b(4, (uint8_t)o); b[(size_t)pos] = (uint8_t)v; ipv4_address a(b[0], b[1], b[2], b[3]), q(b.data()); std::string s = ipv4_address::ToString(a), t = libc(2, b); MC_CHECK(bytes(q) == b && s == t, "address-text", "%s is written as %s", t.c_str(), s.c_str()); bool ok = true; Msg r; try { r = bytes(ipv4_address::FromString(s)); } catch (CryptoSocketException&) { ok = false; } MC_CHECK(ok && r == b, "address-round-trip", "%s does not come back", s.c_str()); ipv4_address c(a), d, e, f(a); d = a; e = std::move(f); MC_CHECK(bytes(c) == b && bytes(d) == b && bytes(e) == b && c == a, "address-copy", "a copy of %s differs", s.c_str()); Msg n = b; n[(size_t)pos] ^= 1; MC_CHECK(!(ipv4_address(n.data()) == a), "address-equal", "byte %d is not compared", pos); MC_OP("%s", s.c_str()); }
		mc::outcome((uint64_t)part);
	}
	/* every text of a length over an alphabet: refused, or read as the system reads it */
	void texts(bool v6, size_t len)
	{
		const char* A = v6 ? "0f:.1g" : "029.a"; size_t na = std::strlen(A), fixed = std::min<size_t>(len, 1); static const std::vector<std::string> PRE4{ "", "1.2.3", "1.2.3.", "1.2.3.25", "255.255.255.255", "1..2.3", "0.0.0" }, PRE6{ "", "1:2:3:4:5:6:7", "1:2:3:4:5:6", "::1.2.3", "1::", "1:2:3:4:5:6:7:8", "0:0:0:0:0:0:0", "::ffff:1.2.3.4", "1:2:3:4:5:6:1.2.3" }; std::string pre = mc::pick(v6 ? PRE6 : PRE4); std::string first; for (size_t i = 0; i < fixed; ++i) first += A[mc::choose((int)na)];
		size_t rest = len - fixed, total = 1; for (size_t i = 0; i < rest; ++i) total *= na; size_t good = 0;
		for (size_t x = 0; x < total; ++x)
		{
			std::string s = pre + first; size_t y = x; for (size_t i = 0; i < rest; ++i) { s += A[y % na]; y /= na; } Msg w, r; bool want = parse(v6 ? 10 : 2, s, w), ok = true; try { r = v6 ? bytes(ipv6_address::FromString(s)) : bytes(ipv4_address::FromString(s)); } catch (CryptoSocketException&) { ok = false; }
			bool zeros = false; for (size_t i = 0, st = 0; i <= s.size(); ++i) if (i == s.size() || s[i] == '.' || s[i] == ':') { if (i - st > 1 && s[st] == '0') zeros = true; st = i + 1; }
			if (want) { MC_CHECK(ok && r == w, "address-parse", "\"%s\" is %s", s.c_str(), ok ? hx(r).c_str() : "refused"); ++good; } else if (!(zeros && s.find('.') != std::string::npos)) MC_CHECK(!ok, "address-malformed", "\"%s\" is read as %s", s.c_str(), hx(r).c_str());
		}
		MC_OP("%s%s + %zu more characters: %zu addresses", pre.c_str(), first.c_str(), rest, good); mc::outcome(good);
	}

	/* ------------------------------------------------------------------ asynchronous operations, in every schedule */
	void idle() { sched::block([] { return sched::alive() == 1; }, "the asynchronous operations"); }
	void asyncWorld(int delays) { world(0, true); sim::onBlock = [](uint64_t s) { sched::block([s] { return sim::netReadable(s); }, "the network"); }; sched::begin(delays); sched::races = false; }
	void asyncSend(int delays)
	{
		int n = 2, cut = mc::choose(3), bad = mc::choose(4); world(); Pair p; join(p); watch(true); sched::begin(delays); sched::races = false; Msg m[2] = { pat(4, 21), pat(3, 22) }; int calls = 0; sim::net.sendLimit = [&](int w) { ++calls; if (bad && calls == bad) return -WSAECONNRESET; return cut == 0 ? w : std::min(w, cut); }; std::vector<int> ev; int errs = 0;
		{ SocketClient c(p.a); c.OnSocketSent += std::function<void(int32_t)>([&](int32_t k) { ev.push_back(k); }); c.OnSocketError += std::function<void(SocketExceptions, const std::string&)>([&](SocketExceptions, const std::string&) { ++errs; }); c.SendAsync(m[0], 4, SocketSendFlags::None); if (mc::flip()) c.SendAsync(m[1], 3, SocketSendFlags::None); else { try { c.Send(m[1], 3); } catch (CryptoSocketException&) { ++errs; } } idle(); }
		std::string w = sim::netWire(p.a.Connection), x(m[0].begin(), m[0].end()), y(m[1].begin(), m[1].end()); MC_OP("two messages at once, %zu bytes sent", w.size()); if (!bad) { MC_CHECK(w == x + y || w == y + x, "async-mixed", "two messages sent at once are mixed or incomplete"); std::sort(ev.begin(), ev.end()); MC_CHECK(ev == (std::vector<int>{ 3, 4 }) && !errs, "async-event", "%zu events, %d errors", ev.size(), errs); } else if (calls >= bad) { MC_CHECK(errs > 0, "async-lost", "the failure of a send was lost"); bool pre = false; for (size_t i = 0; i <= x.size(); ++i) for (size_t j = 0; j <= y.size(); ++j) if ((i == x.size() || j == y.size()) && (w == x.substr(0, i) + y.substr(0, j) || w == y.substr(0, j) + x.substr(0, i))) pre = true; MC_CHECK(pre, "async-mixed", "the bytes sent are not the starts of the messages"); }
		sched::end(); (void)n; mc::outcome(mc::hash(w));
	}
	void asyncReceive(int delays)
	{
		int cap = 1 + mc::choose(3), end = mc::choose(3); world(); Socket l = listener(AF_INET, 9000); SocketClient c(F4, TCP, ST); bool k = c.Connect(ipv4_address::LoopBack(), 9000); MC_CHECK(k, "connect", "no connection"); Socket b(F4, TCP, ST); SocketBase::Accept(l, b); uint64_t hnd = c.BaseSocket().Connection; Msg got; int ends = 0, errs = 0; Msg m = pat(5, 31);
		c.OnSocketReceived += std::function<void(int32_t, const Msg&)>([&](int32_t n, const Msg& v) { MC_CHECK((size_t)n == v.size(), "async-event", "%d bytes, an event with %zu", n, v.size()); got.insert(got.end(), v.begin(), v.end()); }); c.OnSocketDisconnected += std::function<void(int32_t, const std::string&)>([&](int32_t, const std::string&) { ++ends; }); c.OnSocketError += std::function<void(SocketExceptions, const std::string&)>([&](SocketExceptions, const std::string&) { ++errs; });
		watch(true); sim::onBlock = [](uint64_t s) { sched::block([s] { return sim::netReadable(s); }, "the network"); }; sched::begin(delays); sched::races = false; c.ReceiveAsync((size_t)cap, SocketReceiveFlags::None); Msg m1 = sub(m, 0, 2), m2 = sub(m, 2, 3); SocketBase::Send(b, m1, 2, SocketSendFlags::None); SocketBase::Send(b, m2, 3, SocketSendFlags::None);
		if (end == 0) SocketBase::CloseSocket(b); else if (end == 1) { try { c.ShutDown(); } catch (CryptoSocketException&) {} } else { sched::block([&] { return got.size() == m.size(); }, "the message"); try { c.ShutDown(); } catch (CryptoSocketException&) {} } idle(); MC_OP("received %zu bytes in pieces of %d, ended by %s", got.size(), cap, end ? "the client" : "the peer");
		if (end != 1) CHECK_EQ("async-bytes", got, m, "the message received"); else MC_CHECK(got.size() <= m.size() && std::equal(got.begin(), got.end(), m.begin()), "async-bytes", "other bytes were received"); MC_CHECK(ends >= 1, "async-end", "the end of the connection was not reported"); MC_CHECK(!sim::netIsOpen(hnd), "handle-leak", "the handle is still open"); notTwice("asynchronous receive"); sched::end(); mc::outcome(h(got));
	}
	void asyncConnect(int delays)
	{
		int mode = mc::choose(4); world(); Socket l = listener(AF_INET, 9000); int conn = 0, errs = 0; uint64_t hnd = 0; watch(true); sched::begin(delays); sched::races = false; g_calls = 0; g_failAt = mode == 2 ? 1 : mode == 3 ? 2 : 0;
		{ SocketClient c(F4, TCP, ST); c.OnSocketConnected += std::function<void(int32_t, const std::string&)>([&](int32_t, const std::string&) { ++conn; }); c.OnSocketError += std::function<void(SocketExceptions, const std::string&)>([&](SocketExceptions, const std::string&) { ++errs; }); c.ConnectAsync("127.0.0.1", mode == 1 ? 9001 : 9000); idle(); hnd = c.BaseSocket().Connection; MC_OP("connecting: %d connected, %d errors", conn, errs); MC_CHECK(mode == 0 ? conn >= 1 && !errs && sim::netIsOpen(hnd) : !conn && errs >= 1 && hnd == UNINITIALIZED_SOCKET, "async-connect", "mode %d: %d connected, %d errors", mode, conn, errs); }
		for (uint64_t x : sim::netOpenHandles()) MC_CHECK(x == l.Connection || sim::netLocal(x).port == 9000, "handle-leak", "a handle is still open"); notTwice("connect"); sched::end(); mc::outcome((uint64_t)mode);
	}
	void asyncServer(int delays, int peers)
	{
		int mode = mc::choose(4), at = mode == 1 ? 1 + mc::choose(3) : 0; bool wait = mc::flip(); asyncWorld(delays); std::vector<std::pair<std::string, int>> acc; int errs = 0; std::vector<uint64_t> far; g_calls = 0;
		{
			SocketServer s(F4, TCP, ST); s.OnAsyncSocketAccepted += std::function<void(int32_t, Socket&)>([&](int32_t, Socket& t) { acc.push_back({ t.Address, t.Port }); }); s.OnSocketError += std::function<void(SocketExceptions, const std::string&)>([&](SocketExceptions, const std::string&) { ++errs; });
			for (int round = 0; round < (mode == 3 ? 2 : 1); ++round)
			{
				acc.clear(); errs = 0; bool threw = false; sim::net.fail = nullptr; const char* bad = at == 1 ? "socket" : at == 2 ? "bind" : at == 3 ? "listen" : ""; if (at) sim::net.fail = [bad](const char* n) { return std::strcmp(n, bad) ? 0 : CODE; };
				try { s.ListenAsync(ipv4_address::LoopBack(), 9000); } catch (CryptoSocketException&) { threw = true; } if (at) { MC_CHECK(threw || errs, "listen-lost", "the failure of %s was lost", bad); MC_CHECK(!s.IsListening(), "listening", "the server is listening"); break; } MC_CHECK(!threw && !errs, "listen", "the server does not listen");
				for (int i = 0; i < peers; ++i) { uint64_t q = sim::netCall(addr(AF_INET, P4, (uint16_t)(4000 + i)), addr(AF_INET, L4, 9000)); MC_CHECK(q != 0, "listen", "nobody listens"); far.push_back(q); sched::point(); if (mode == 2 && i == 0) sim::netDrop(q); }
				if (wait) { sched::block([&] { return (int)acc.size() == peers; }, "the connections"); for (int i = 0; i < peers; ++i) MC_CHECK(acc[(size_t)i].first == libc(2, P4) && acc[(size_t)i].second == 4000 + i, "accept-address", "connection %d came from %s:%d", i, acc[(size_t)i].first.c_str(), acc[(size_t)i].second); }
				s.ListenStop(); MC_CHECK((int)acc.size() <= peers, "accept-invented", "%zu connections", acc.size()); MC_CHECK(!s.IsListening() && s.IsClosed(), "listening", "the server is still listening"); MC_CHECK(sched::alive() == 1, "thread-left", "the listening thread is still there");
				for (uint64_t x : sim::netOpenHandles()) { bool f = false; for (uint64_t q : far) if (q == x) f = true; MC_CHECK(f, "handle-leak", "handle %zu is open after the server has been stopped", (size_t)x); }
				for (uint64_t q : far) sim::netDrop(q); far.clear();
			}
		}
		MC_OP("server with %d peers, mode %d: %zu accepted", peers, mode, acc.size()); for (uint64_t x : sim::netOpenHandles()) { bool f = false; for (uint64_t q : far) if (q == x) f = true; MC_CHECK(f, "handle-leak", "handle %zu is open after the server has gone", (size_t)x); } notTwice("server"); sched::end(); mc::outcome((uint64_t)mode * 10 + acc.size());
	}
}

void mc_register()
{
	mc::forkEach(true); mc::setHangSeconds(60); bool T = mc::thorough();
	mc::bounds("send: messages of 0..4 (thorough 5) bytes, every sequence of system answers (every partial count, zero, would-block, reset); messages of 255..70001 bytes in pieces of 7..70001 both ways; receive: 0..5 bytes, arrays of 1..4, every partial count and failure, three interfaces; both directions of a pair: every sequence of 4 (5) operations with two short answers; client histories of 3 (4) operations out of connect, connect to nobody, send, shut down, close, with any one system call failing, IPv4 and IPv6; server: one and two rounds with any one call failing; "
		"closing, options, bindings, resolving, connection tests: every state and failing call; IPv6 texts of all 256 zero patterns x 5 values, IPv4 texts of every byte value, every text of up to 4 (5) further characters over an alphabet after 7 and 9 prefixes; asynchronous sends, receives, connections and a server with 1-2 peers: every schedule with up to 2 (3) departures");
	mc::assume("the simulated network behaves as Winsock is documented: a handle is gone once it has been closed, even if closing reports an error");
	int depth = D(4, 5), most = D(4, 5);
	mc::job("send/socket", [=] { sends(false, (size_t)most); }); mc::job("send/client", [=] { sends(true, (size_t)most); });
	for (int f = 0; f < 3; ++f) mc::job("receive/" + std::to_string(f), [f] { receives(f); }); mc::job("duplex", [=] { duplex(depth - 1); });
	mc::job("client/IPv4", [=] { life(depth - 1, AF_INET); }); mc::job("client/IPv6", [=] { life(D(2, 3), AF_INET6); }); mc::job("close", [] { closing(false); }); mc::job("shutdown", [] { closing(true); });
	mc::job("server/IPv4", [] { serverSync(AF_INET); }); mc::job("server/IPv6", [] { serverSync(AF_INET6); }); mc::job("options", options); mc::job("transfers", transfers); mc::job("own-address", own); mc::job("connected", states); mc::job("names", names); mc::job("bindings", bindings); mc::job("control", control);
	for (int i = 0; i < 4; ++i) { mc::job("address4/" + std::to_string(i), [i] { addresses4(i); }); mc::job("address6/" + std::to_string(i), [i] { addresses6(i); }); }
	for (size_t n = 0; n <= (size_t)depth; ++n) { mc::job("text4/" + std::to_string(n), [n] { texts(false, n); }); mc::job("text6/" + std::to_string(n), [n] { texts(true, n); }); }
	int d = T ? 3 : 2; mc::job("async/send", [d] { asyncSend(d); }); mc::job("async/receive", [d] { asyncReceive(d); }); mc::job("async/connect", [d] { asyncConnect(d); }); mc::job("async/server-1", [d] { asyncServer(d, 1); }); mc::job("async/server-2", [d] { asyncServer(d, 2); });
}
