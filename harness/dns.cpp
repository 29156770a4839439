// P36: the DNS resolver, against a resolver library driven by a simple loop.
//
// Every case scripts a DNS server (what it answers to the n-th query, when,
// and what else arrives) and a history of resolutions, and runs both twice in
// virtual time: through AresDnsResolver on the simulated event loop, and
// through a bare c-ares channel driven by the reference loop below.
#ifdef NO_ARES
// The resolver for builds without c-ares.
#include <arpa/inet.h>
#include <sstream>
#include "pbt.hpp"
#include "network/dns_resolver.h"
using namespace lightstep;

PROPERTY(literal_addresses) {
  std::string name;
  unsigned char raw[16];
  for (auto& b : raw) b = static_cast<unsigned char>(c.chance(1, 2) ? 0 : c.draw(255));
  char text[64] = "";
  switch (c.weighted({3, 3, 1, 1, 1})) {
    case 0: inet_ntop(AF_INET, raw, text, sizeof text); name = text; break;
    case 1: inet_ntop(AF_INET6, raw, text, sizeof text); name = text; break;
    case 2: name = c.over("0123456789.:abcdef", c.size(20)); break;
    case 3: name = c.over("abc.-", c.size(20)); break;
    default: {
      inet_ntop(AF_INET, raw, text, sizeof text);
      name = text;
      size_t i = c.draw(name.size());
      if (c.boolean()) name.insert(i, c.over(" .x%/1", 1));
      else name.erase(i, 1);
    }
  }
  int family = c.boolean() ? AF_INET6 : AF_INET;
  c.note("resolve ", pbt::Case::quote(name), " family ", family == AF_INET ? 4 : 6);
  std::string expected;
  if (inet_pton(family, name.c_str(), raw) == 1) {
    inet_ntop(family, raw, text, sizeof text);
    expected = std::string(text) + " ";
    c.nontrivial();
    c.classify("resolved");
  }
  int stop_after = c.boolean() ? 1 : -1;
  struct Callback : DnsResolutionCallback {
    int calls = 0, stop_after = -1, seen = 0;
    bool result = true;
    std::string got, error;
    void OnDnsResolution(const DnsResolution& r,
                         opentracing::string_view e) noexcept override {
      ++calls;
      error.assign(e.data() ? e.data() : "", e.size());
      std::ostringstream s;
      result = r.ForeachIpAddress([&](const IpAddress& a) {
        s << a << " ";
        return ++seen != stop_after;
      });
      got = s.str();
    }
  } callback;
  callback.stop_after = stop_after;
  int logged = 0;
  Logger logger{[&](LogLevel, opentracing::string_view) { ++logged; }};
  EventBase base;
  auto resolver = MakeDnsResolver(logger, base, DnsResolverOptions{});
  resolver->Resolve(name.c_str(), family, callback);
  c.equal(callback.calls, 1, "calls of the callback");
  c.equal(callback.got, expected, "addresses");
  c.equal(callback.result, callback.seen != stop_after, "result of the iteration");
}
#else
#include <ares.h>
#include <netdb.h>
#include <sstream>
#include <stdlib.h>
#include "pbt.hpp"
#include "simnet.hpp"
#include "network/ares_dns_resolver/ares_dns_resolver.h"
using namespace lightstep;

static thread_local bool in_case = false;
static uint64_t random_state;

extern "C" {
// c-ares' clock and randomness
int clock_gettime(clockid_t id, timespec* ts) noexcept {
  if (!in_case) return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
  int64_t t = id == CLOCK_REALTIME ? vclock::system_now() : vclock::steady_now();
  ts->tv_sec = t / 1000000000;
  ts->tv_nsec = t % 1000000000;
  return 0;
}
void arc4random_buf(void* p, size_t n) noexcept {
  auto b = static_cast<unsigned char*>(p);
  while (n--) {
    random_state = random_state * 6364136223846793005ull + 1442695040888963407ull;
    *b++ = static_cast<unsigned char>(random_state >> 56);
  }
}
}

namespace {
using simnet::ns_t;

// --- the scripted server ----------------------------------------------------
enum Kind {
  Answer, Alias, Empty, NoSuchName, ServFail, Refused, Truncated, OtherFamily,
  OtherId, OtherQuestion, OtherSource, Garbage, Short, Kinds
};
const char* const kind_names[] = {
    "answer", "alias", "empty", "no such name", "server failure", "refused",
    "truncated", "other family", "other id", "other question", "other source",
    "garbage", "short"};
struct Packet {
  Kind kind;
  ns_t delay;
  int addresses;
  uint64_t salt;
};
struct Reply {  // to one query
  std::vector<Packet> packets;
  int send_error = 0;
};
struct Stream {  // one TCP connection
  int connect_result, connect_error;
  ns_t connected_after;
  std::vector<ns_t> pauses;  // between pieces
  std::vector<size_t> pieces;
  int close_after = -1;  // pieces, if not negative
};
struct Script {
  std::vector<in_addr> servers;
  uint16_t port;
  int timeout_ms;
  std::vector<Reply> udp;
  std::vector<Packet> tcp;
  std::vector<Stream> streams;
  uint64_t seed;
};
struct Ask {
  std::string name;
  int family;
  ns_t at;
};

struct Outcome {
  int calls = 0;
  bool failed = false;
  std::string error;
  std::vector<std::string> addresses;
  ns_t at = 0;
  std::string show() const {
    std::string s = failed ? "error: " + error : "addresses:";
    for (auto& a : addresses) s += " " + a;
    return calls ? s : "nothing";
  }
};

struct Mixer {
  uint64_t state;
  uint32_t next() {
    state = state * 6364136223846793005ull + 1442695040888963407ull;
    return static_cast<uint32_t>(state >> 33);
  }
};
void put16(std::string& s, unsigned v) {
  s += static_cast<char>(v >> 8);
  s += static_cast<char>(v);
}
void put32(std::string& s, uint32_t v) {
  put16(s, v >> 16);
  put16(s, v & 0xffff);
}

// One message in answer to `query`.
std::string message(const std::string& query, const Packet& p, bool tcp) {
  Mixer r{p.salt};
  if (p.kind == Garbage) {
    std::string s;
    for (int i = 0, n = 12 + r.next() % 60; i < n; ++i) s += static_cast<char>(r.next());
    if (r.next() % 2 && query.size() > 2) s.replace(0, 2, query, 0, 2);
    return s;
  }
  if (p.kind == Short) return query.substr(0, r.next() % 12);
  if (query.size() < 17) return "";
  size_t end = 12;
  while (end < query.size() && query[end]) end += 1 + (query[end] & 63);
  std::string name = query.substr(12, end + 1 - 12);
  unsigned type = static_cast<unsigned char>(query[end + 1]) << 8 |
                  static_cast<unsigned char>(query[end + 2]);
  unsigned id = static_cast<unsigned char>(query[0]) << 8 |
                static_cast<unsigned char>(query[1]);
  if (p.kind == OtherId) id ^= 1 + r.next() % 65535;
  unsigned rcode = 0;
  if (p.kind == NoSuchName) rcode = 3;
  if (p.kind == ServFail) rcode = 2;
  if (p.kind == Refused) rcode = 5;
  bool truncated = p.kind == Truncated && !tcp;
  int n = p.addresses;
  if (p.kind == Empty || rcode || truncated) n = 0;
  unsigned answer_type = type;
  if (p.kind == OtherFamily) answer_type = type == 1 ? 28 : 1;
  std::string s;
  put16(s, id);
  put16(s, 0x8180 | rcode | (truncated ? 0x200 : 0));
  put16(s, 1);
  put16(s, n + (p.kind == Alias));
  put16(s, 0);
  put16(s, 0);
  if (p.kind == OtherQuestion) {
    s += std::string("\1z\0", 3);
  } else {
    s += name;
  }
  put16(s, type);
  put16(s, 1);
  std::string owner("\xc0\x0c", 2);
  if (p.kind == Alias) {
    s += owner;
    put16(s, 5);
    put16(s, 1);
    put32(s, 60);
    std::string target("\5alias\7example\0", 15);
    put16(s, target.size());
    s += target;
    owner = target;
  }
  for (int i = 0; i < n; ++i) {
    s += owner;
    put16(s, answer_type);
    put16(s, 1);
    put32(s, r.next() % 1000);
    if (answer_type == 1) {
      put16(s, 4);
      put32(s, 0x0a000000 | (r.next() & 0xffffff));
    } else {
      put16(s, 16);
      put32(s, 0x20010db8);
      put32(s, r.next());
      put32(s, r.next());
      put32(s, r.next());
    }
  }
  return s;
}

struct Datagram {
  ns_t at;
  std::string data;
  bool spoofed;
  bool operator<(const Datagram& o) const { return at < o.at; }
};

struct Run;
struct DnsPeer : simnet::Peer {
  virtual const sockaddr_in& remote() = 0;
  bool spoofed = false;
};
// What both runs share with the server.
struct Run {
  const Script& script;
  simnet::World world;
  size_t udp = 0, tcp = 0, streams = 0;  // queries and connections so far
  std::vector<Outcome> outcomes;
  explicit Run(const Script& s) : script(s) {}
};
Run* current = nullptr;

struct UdpPeer : DnsPeer {
  sockaddr_in to;
  std::multiset<Datagram> queue;
  explicit UdpPeer(const sockaddr* a, socklen_t n) {
    memset(&to, 0, sizeof to);
    memcpy(&to, a, std::min<size_t>(n, sizeof to));
    connect_result = 0;
  }
  long write(const std::string& q) override {
    auto& all = current->script.udp;
    size_t i = current->udp++;
    if (i >= all.size()) return q.size();
    if (all[i].send_error) return -all[i].send_error;
    for (auto& p : all[i].packets)
      queue.insert({simnet::now() + p.delay, message(q, p, false),
                    p.kind == OtherSource});
    return q.size();
  }
  ns_t writable_at() override { return simnet::now(); }
  long read(char* data, size_t n) override {
    if (queue.empty() || queue.begin()->at > simnet::now()) return -EAGAIN;
    Datagram d = *queue.begin();
    queue.erase(queue.begin());
    spoofed = d.spoofed;
    n = std::min(n, d.data.size());
    memcpy(data, d.data.data(), n);
    return n;
  }
  ns_t readable_at() override {
    return queue.empty() ? simnet::never : queue.begin()->at;
  }
  const sockaddr_in& remote() override { return to; }
};

struct TcpPeer : DnsPeer {
  sockaddr_in to;
  Stream st;
  std::string in, out;
  size_t piece = 0;
  ns_t ready = simnet::never;
  explicit TcpPeer(const sockaddr* a, socklen_t n) {
    memset(&to, 0, sizeof to);
    memcpy(&to, a, std::min<size_t>(n, sizeof to));
    auto& all = current->script.streams;
    size_t i = current->streams++;
    if (i < all.size()) {
      st = all[i];
    } else {
      st.connect_result = EINPROGRESS;
      st.connect_error = 0;
      st.connected_after = simnet::us;
    }
    connect_result = st.connect_result;
    connected_at = simnet::now() + st.connected_after;
    connect_error = st.connect_error;
  }
  long write(const std::string& q) override {
    in += q;
    while (in.size() >= 2) {
      size_t n = static_cast<unsigned char>(in[0]) << 8 |
                 static_cast<unsigned char>(in[1]);
      if (in.size() < n + 2) break;
      auto& all = current->script.tcp;
      size_t i = current->tcp++;
      if (i < all.size()) {
        std::string m = message(in.substr(2, n), all[i], true);
        put16(out, m.size());
        out += m;
        if (ready == simnet::never) ready = simnet::now() + all[i].delay;
      }
      in.erase(0, n + 2);
    }
    return q.size();
  }
  ns_t writable_at() override { return simnet::now(); }
  bool ended() { return st.close_after >= 0 && piece >= static_cast<size_t>(st.close_after); }
  long read(char* data, size_t n) override {
    if (ended()) return 0;
    if (out.empty()) return -EAGAIN;
    if (piece < st.pieces.size()) n = std::min(n, st.pieces[piece]);
    n = std::min(n, out.size());
    memcpy(data, out.data(), n);
    out.erase(0, n);
    ready = simnet::now() + (piece < st.pauses.size() ? st.pauses[piece] : 0);
    ++piece;
    if (out.empty() && !ended()) ready = simnet::never;
    return n;
  }
  ns_t readable_at() override { return ready; }
  const sockaddr_in& remote() override { return to; }
};

// --- c-ares on simulated sockets --------------------------------------------
bool to_server(const sockaddr* a) {
  if (a->sa_family != AF_INET) return false;
  auto in = reinterpret_cast<const sockaddr_in*>(a);
  if (ntohs(in->sin_port) != current->script.port) return false;
  for (auto& s : current->script.servers)
    if (s.s_addr == in->sin_addr.s_addr) return true;
  return false;
}
ares_socket_t asocket(int, int type, int, void*) {
  int fd = current->world.next_fd();
  auto& s = current->world.sockets[fd];
  s.nonblocking = true;
  s.connecting = (type & 15) == SOCK_STREAM;  // until connect, the type
  return fd;
}
int aclose(ares_socket_t fd, void*) {
  auto& w = current->world;
  auto i = w.sockets.find(fd);
  if (i == w.sockets.end()) {
    w.fail("socket closed twice");
    return -1;
  }
  w.sockets.erase(i);
  forget(fd);
  return 0;
}
int aconnect(ares_socket_t fd, const sockaddr* a, ares_socklen_t n, void*) {
  auto& s = current->world.sockets[fd];
  bool stream = s.connecting;
  s.connecting = false;
  if (!to_server(a)) {  // the library looks for a source address
    errno = ENETUNREACH;
    return -1;
  }
  if (!stream) {
    s.peer.reset(new UdpPeer{a, n});
    return 0;
  }
  s.peer.reset(new TcpPeer{a, n});
  s.connecting = s.peer->connect_result == EINPROGRESS;
  if (!s.peer->connect_result) {
    s.peer->connected_at = simnet::now();
    return 0;
  }
  errno = s.peer->connect_result;
  return -1;
}
ares_ssize_t arecvfrom(ares_socket_t fd, void* p, size_t n, int, sockaddr* from,
                       ares_socklen_t* len, void*) {
  ssize_t k = sim_read(fd, p, n);
  if (k < 0 || !from || !len) return k;
  auto& s = current->world.sockets[fd];
  auto peer = static_cast<DnsPeer*>(s.peer.get());
  sockaddr_in a = peer->remote();
  if (peer->spoofed) a.sin_addr.s_addr ^= htonl(7);
  memcpy(from, &a, std::min<size_t>(*len, sizeof a));
  *len = sizeof a;
  return k;
}
ares_ssize_t asendv(ares_socket_t fd, const iovec* v, int n, void*) {
  std::string s;
  for (int i = 0; i < n; ++i)
    s.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
  return sim_write(fd, s);
}
const ares_socket_functions functions = {asocket, aclose, aconnect, arecvfrom,
                                         asendv};
}  // namespace

extern "C" {
int __real_ares_init_options(ares_channel_t**, const ares_options*, int);
int __wrap_ares_init_options(ares_channel_t** c, const ares_options* o, int m) {
  int r = __real_ares_init_options(c, o, m);
  if (r == ARES_SUCCESS && current) ares_set_socket_functions(*c, &functions, nullptr);
  return r;
}
}

namespace {
struct Callback : DnsResolutionCallback {
  Outcome* outcome;
  int stop_after = -1;
  std::string error;
  void OnDnsResolution(const DnsResolution& r,
                       opentracing::string_view e) noexcept override {
    Outcome& o = *outcome;
    ++o.calls;
    o.at = simnet::now();
    o.failed = !e.empty();
    o.error.assign(e.data() ? e.data() : "", e.size());
    bool all = r.ForeachIpAddress([&](const IpAddress& a) {
      std::ostringstream s;
      s << a;
      o.addresses.push_back(s.str());
      return true;
    });
    if (!all) error = "ForeachIpAddress was not told to stop, and says it was";
    if (o.failed && !o.addresses.empty()) error = "an error and addresses";
    int k = 0;
    int stop = stop_after;
    bool rest = r.ForeachIpAddress([&](const IpAddress&) { return ++k <= stop; });
    int n = static_cast<int>(o.addresses.size());
    if (stop >= 0 && (rest != (n <= stop) || k != std::min(n, stop + 1)))
      error = "ForeachIpAddress did not stop when told to";
  }
};

struct Begin {
  Run& run;
  explicit Begin(Run& r) : run(r) {
    vclock::on = true;
    vclock::elapsed = 0;
    vclock::step = 0;
    random_state = r.script.seed;
    simnet::world = &r.world;
    r.world.by_fd = true;
    current = &r;
    in_case = true;
  }
  ~Begin() {
    in_case = false;
    current = nullptr;
    simnet::world = nullptr;
    vclock::on = false;
  }
};

// The code under test.
void subject(pbt::Case& c, Run& run, const std::vector<Ask>& asks, ns_t until,
             int stop_after, std::string* log) {
  Begin begin{run};
  run.outcomes.assign(asks.size(), Outcome{});
  std::vector<Callback> callbacks(asks.size());
  Logger logger{[log](LogLevel, opentracing::string_view s) {
    log->append(s.data(), s.size());
    *log += '\n';
  }};
  {
    EventBase base;
    DnsResolverOptions options;
    options.resolution_servers = run.script.servers;
    options.resolution_server_port = run.script.port;
    options.timeout = std::chrono::milliseconds{run.script.timeout_ms};
    auto resolver = MakeDnsResolver(logger, base, options);
    for (size_t i = 0; i < asks.size(); ++i) {
      callbacks[i].outcome = &run.outcomes[i];
      callbacks[i].stop_after = stop_after;
      run.world.at(asks[i].at, [&, i] {
        resolver->Resolve(asks[i].name.c_str(), asks[i].family, callbacks[i]);
      });
    }
    simnet::run(until);
    for (size_t i = 0; i < asks.size(); ++i)
      c.check(callbacks[i].error.empty(), "resolution ", i, ": ", callbacks[i].error);
    run.world.timers.clear();
    resolver.reset();
  }
}

// The reference: poll every descriptor the library names, and its timeout.
void reference(Run& run, const std::vector<Ask>& asks, ns_t until) {
  Begin begin{run};
  run.outcomes.assign(asks.size(), Outcome{});
  ares_options o = {};
  o.udp_port = o.tcp_port = run.script.port;
  o.timeout = run.script.timeout_ms;
  o.servers = const_cast<in_addr*>(run.script.servers.data());
  o.nservers = static_cast<int>(run.script.servers.size());
  int mask = ARES_OPT_UDP_PORT | ARES_OPT_TCP_PORT | ARES_OPT_SERVERS;
  if (o.timeout) mask |= ARES_OPT_TIMEOUTMS;
  std::map<int, std::pair<int, int>> interest;
  o.sock_state_cb = [](void* p, ares_socket_t fd, int r, int w) {
    auto& m = *static_cast<std::map<int, std::pair<int, int>>*>(p);
    if (r || w) m[fd] = {r, w};
    else m.erase(fd);
  };
  o.sock_state_cb_data = &interest;
  mask |= ARES_OPT_SOCK_STATE_CB;
  ares_channel_t* channel;
  if (ares_init_options(&channel, &o, mask) != ARES_SUCCESS) abort();
  size_t next = 0;
  while (run.world.error.empty()) {
    ns_t t = next < asks.size() ? asks[next].at : simnet::never;
    timeval tv;
    int why = 0, ready = 0;
    if (t < simnet::now()) t = simnet::now();
    if (ares_timeout(channel, nullptr, &tv)) {
      ns_t d = simnet::now() + tv.tv_sec * 1000000000ll + tv.tv_usec * 1000ll;
      if (d < t) t = d, why = 1;
    }
    for (auto& i : interest) {
      auto& s = run.world.sockets.at(i.first);
      ns_t r = i.second.first ? simnet::ready_read(s) : simnet::never;
      ns_t w = i.second.second ? simnet::ready_write(s) : simnet::never;
      ns_t d = std::max(std::min(r, w), simnet::now());
      if (d < t) t = d, why = 2, ready = i.first;
    }
    if (t > until) break;
    vclock::elapsed = t;
    if (++run.world.fired > 100000) run.world.fail("the reference loop is busy");
    if (why == 0) {
      Outcome* out = &run.outcomes[next];
      auto& a = asks[next++];
      ares_gethostbyname(channel, a.name.c_str(), a.family,
                         [](void* p, int status, int, hostent* h) {
                           Outcome& out = *static_cast<Outcome*>(p);
                           ++out.calls;
                           out.at = simnet::now();
                           out.failed = status != ARES_SUCCESS;
                           if (out.failed) {
                             out.error = ares_strerror(status);
                             return;
                           }
                           for (int i = 0; h && h->h_addr_list[i]; ++i) {
                             char text[64];
                             inet_ntop(h->h_addrtype, h->h_addr_list[i], text, sizeof text);
                             out.addresses.push_back(text);
                           }
                         },
                         out);
    } else if (why == 1) {
      ares_process_fd(channel, ARES_SOCKET_BAD, ARES_SOCKET_BAD);
    } else {
      auto& s = run.world.sockets.at(ready);
      auto in = interest[ready];
      bool r = in.first && simnet::ready_read(s) <= t;
      bool w = in.second && simnet::ready_write(s) <= t;
      if (w && s.peer) s.peer->woken();
      ares_process_fd(channel, r ? ready : ARES_SOCKET_BAD, w ? ready : ARES_SOCKET_BAD);
    }
  }
  vclock::elapsed = std::max(vclock::elapsed, until);
  ares_destroy(channel);
}

Packet packet(pbt::Case& c, int timeout_ms, bool tcp) {
  Packet p;
  // odd, so that nothing arrives at the moment of a timeout
  ns_t span = (timeout_ms ? timeout_ms : 5000) * simnet::ms;
  p.kind = static_cast<Kind>(c.weighted({8, 3, 1, 1, 1, 1, tcp ? 1u : 3u, 1, 3, 1, 2, 2, 2}));
  p.delay = (c.chance(1, 4) ? c.range(0, 3 * span / simnet::us)
                         : c.range(0, span / 4 / simnet::us)) * simnet::us + 501;
  p.addresses = static_cast<int>(c.chance(1, 6) ? c.range(10, 40) : c.range(1, 4));
  p.salt = c.draw(1000000) + 1;
  return p;
}

std::string show(const Packet& p) {
  return std::string(kind_names[p.kind]) + "(" + std::to_string(p.addresses) +
         ") after " + std::to_string(p.delay / 1000) + "us";
}
}  // namespace

PROPERTY(resolutions, p.hang_seconds = 20) {
  Script s;
  for (size_t i = 0, n = 1 + c.draw(2); i < n; ++i) {
    in_addr a;
    a.s_addr = htonl(0x0a010101 + static_cast<uint32_t>(i));
    s.servers.push_back(a);
  }
  s.port = static_cast<uint16_t>(c.range(1, 65535));
  static const int timeouts[] = {100, 2000, 1, 37, 1000, 0};
  s.timeout_ms = c.pick(timeouts);
  s.seed = c.draw(1000) + 1;
  int lost = 0, noise = 0, replies = 0;
  for (size_t i = 0, n = c.size(12); i < n; ++i) {
    Reply r;
    if (c.chance(1, 20)) r.send_error = c.boolean() ? ECONNREFUSED : ENETUNREACH;
    size_t k = c.weighted({3, 6, 3, 1});
    for (size_t j = 0; j < k; ++j) {
      r.packets.push_back(packet(c, s.timeout_ms, false));
      auto kind = r.packets.back().kind;
      noise += kind >= OtherId;
      replies += kind < OtherId;
      c.note("query ", i, ": ", show(r.packets.back()));
    }
    if (r.send_error) c.note("query ", i, ": sending fails");
    if (k == 0) ++lost;
    s.udp.push_back(r);
  }
  for (size_t i = 0, n = c.size(4); i < n; ++i) {
    s.tcp.push_back(packet(c, s.timeout_ms, true));
    c.note("tcp query ", i, ": ", show(s.tcp.back()));
  }
  for (size_t i = 0, n = c.size(4); i < n; ++i) {
    Stream t;
    t.connect_result = c.chance(1, 8) ? ECONNREFUSED : c.chance(1, 4) ? 0 : EINPROGRESS;
    t.connect_error = c.chance(1, 6) ? ECONNREFUSED : 0;
    t.connected_after = c.range(1, 20000) * simnet::us + 77;
    for (size_t j = 0, m = c.size(6); j < m; ++j) {
      t.pieces.push_back(1 + c.size(60));
      t.pauses.push_back(c.range(0, 5000) * simnet::us);
    }
    if (c.chance(1, 6)) t.close_after = static_cast<int>(c.draw(4));
    c.note("connection ", i, ": ", t.connect_result, " ", t.connect_error, " after ",
           t.connected_after / 1000, "us, ", t.pieces.size(), " pieces, closed after ",
           t.close_after);
    s.streams.push_back(t);
  }
  std::vector<Ask> asks;
  ns_t at = 0;
  ns_t span = (s.timeout_ms ? s.timeout_ms : 5000) * simnet::ms;
  for (size_t i = 0, n = 1 + c.draw(4); i < n; ++i) {
    static const char* const names[] = {
        "one.example", "two.example", "long.name.of.a.service.example",
        "10.1.2.3", "2001:db8::7", "localhost", "single", "", "bad..name",
        "x.onion", "trailing.example.", "\xc3\xbc.example",
        "a-label-that-is-longer-than-the-sixty-three-characters-that-are-allowed-in-a-name.example"};
    Ask a;
    a.name = c.chance(1, 3) ? c.pick(names) : names[c.draw(2)];
    a.family = c.chance(1, 3) ? AF_INET6 : AF_INET;
    if (i) at += c.chance(1, 3) ? 0 : c.range(0, (c.boolean() ? 2 : 40) * span / simnet::us) * simnet::us + 333;
    a.at = at;
    c.note("resolve ", pbt::Case::quote(a.name), " family ", a.family == AF_INET ? 4 : 6, " at ", at / 1000, "us");
    asks.push_back(a);
  }
  // every candidate name, server and try, with doubling timeouts
  ns_t until = at + 200 * span * static_cast<ns_t>(s.servers.size()) * (1 + asks.size());
  bool early = c.chance(1, 6);
  if (early) until = c.range(0, (at + 8 * span) / simnet::us) * simnet::us + 999;
  if (early) c.note("the resolver is destroyed at ", until / 1000, "us");
  int stop_after = static_cast<int>(c.draw(3)) - 1;

  Run ref{s}, sub{s};
  reference(ref, asks, until);
  if (!ref.world.error.empty()) return c.exclude(ref.world.error);
  std::string log;
  subject(c, sub, asks, until, stop_after, &log);
  c.check(sub.world.error.empty(), sub.world.error);
  c.check(sub.world.sockets.empty(), sub.world.sockets.size(), " sockets left open");
  for (size_t i = 0; i < asks.size(); ++i) {
    auto& got = sub.outcomes[i];
    auto& want = ref.outcomes[i];
    if (asks[i].at > until) {
      c.equal(got.calls, 0, "calls of a callback never given");
      continue;
    }
    c.check(got.calls == 1, "resolution ", i, " of ", pbt::Case::quote(asks[i].name),
            ": its callback was called ", got.calls, " times; log: ", log);
    if (want.calls != 1) return c.exclude("the reference did not answer");
    c.check(got.show() == want.show(), "resolution ", i, ": got ", got.show(),
            ", expected ", want.show());
    c.check(got.at <= want.at + span, "resolution ", i, " ended at ", got.at / 1000,
            "us, expected ", want.at / 1000, "us");
  }
  c.equal(sub.udp, ref.udp, "queries sent");
  size_t good = 0;
  for (auto& o : ref.outcomes) good += !o.failed && o.calls;
  if (ref.tcp) c.classify("over TCP");
  if (good) c.classify("resolved");
  if (good < asks.size()) c.classify("failed");
  if (ref.udp > asks.size()) c.classify("asked again");
  if (early) c.classify("destroyed early");
  if (ref.udp > 1 && (lost || noise) && replies) c.nontrivial();
}
#endif
