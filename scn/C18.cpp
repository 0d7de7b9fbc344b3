// UDP: whole packets somebody sent, with their sender, and nothing else; never waits.
#include "common.h"
#include <rpp/net.h>
#include <netinet/in.h>

using Net::Udp;
using Net::Packet;

struct Sent {
    u16 dport;
    u32 ip;    // source, host order
    u16 sport; // 0: not known (unbound sender)
    u64 sender; // scenario's number of the sending socket, or ~0
    u64 len, seed;
    u64 got;
};
constexpr u64 NS = 400;
static Sent sent[NS];
static u64 n_sent, received[4];
static u16 learnt[8]; // port of an unbound sender, once seen
static bool dups;
static u32 recv_err;
constexpr u16 BASE = 7000;

static u8 byte_of(u64 seed, u64 i) {
    if(i < 4) return static_cast<u8>(seed >> (8 * i)); // distinguishes all but the shortest
    u64 x = (seed * 1000003 + i) * 0x9e3779b97f4a7c15ull;
    return static_cast<u8>(x >> 53);
}
static u64 length() {
    switch(sim_work(8)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return 1472;
    case 3: return 1471;
    case 4: return 255 + sim_work(3);
    default: return sim_work(1473);
    }
}
struct Buffer { // on the simulated heap, where writes outside are seen
    Packet* p;
    Buffer() {
        p = new(Mhidden::alloc(sizeof(Packet))) Packet{};
    }
    ~Buffer() {
        Mhidden::free(p);
    }
};
static void from_of(const Net::Address& a, u32& ip, u16& port) {
    static_assert(sizeof(Net::Address) >= sizeof(sockaddr_in));
    sockaddr_in s;
    __builtin_memcpy(&s, &a, sizeof s);
    ip = ntohl(s.sin_addr.s_addr);
    port = ntohs(s.sin_port);
}
static u64 record(u16 dport, u32 ip, u16 sport, u64 sender, u64 len) {
    Sim_Atomic a;
    if(n_sent >= NS) sim_violation("internal:sent", "scenario ran out of packets");
    sent[n_sent] = {dport, ip, sport, sender, len, n_sent * 7 + 1, 0};
    return n_sent++;
}
static void do_send(Udp& s, u64 sender, u16 sport, u16 dport) {
    Buffer b;
    u64 len = length();
    if(!sport && len < 4) len += 4; // told apart by content, since its port is not known beforehand
    u64 i = record(dport, 0x7f000001, sport, sender, len);
    for(u64 k = 0; k < 1472; k++) (*b.p)[k] = k < len ? byte_of(sent[i].seed, k) : 0xee;
    Net::Address to = sim_chance(1, 2) ? Net::Address{dport} : Net::Address{"127.0.0.1"_v, dport};
    u64 n = s.send(to, *b.p, len);
    SIM_CHECK(n == len, "send-count", "send of %llu bytes reports %llu", (ull)len, (ull)n);
}
// Returns true if there was a packet.
static bool do_recv(Udp& s, u64 me, bool lossy_errors) {
    Buffer b;
    u16 port = static_cast<u16>(BASE + me);
    for(u64 k = 0; k < 1472; k++) (*b.p)[k] = 0xdd;
    u64 t0, st0, queued = 0;
    {
        Sim_Atomic a;
        t0 = sim_now();
        st0 = sim_stalled();
        queued = sim_net_queued(port);
    }
    u64 faults = sim_fault_count(F_RECV_ERR) + sim_fault_count(F_EINTR_IO);
    auto r = s.recv(*b.p);
    Sim_Atomic a;
    u64 dt = sim_now() - t0, st = sim_stalled() - st0;
    SIM_CHECK(dt <= st + 5000000, "waited", "recv took %llu ns", (ull)dt);
    if(!r.ok()) {
        // Only this thread takes packets from this socket.
        if(!lossy_errors || faults == sim_fault_count(F_RECV_ERR) + sim_fault_count(F_EINTR_IO))
            SIM_CHECK(queued == 0, "not-returned", "recv returned nothing although %llu packets were waiting", (ull)queued);
        return false;
    }
    u64 len = r->length;
    u64 held = len < 1472 ? len : 1472;
    if(len > 1472) sim_probe("too long for the buffer");
    u32 ip;
    u16 sport;
    from_of(r->from, ip, sport);
    for(u64 i = 0; i < n_sent; i++) {
        Sent& p = sent[i];
        if(p.dport != port || p.len != len || p.ip != ip) continue;
        if(p.sport ? p.sport != sport : (learnt[p.sender] && learnt[p.sender] != sport)) continue;
        if(p.got >= (dups ? 2 : 1)) continue;
        bool same = true;
        for(u64 k = 0; k < held && same; k++) same = (*b.p)[k] == byte_of(p.seed, k);
        if(!same) continue;
        p.got++;
        if(!p.sport && len >= 4) learnt[p.sender] = sport;
        received[me]++;
        for(u64 k = held; k < 1472; k++)
            if((*b.p)[k] != 0xdd) sim_violation("overwritten", "recv of %llu bytes changed byte %llu of the buffer", (ull)len, (ull)k);
        return true;
    }
    sim_violation("invented", "recv returned %llu bytes from %08x:%u that nobody sent here", (ull)len, ip, sport);
}
static void peer(u64 me, u64 peers, u64 ops, bool bound) {
    Udp s;
    u16 port = static_cast<u16>(BASE + me);
    if(bound) s.bind(sim_chance(1, 2) ? Net::Address{port} : Net::Address{"127.0.0.1"_v, port});
    for(u64 i = 0; i < ops; i++) {
        u16 to = static_cast<u16>(BASE + sim_work(peers + (sim_chance(1, 6) ? 1 : 0))); // sometimes nobody listens
        switch(sim_work(7)) {
        case 0:
        case 1: do_send(s, me, bound ? port : 0, to); break;
        case 2:
        case 3:
            if(bound) do_recv(s, me, true);
            break;
        case 4:
            if(sim_chance(1, 3)) {
                Udp t{rpp::move(s)};
                Udp u;
                u = rpp::move(t);
                s = rpp::move(u);
                sim_probe("moved");
            } else if(bound) {
                // A stranger, far away.
                // Sometimes with more than fits: told by the length, which is still the real one.
                u64 len = sim_chance(1, 4) ? 1473 + sim_work(sim_chance(1, 4) ? 7000 : 100) : length();
                u32 ip = 0x0a000000u + static_cast<u32>(sim_work(0xffffff));
                u16 sp = static_cast<u16>(1 + sim_work(65535));
                u64 k = record(port, ip, sp, ~0ull, len);
                static u8 data[9000];
                Sim_Atomic at;
                for(u64 q = 0; q < len; q++) data[q] = byte_of(sent[k].seed, q);
                sim_net_inject(ip, sp, port, data, len);
                sim_probe("stranger");
            }
            break;
        case 5:
            if(bound && sim_chance(1, 4)) { // for a while, every attempt to receive fails
                sim_fault(F_RECV_ERR, 65536);
                for(u64 k = 1 + sim_work(3); k; k--) do_recv(s, me, true);
                sim_fault(F_RECV_ERR, recv_err);
                sim_probe("nothing can be received");
            }
            break;
        default: dawdle(); break;
        }
    }
    if(!bound) return;
    // The network calms down: everything it delivered comes out.
    sim_sleep(100000000);
    u64 idle = 0;
    for(u64 k = 0; k < 2000 && idle < 3; k++) {
        if(do_recv(s, me, true)) idle = 0;
        else {
            bool more;
            {
                Sim_Atomic a;
                more = sim_net_queued(port) != 0;
            }
            if(!more) idle++, sim_sleep(10000000);
        }
    }
    Sim_Atomic a;
    u64 waiting = sim_net_queued(port); // sent late, by a thread that was stalled
    SIM_CHECK(received[me] + waiting == sim_net_delivered(port), "lost-after-delivery", "the network delivered %llu packets to port %u, recv returned %llu", (ull)sim_net_delivered(port), port, (ull)received[me]);
}
// What `from` names is where an answer arrives.
static void answer() {
    Udp a, b;
    b.bind(Net::Address{BASE});
    Buffer p;
    (*p.p)[0] = 42;
    u64 n = a.send(Net::Address{"127.0.0.1"_v, BASE}, *p.p, 1);
    SIM_CHECK(n == 1, "send-count", "send of 1 byte reports %llu", (ull)n);
    sim_sleep(1000000);
    auto r = b.recv(*p.p);
    SIM_CHECK(r.ok() && r->length == 1 && (*p.p)[0] == 42, "not-returned", "a packet that arrived was not returned");
    (*p.p)[0] = 43;
    (*p.p)[1] = 44;
    n = b.send(r->from, *p.p, 2);
    SIM_CHECK(n == 2, "send-count", "send of 2 bytes reports %llu", (ull)n);
    sim_sleep(1000000);
    (*p.p)[0] = (*p.p)[1] = 0;
    auto q = a.recv(*p.p);
    SIM_CHECK(q.ok() && q->length == 2 && (*p.p)[0] == 43 && (*p.p)[1] == 44, "wrong-sender", "an answer to the address a packet came from did not arrive there");
    u32 ip;
    u16 port;
    from_of(q->from, ip, port);
    SIM_CHECK(ip == 0x7f000001 && port == BASE, "wrong-sender", "the answer came from %08x:%u", ip, port);
    auto none = a.recv(*p.p);
    SIM_CHECK(!none.ok(), "invented", "recv returned a packet that nobody sent");
    sim_probe("answer");
}
// The address a text stands for; often it is part of a longer text, or ends where its memory ends.
static Net::Address spelled(u32 ip, u16 port) {
    char t[32];
    int n = __builtin_snprintf(t, sizeof t, "%u.%u.%u.%u", ip >> 24, (ip >> 16) & 255, (ip >> 8) & 255, ip & 255);
    u64 len = static_cast<u64>(n);
    u64 extra = sim_work(3);
    char* text = static_cast<char*>(Mhidden::alloc(len + extra));
    for(u64 i = 0; i < len; i++) text[i] = t[i];
    for(u64 i = 0; i < extra; i++) text[len + i] = "7.x:"[sim_work(4)];
    Net::Address a{String_View{reinterpret_cast<const u8*>(text), len}, port};
    Mhidden::free(text);
    u32 got;
    u16 gp;
    from_of(a, got, gp);
    SIM_CHECK(got == ip && gp == port, "wrong-address", "address %.*s:%u became %08x:%u", n, t, port, got, gp);
    return a;
}
// A text that is no address stops the process, whatever stands behind it.
static bool no_address;
static void invalid() {
    sim_on_exit([](int how, int code) {
        SIM_CHECK(no_address, "fatal-error", "the process stopped (%d, %d) without a reason", how, code);
        SIM_CHECK(how != 0 || code != 0, "success", "the process stopped with success");
        sim_probe("no address");
        sim_pass();
    });
    static const char* const bad[] = {"", "1", "1.2.3", "1.2.3.", "256.1.1.1", "1.2.3.4.5", "1.2.3.4 ", " 1.2.3.4", "1.2.3.4:80", "localhost", "1,2,3,4", "1.2.3.-4", "::1"};
    const char* text = bad[sim_work(sizeof bad / sizeof bad[0])];
    char t[32];
    u64 n = 0;
    while(text[n]) t[n] = text[n], n++;
    for(u64 i = n; i < sizeof t; i++) t[i] = ".4\0"[sim_work(3)];
    no_address = true;
    Net::Address a{String_View{reinterpret_cast<const u8*>(t), n}, BASE};
    u32 ip;
    u16 port;
    from_of(a, ip, port);
    sim_violation("wrong-address", "'%s' is no address, but became %08x", text, ip);
}
static void many(u64 n = 4) {
    u32 ip = 0;
    for(u64 i = 0; i < n; i++) {
        if(i && sim_chance(1, 2)) { // nearly the same as the last one, perhaps the same text with more or less behind
            u32 last = ip & 255;
            ip &= ~255u;
            if(sim_chance(1, 2)) ip |= last < 25 ? last * 10 + static_cast<u32>(sim_work(10)) : last / 10;
            else ip |= static_cast<u32>(sim_work(256));
            (void)spelled(ip, static_cast<u16>(BASE + sim_work(3)));
            continue;
        }
        ip = static_cast<u32>(sim_work(0x100000000ull));
        for(u64 k = 0; k < 4; k++)
            if(sim_chance(1, 3)) ip &= ~(0xffu << (8 * k)) | (static_cast<u32>(sim_work(12)) << (8 * k));
        (void)spelled(ip, static_cast<u16>(sim_work(65536)));
    }
}
static void addresses() {
    if(sim_chance(1, 5)) {
        invalid();
        return;
    }
    u64 n = 1 + sim_work(6);
    i64 net = sys_net_allocs();
    many(n);
    SIM_CHECK(sys_net_allocs() == net, "memory-leaked", "%lld allocations more than before", (long long)(sys_net_allocs() - net));
    // And a packet gets there.
    Udp a, b;
    b.bind(spelled(0x7f000001, BASE));
    Buffer p;
    (*p.p)[0] = 9;
    u64 m = a.send(spelled(0x7f000001, BASE), *p.p, 1);
    SIM_CHECK(m == 1, "send-count", "send of 1 byte reports %llu", (ull)m);
    sim_sleep(1000000);
    auto r = b.recv(*p.p);
    SIM_CHECK(r.ok() && r->length == 1 && (*p.p)[0] == 9, "not-returned", "a packet that arrived was not returned");
    sim_probe("addresses");
}
void scenario() {
    if(sim_chance(1, 12)) {
        warm_up();
        if(sim_chance(1, 3)) { // others do it at the same time
            T_ a{[]() { many(); }};
            many();
        }
        addresses();
        return;
    }
    if(sim_chance(1, 8)) {
        answer();
        return;
    }
    dups = sim_chance(1, 2);
    sim_fault(F_NET_DROP, sim_chance(1, 3) ? 12000 : 0);
    sim_fault(F_NET_DUP, dups ? 12000 : 0);
    sim_fault(F_NET_DELAY, sim_chance(1, 2) ? 30000 : 0);
    recv_err = sim_chance(1, 3) ? 8000 : 0;
    sim_fault(F_RECV_ERR, recv_err);
    sim_fault(F_EINTR_IO, sim_chance(1, 3) ? 8000 : 0);
    sim_fault(F_STALL, sim_chance(1, 6) ? 200 : 0);
    sim_net_limits(1000 * (1 + sim_work(20000)), sim_chance(1, 4) ? 1 + static_cast<int>(sim_work(6)) : 1000);
    u64 n = 1 + sim_work(4);
    Vec<T_, Mhidden> ts;
    for(u64 i = 1; i < n; i++) {
        bool bound = sim_chance(3, 4);
        u64 ops = 2 + sim_work(14);
        ts.push(T_{[i, n, ops, bound]() { peer(i, n, ops, bound); }});
    }
    peer(0, n, 2 + sim_work(14), true);
}
