// Buffers and everything that is serialised (C19).
//   buf-N    all sequences of operations on buffers of certain sizes, compared with a model after every step
//   rt-*     all combinations of boundary values of every serialised type, read back
//   cut-*    every truncation of a serialised object
// Memory that the code under test allocates with new[] ends at a page that cannot be touched, and has marks in front.
#include "../rt/harness.hpp"
#include "cornerstone.hxx"
#include <cstring>
#include <new>
#include <sstream>
#include <sys/mman.h>

using namespace cornerstone;

// ---- guarded memory
static const size_t SLOT = 5 << 14, GUARD = 4096, NSLOT = 48; // 80 KB each
static char* pool;
static bool guard_on;
struct SlotInfo { bool used; size_t n; };
static SlotInfo slots[NSLOT];
static int next_slot;
static const size_t MARK = 32;
static void* g_alloc(size_t n)
{
    if (n > SLOT - MARK) return nullptr;
    for (size_t k = 0; k < NSLOT; k++)
    {
        int i = (next_slot + k) % NSLOT;
        if (slots[i].used) continue;
        slots[i] = {true, n};
        next_slot = (i + 1) % NSLOT;
        char* e = pool + (size_t)i * (SLOT + GUARD) + SLOT;
        memset(e - n - MARK, 0xEF, MARK);
        memset(e - n, 0xA5, n);
        return e - n;
    }
    return nullptr;
}
static bool g_free(void* p)
{
    if (!pool || p < pool || p >= pool + NSLOT * (SLOT + GUARD)) return false;
    int i = ((char*)p - pool) / (SLOT + GUARD);
    char* e = pool + (size_t)i * (SLOT + GUARD) + SLOT;
    if (!slots[i].used || p != e - slots[i].n) { hx::fail("memory is freed twice or at another address than it was allocated"); return true; }
    for (size_t k = 1; k <= MARK; k++)
        if ((unsigned char)*((char*)p - k) != 0xEF) { hx::fail("memory in front of a buffer was overwritten"); break; }
    slots[i].used = false;
    return true;
}
void* operator new[](size_t n)
{
    if (guard_on)
        if (void* p = g_alloc(n)) return p;
    return operator new(n);
}
void operator delete[](void* p) noexcept { if (!g_free(p)) operator delete(p); }
void operator delete[](void* p, size_t) noexcept { if (!g_free(p)) operator delete(p); }

static void guarded(const std::function<void()>& f, const char* what)
{
    memset(slots, 0, sizeof slots);
    next_slot = 0;
    hx::in_world(
        [&] {
            guard_on = true;
            try { f(); }
            catch (const std::exception& e) { hx::fail("%s fails: %s", what, e.what()); }
            guard_on = false;
            for (auto& s : slots)
                if (s.used && !hx::failed()) hx::fail("%s: a buffer is never freed", what);
        },
        what);
    guard_on = false;
}
#define NEED(c, ...) do { if (!(c)) { hx::fail(__VA_ARGS__); return; } } while (0)

// ================================================================ operations on a buffer
// two buffers with their models; bytes that were never written are not compared
enum { P_BYTE, P_INT, P_ULONG, P_STR, P_BUF, G_BYTE, G_INT, G_ULONG, G_STR, G_BUF, POS, COPY, OUT, IN, NOP };
struct Op { int t; int a; };
static std::vector<Op>* alphabet;
static std::string opname(const Op& o)
{
    static const char* n[] = {"put(byte", "put(int32", "put(ulong", "put(string ", "put(buffer ", "get_byte(", "get_int(", "get_ulong(", "get_str(", "get(buffer ", "pos(", "copy(", "write to stream(", "read from stream("};
    return n[o.t] + std::to_string(o.a) + ")";
}
static const int32 IV[] = {0, 1, -1, 0x7fffffff, (int32)0x80000000, 0x01020384};
static const ulong UV[] = {0, 1, ~0ull, 1ull << 63, 0x0102030405060788ull, 0xffffffffull};
static const char* SV[] = {"", "a", "xyz"};
static const size_t BV[] = {0, 1, 3, 8, 0x8000};
struct Mod { std::vector<int> d; size_t pos; }; // -1: never written
static void cmp(buffer& b, Mod& m, const char* when)
{
    NEED(b.size() == m.d.size(), "%s: a buffer of %zu bytes says it has %zu", when, m.d.size(), b.size());
    NEED(b.pos() == m.pos, "%s: the position is %zu instead of %zu", when, b.pos(), m.pos);
    size_t p = m.pos;
    const byte* base = b.data() - p;
    for (size_t i = 0; i < m.d.size(); i++)
        if (m.d[i] >= 0) NEED(base[i] == m.d[i], "%s: byte %zu of the buffer has changed", when, i);
}
static void fill(buffer& b, Mod& m, int seed)
{
    for (size_t i = 0; i < m.d.size(); i++)
    {
        byte v = (byte)(i * 7 + seed + (i >> 8));
        b.put(v);
        m.d[i] = v;
    }
    b.pos(0);
}
template <class F> static bool throws(F f)
{
    try { f(); return false; }
    catch (const std::overflow_error&) { return true; }
}
static void step(bufptr& b, Mod& m, const Op& o, int k)
{
    std::string nm = opname(o);
    const char* w = nm.c_str();
    size_t av = m.d.size() - m.pos;
    std::vector<byte> bytes;
    bool thr = false;
    auto fits = [&](size_t n) { return av >= n; };
    switch (o.t)
    {
    case P_BYTE: bytes = {(byte)(o.a + k)}; thr = throws([&] { b->put((byte)(o.a + k)); }); break;
    case P_INT: for (int i = 0; i < 4; i++) bytes.push_back((byte)((uint32_t)IV[o.a] >> (8 * i))); thr = throws([&] { b->put(IV[o.a]); }); break;
    case P_ULONG: for (int i = 0; i < 8; i++) bytes.push_back((byte)(UV[o.a] >> (8 * i))); thr = throws([&] { b->put(UV[o.a]); }); break;
    case P_STR: { std::string s = SV[o.a]; for (char c : s) bytes.push_back(c); bytes.push_back(0); thr = throws([&] { b->put(s); }); break; }
    case P_BUF:
    {
        // a buffer that is not at its beginning
        bufptr x = buffer::alloc(BV[o.a] + 2);
        Mod xm{std::vector<int>(BV[o.a] + 2, -1), 0};
        fill(*x, xm, 31 + k);
        x->pos(2);
        xm.pos = 2;
        for (size_t i = 2; i < xm.d.size(); i++) bytes.push_back(xm.d[i]);
        thr = throws([&] { b->put(*x); });
        cmp(*x, xm, w);
        break;
    }
    default: break;
    }
    if (o.t <= P_BUF)
    {
        if (bytes.empty()) { NEED(!thr, "%s is refused", w); return; }
        NEED(thr == !fits(bytes.size()), "%s with room for %zu bytes: %s", w, av, thr ? "refused although it fits" : "accepted although it does not fit");
        if (!thr)
            for (byte c : bytes) m.d[m.pos++] = c;
        return;
    }
    auto known = [&](size_t n) { for (size_t i = 0; i < n && m.pos + i < m.d.size(); i++) if (m.d[m.pos + i] < 0) return false; return true; };
    auto num = [&](int n) { ulong v = 0; for (int i = 0; i < n; i++) v |= (ulong)m.d[m.pos + i] << (8 * i); return v; };
    switch (o.t)
    {
    case G_BYTE: { byte v = 0; thr = throws([&] { v = b->get_byte(); }); NEED(thr == !fits(1), "%s with %zu bytes left: %s", w, av, thr ? "refused" : "accepted"); if (!thr) { NEED(!known(1) || v == (byte)num(1), "%s returns another value than was put", w); m.pos++; } break; }
    case G_INT: { int32 v = 0; thr = throws([&] { v = b->get_int(); }); NEED(thr == !fits(4), "%s with %zu bytes left: %s", w, av, thr ? "refused" : "accepted"); if (!thr) { NEED(!known(4) || v == (int32)num(4), "%s returns another value than was put", w); m.pos += 4; } break; }
    case G_ULONG: { ulong v = 0; thr = throws([&] { v = b->get_ulong(); }); NEED(thr == !fits(8), "%s with %zu bytes left: %s", w, av, thr ? "refused" : "accepted"); if (!thr) { NEED(!known(8) || v == num(8), "%s returns another value than was put", w); m.pos += 8; } break; }
    case G_STR:
    {
        if (!known(m.d.size())) { bool z = false; for (size_t i = m.pos; i < m.d.size() && !z; i++) { if (m.d[i] < 0) return; z = m.d[i] == 0; } }
        size_t i = m.pos;
        std::string s;
        while (i < m.d.size() && m.d[i]) s += (char)m.d[i++];
        const char* p = b->get_str();
        if (i >= m.d.size()) NEED(!p, "%s: a string without an end is returned", w);
        else
        {
            NEED(p && s == p, "%s returns another string than was put", w);
            m.pos = i + 1;
        }
        break;
    }
    case G_BUF:
    {
        size_t n = BV[o.a];
        bufptr x = buffer::alloc(n + 1);
        Mod xm{std::vector<int>(n + 1, -1), 0};
        fill(*x, xm, 77);
        x->pos(1);
        xm.pos = 1;
        thr = throws([&] { b->get(x); });
        if (n) NEED(thr == !fits(n), "%s with %zu bytes left: %s", w, av, thr ? "refused" : "accepted");
        else NEED(!thr, "%s is refused", w);
        if (!thr)
        {
            for (size_t i = 0; i < n; i++) xm.d[1 + i] = m.d[m.pos + i];
            m.pos += n;
        }
        cmp(*x, xm, w);
        break;
    }
    case POS:
    {
        size_t p = o.a == 0 ? 0 : o.a == 1 ? m.d.size() : o.a == 2 ? m.d.size() + 1 : o.a == 3 ? m.d.size() / 2 : o.a == 4 ? (m.d.size() >= 5 ? m.d.size() - 5 : 0) : 0x10000 + m.d.size();
        b->pos(p);
        m.pos = p > m.d.size() ? m.d.size() : p;
        break;
    }
    case COPY:
    {
        bufptr x = buffer::copy(*b);
        Mod xm{std::vector<int>(m.d.begin() + m.pos, m.d.end()), 0};
        cmp(*x, xm, w);
        break;
    }
    case OUT:
    {
        if (!known(m.d.size())) return;
        std::ostringstream os;
        os << *b;
        std::string s = os.str();
        NEED(s.size() == av, "%s writes %zu bytes instead of %zu", w, s.size(), av);
        for (size_t i = 0; i < av; i++) NEED((byte)s[i] == m.d[m.pos + i], "%s writes another byte", w);
        break;
    }
    case IN:
    {
        std::string s;
        for (size_t i = 0; i < av + 1; i++) s += (char)(i * 3 + k + 1);
        std::istringstream is(s);
        is >> *b;
        for (size_t i = 0; i < av; i++) m.d[m.pos + i] = (byte)s[i];
        if (av)
        {
            NEED(is.tellg() == (std::streamoff)av, "%s consumes another number of bytes", w);
            std::istringstream shorts(s.substr(0, av - 1));
            bufptr x = buffer::alloc(av);
            bool f = false;
            try { shorts >> *x; } catch (const std::ios::failure&) { f = true; }
            NEED(f, "%s: a stream that is too short is accepted", w);
        }
        break;
    }
    }
}
static const int SZ[] = {0, 1, 3, 4, 5, 8, 9, 13, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0x10000, 0x10005};
static struct { int size, start, n; Op ops[12]; } B;
struct Buf : ex::System
{
    void enabled(std::vector<ex::Choice>& out) override
    {
        if (hx::failed()) return;
        for (size_t i = 0; i < alphabet->size(); i++)
        {
            ex::Choice c;
            c.t = (uint8_t)i;
            c.cls = 1;
            out.push_back(c);
        }
    }
    void apply(const ex::Choice& c) override
    {
        B.ops[B.n++] = (*alphabet)[c.t];
        guarded(
            [] {
                bufptr b = buffer::alloc(B.size);
                Mod m{std::vector<int>(B.size, -1), 0};
                if (B.start == 1) fill(*b, m, 3);
                if (B.start == 2 && B.size > 20) { b->pos(B.size - 7); m.pos = B.size - 7; }
                for (int k = 0; k < B.n && !hx::failed(); k++)
                {
                    step(b, m, B.ops[k], k);
                    // big ones: only the last step is new
                    if (!hx::failed() && (B.size < 100 || k == B.n - 1)) cmp(*b, m, opname(B.ops[k]).c_str());
                }
            },
            "a sequence of buffer operations");
        hx::cov("sequences of buffer operations");
    }
    uint64_t hash() override { return rt::hash_bytes(&B, sizeof B, 1); }
    const char* violation() override { return hx::failed(); }
    std::string text(const ex::Choice& c) override { return opname((*alphabet)[c.t]); }
};

// ================================================================ read back
static const ulong DV[] = {0, 1, 0x0102030405060788ull, ~0ull, 1ull << 32};
static const int32 ID[] = {0, 1, -1, 0x7fffffff, (int32)0x80000000};
static const char* EP[] = {"", "tcp://127.0.0.1:9001", "x"};
static ptr<cluster_config> mk_conf(int li, int pi, int srv)
{
    ptr<cluster_config> c(cs_new<cluster_config>(DV[li], DV[pi]));
    // srv: 0 none, then one, two and three servers
    auto add = [&](int i, int e) { c->get_servers().push_back(cs_new<srv_config>(ID[i], e == 3 ? std::string(0x8001, 'q') : std::string(EP[e]))); };
    int k = srv - 1;
    if (srv == 0) return c;
    if (k < 20) { add(k / 4, k % 4); return c; }
    k -= 20;
    if (k < 9) { add(1, k / 3); add(2, k % 3); return c; }
    k -= 9;
    add(k % 5, 1); add((k + 1) % 5, 2); add((k + 2) % 5, 0);
    return c;
}
static const int NCONF = 1 + 20 + 9 + 5;
static bool same_conf(cluster_config& a, cluster_config& b)
{
    if (a.get_log_idx() != b.get_log_idx() || a.get_prev_log_idx() != b.get_prev_log_idx() || a.get_servers().size() != b.get_servers().size()) return false;
    auto j = b.get_servers().begin();
    for (auto& s : a.get_servers())
    {
        if (s->get_id() != (*j)->get_id() || s->get_endpoint() != (*j)->get_endpoint()) return false;
        ++j;
    }
    return true;
}
static bool at_end(buffer& b) { return b.pos() == b.size(); }
static const size_t DS[] = {0, 1, 5, 0x7fff, 0x8000};
static bufptr data(size_t n, size_t skip = 0)
{
    bufptr b = buffer::alloc(n + skip);
    for (size_t i = 0; i < n + skip; i++) b->put((byte)(i * 5 + (i >> 8) + 1 - skip));
    b->pos(skip);
    return b;
}
static bool same_data(buffer& a, size_t n, size_t skip)
{
    if (a.size() != n || a.pos() != 0) return false;
    for (size_t i = 0; i < n; i++)
        if (a.data()[i] != (byte)((i + skip) * 5 + ((i + skip) >> 8) + 1 - skip)) return false;
    return true;
}
// put what was serialised behind and before something else
static bufptr embed(buffer& b, int front)
{
    bufptr o = buffer::alloc(b.size() + front);
    for (int i = 0; i < front; i++) o->put((byte)0x77);
    o->put(b);
    o->pos(front);
    return o;
}
enum { K_SRV, K_CONF, K_SNAP, K_SYNC, K_LOG, K_N };
static const char* KN[] = {"srv", "conf", "snap", "sync", "log"};
static int kind;
static bool thorough_;
static long cases;
static void rt_leaf(int a, int b)
{
    switch (kind)
    {
    case K_SRV:
        for (int e = 0; e < 4; e++)
        {
            srv_config c(ID[a], e == 3 ? std::string(0x7ffa + b, 'w') : std::string(EP[e]));
            bufptr s = c.serialize();
            NEED(s->pos() == 0, "a serialised server is not at its beginning");
            bufptr o = embed(*s, b);
            ptr<srv_config> r = srv_config::deserialize(*o);
            NEED(r->get_id() == c.get_id() && r->get_endpoint() == c.get_endpoint() && at_end(*o), "a server entry comes back different");
            cases++;
        }
        break;
    case K_CONF:
        for (int srv = 0; srv < NCONF; srv++)
        {
            ptr<cluster_config> c = mk_conf(a, b, srv);
            bufptr s = c->serialize();
            NEED(s->pos() == 0, "a serialised configuration is not at its beginning");
            bufptr o = embed(*s, srv % 3);
            ptr<cluster_config> r = cluster_config::deserialize(*o);
            NEED(same_conf(*c, *r) && at_end(*o), "a configuration comes back different");
            cases++;
        }
        break;
    case K_SNAP:
    case K_SYNC:
        for (int z = 0; z < 5; z++)
            for (int li = 0; li < (thorough_ ? 5 : 3); li++)
                for (int pi = 0; pi < (thorough_ ? 5 : 3); pi++)
                    for (int srv = 0; srv < NCONF; srv += srv < 21 && kind == K_SYNC && !thorough_ ? 5 : 1)
                    {
                        ptr<cluster_config> c = mk_conf(li, pi, srv);
                        ptr<snapshot> sn(cs_new<snapshot>(DV[a], DV[b], c, DV[z]));
                        if (kind == K_SNAP)
                        {
                            bufptr s = sn->serialize();
                            NEED(s->pos() == 0, "a serialised snapshot is not at its beginning");
                            bufptr o = embed(*s, z);
                            ptr<snapshot> r = snapshot::deserialize(*o);
                            NEED(r->get_last_log_idx() == DV[a] && r->get_last_log_term() == DV[b] && r->size() == DV[z] && same_conf(*c, *r->get_last_config()) && at_end(*o), "a snapshot descriptor comes back different");
                            cases++;
                            continue;
                        }
                        for (int of = 0; of < 5; of++)
                            for (int dn = 0; dn < 2; dn++)
                            {
                                size_t n = DS[srv >= 21 ? (srv + of) % 5 : (srv + of) % 3], skip = (of + li) % 2;
                                snapshot_sync_req q(sn, DV[of], data(n, skip), dn);
                                bufptr o = q.serialize();
                                NEED(o->pos() == 0, "a serialised snapshot block is not at its beginning");
                                ptr<snapshot_sync_req> r = snapshot_sync_req::deserialize(*o);
                                snapshot& t = r->get_snapshot();
                                NEED(t.get_last_log_idx() == DV[a] && t.get_last_log_term() == DV[b] && t.size() == DV[z] && same_conf(*c, *t.get_last_config()), "the snapshot descriptor of a block comes back different");
                                NEED(r->get_offset() == DV[of] && r->is_done() == (dn == 1), "offset or end mark of a snapshot block come back different");
                                NEED(same_data(r->get_data(), n, skip), "the data of a snapshot block of %zu bytes come back different", n);
                                cases++;
                            }
                    }
        break;
    case K_LOG:
        for (int d = 0; d < 5; d++)
            for (int vt = 1; vt <= 5; vt++)
            {
                if (b) continue;
                log_entry e(DV[a], data(DS[d], 0), (log_val_type)vt);
                e.get_buf().pos(DS[d] ? 1 : 0);
                bufptr s = e.serialize();
                NEED(s->pos() == 0 && log_entry::term_in_buffer(*s) == DV[a] && s->pos() == 0, "the term in a serialised log entry is different");
                bufptr o = embed(*s, d % 3);
                ptr<log_entry> r = log_entry::deserialize(*o);
                NEED(r->get_term() == DV[a] && r->get_val_type() == (log_val_type)vt && same_data(r->get_buf(), DS[d], 0), "a log entry comes back different");
                cases++;
            }
        break;
    }
}
static bufptr sample(int k, int v)
{
    ptr<cluster_config> c = mk_conf(1, 2, v == 0 ? 0 : v == 1 ? 6 : 34);
    ptr<snapshot> sn(cs_new<snapshot>(DV[2], DV[1], c, DV[3]));
    switch (k)
    {
    case K_SRV: return srv_config(7, v == 0 ? "" : v == 1 ? "tcp://127.0.0.1:9001" : "x").serialize();
    case K_CONF: return c->serialize();
    case K_SNAP: return sn->serialize();
    case K_SYNC: return snapshot_sync_req(sn, DV[2], data(v == 2 ? 0 : 4), v == 1).serialize();
    default: return log_entry(DV[2], data(v * 3), log_val_type::conf).serialize();
    }
}
// how much of it is data of any length
static size_t tail(int k, int v) { return k == K_SYNC ? (v == 2 ? 0 : 4) : k == K_LOG ? v * 3 : 0; }
static void read_any(int k, buffer& b)
{
    switch (k)
    {
    case K_SRV: srv_config::deserialize(b); break;
    case K_CONF: cluster_config::deserialize(b); break;
    case K_SNAP: snapshot::deserialize(b); break;
    case K_SYNC: snapshot_sync_req::deserialize(b); break;
    default: log_entry::deserialize(b); break;
    }
}
static void cut_leaf(int v)
{
    bufptr s = sample(kind, v);
    size_t n = s->size(), t = tail(kind, v);
    for (size_t k = 0; k < n; k++)
    {
        bufptr c = buffer::alloc(k);
        memcpy(c->data(), s->data(), k);
        bool thr = false;
        try { read_any(kind, *c); }
        catch (const std::exception&) { thr = true; }
        NEED(thr == (k < n - t), "%s cut off after %zu of %zu bytes is %s", KN[kind], k, n, thr ? "refused" : "accepted");
        cases++;
    }
    // one byte changed: anything but a crash
    for (size_t k = 0; k < n; k++)
        for (int x : {0, 1, 0x7f, 0x80, 0xff})
        {
            bufptr c = buffer::alloc(n);
            memcpy(c->data(), s->data(), n);
            c->data()[k] = (byte)x;
            try { read_any(kind, *c); }
            catch (const std::exception&) {}
            cases++;
        }
}
static int phase;
struct Ser : ex::System
{
    bool cut;
    explicit Ser(bool c) : cut(c) {}
    void enabled(std::vector<ex::Choice>& out) override
    {
        if (hx::failed() || phase) return;
        ex::Choice c;
        for (int a = 0; a < (cut ? 3 : 5); a++)
            for (int b = 0; b < (cut ? 1 : 5); b++)
            {
                c.t = 1; c.a = a; c.b = b;
                out.push_back(c);
            }
    }
    void apply(const ex::Choice& c) override
    {
        phase = 1 + c.a * 8 + c.b;
        cases = 0;
        guarded([&] { if (cut) cut_leaf(c.a); else rt_leaf(c.a, c.b); }, "reading back");
        for (long i = 0; i < cases; i++) hx::cov(cut ? "truncated or changed objects" : "objects read back");
    }
    uint64_t hash() override { return phase; }
    const char* violation() override { return hx::failed(); }
    std::string text(const ex::Choice& c) override { return "values " + std::to_string(c.a) + "," + std::to_string(c.b); }
};

static bool make(const std::string& scen, int, bool thorough, hx::Setup& out)
{
    pool = (char*)mmap(nullptr, NSLOT * (SLOT + GUARD), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (size_t i = 0; i < NSLOT; i++) mprotect(pool + i * (SLOT + GUARD) + SLOT, GUARD, PROT_NONE);
    out.opt.dedupe = false;
    out.opt.table_bits = 12;
    out.opt.seconds = thorough ? 800 : 100;
    thorough_ = thorough;
    size_t d = scen.find('-');
    std::string k = scen.substr(0, d), r = scen.substr(d + 1);
    if (k == "buf")
    {
        int i = atoi(r.c_str());
        memset(&B, 0, sizeof B);
        B.size = SZ[i];
        bool big = B.size > 100;
        B.start = r.find('f') != std::string::npos ? 1 : r.find('e') != std::string::npos ? 2 : 0;
        static std::vector<Op> al;
        al = {{P_BYTE, 1}, {P_INT, 2}, {P_INT, 5}, {P_ULONG, 4}, {P_STR, 0}, {P_STR, 2}, {P_BUF, 0}, {P_BUF, 2}, {G_BYTE, 0}, {G_INT, 0}, {G_ULONG, 0}, {G_STR, 0}, {G_BUF, 0}, {G_BUF, 2}, {POS, 0}, {POS, 1}, {POS, 2}, {POS, 4}, {COPY, 0}, {OUT, 0}, {IN, 0}};
        if (big) al.insert(al.end(), {{P_BUF, 4}, {G_BUF, 4}, {POS, 3}, {POS, 5}});
        if (thorough) al.insert(al.end(), {{P_INT, 4}, {P_ULONG, 3}, {P_BUF, 3}, {G_BUF, 3}, {POS, 5}});
        alphabet = &al;
        int depth = (big ? 3 : 4) + (thorough && !big);
        out.opt.budget[1] = depth;
        out.opt.max_depth = 20;
        out.sys.reset(new Buf);
        out.bounds = "a buffer of " + std::to_string(B.size) + " bytes" + (B.start == 1 ? ", filled" : B.start == 2 ? ", 7 bytes before its end" : "") + ": all sequences of up to " + std::to_string(depth) + " of " + std::to_string(al.size()) + " operations";
        return true;
    }
    for (int i = 0; i < K_N; i++)
        if (r == KN[i])
        {
            kind = i;
            phase = 0;
            out.sys.reset(new Ser(k == "cut"));
            out.bounds = k == "cut" ? "three objects, every truncation and five values of every single byte" : "all combinations of boundary values of the fields (0, 1, limits, a value with eight different bytes), sizes around the change of the buffer format";
            return true;
        }
    return false;
}
int main(int argc, char** argv)
{
    std::vector<std::string> names;
    for (size_t i = 0; i < sizeof SZ / sizeof *SZ; i++)
    {
        names.push_back("buf-" + std::to_string(i));
        names.push_back("buf-" + std::to_string(i) + "f");
        if (SZ[i] > 100) names.push_back("buf-" + std::to_string(i) + "e");
    }
    for (const char* k : KN) { names.push_back(std::string("rt-") + k); names.push_back(std::string("cut-") + k); }
    return hx::main(argc, argv, "ser", names, make);
}
