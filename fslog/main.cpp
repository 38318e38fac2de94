// The file log store on an in-memory file system, compared with a list.
//   seq-*    all operation sequences up to a depth, everything that can be read compared after every operation (C16)
//   fault-*  a compaction with one failing file operation, for every operation (C18)
//   crash-*  the process ends at any file operation, then the store is opened again (C23)
//   thr-*    one writer and readers, all schedules up to a preemption bound (C17)
#include "../rt/harness.hpp"
#include "../rt/vfs.hpp"
#include "cornerstone.hxx"
#include "fs_log_store.hxx"
#include <cstring>

using namespace cornerstone;


struct E { uint64_t term; int type, len, seed; };
const int CAP = 16;
struct M { uint64_t start; int n; E e[CAP]; };
static M L;           // the list
static int ctr;       // every entry is different
static int cache;     // cache size of the store
static fs_log_store* St;
static const char* DIR = "/s/";
struct Pack { char d[256]; int n; int cnt; E e[3]; };
static Pack P[2];

static unsigned char pay(const E& e, int j) { return (unsigned char)(e.seed * 37 + j * 3 + 1); }
static E mk(int len)
{
    static const int ty[] = {log_val_type::app_log, log_val_type::conf, log_val_type::app_log};
    ctr++;
    return E{0x1234500000000ull + ctr * 0x101ull, ty[ctr % 3], len, ctr};
}
static ptr<log_entry> entry(const E& e)
{
    bufptr b = buffer::alloc(e.len);
    for (int j = 0; j < e.len; j++) b->put((unsigned char)pay(e, j));
    b->pos(0);
    return cs_new<log_entry>(e.term, std::move(b), (log_val_type)e.type);
}
static bool same(const ptr<log_entry>& p, const E& e)
{
    if (!p || p->get_term() != e.term || p->get_val_type() != e.type) return false;
    buffer& b = p->get_buf();
    if ((int)b.size() != e.len) return false;
    const unsigned char* d = b.data() - b.pos();
    for (int j = 0; j < e.len; j++)
        if (d[j] != pay(e, j)) return false;
    return true;
}
static std::string show(const ptr<log_entry>& p)
{
    if (!p) return "nothing";
    char t[120];
    snprintf(t, sizeof t, "an entry of term %llx type %d size %zu", (unsigned long long)p->get_term(), p->get_val_type(), p->get_buf().size());
    return t;
}
// ---- the list
static uint64_t nxt(const M& m) { return m.start + m.n; }
static void l_append(M& m, const E& e) { m.e[m.n++] = e; }
static void l_write(M& m, uint64_t i, const E& e) { m.n = (int)(i - m.start); l_append(m, e); }
static void l_compact(M& m, uint64_t i)
{
    int k = (int)(i + 1 - m.start);
    if (k >= m.n) m.n = 0;
    else
    {
        memmove(m.e, m.e + k, sizeof(E) * (m.n - k));
        m.n -= k;
    }
    m.start = i + 1;
}
static void l_pack(M& m, uint64_t i, const Pack& p)
{
    m.n = (int)(i - m.start);
    for (int k = 0; k < p.cnt; k++) l_append(m, p.e[k]);
}
// ---- the store
static void s_open() { St = new fs_log_store(DIR, cache); }
static void s_close() { delete St; St = nullptr; }
static void s_apply(fs_log_store& s, uint64_t i, const char* d, int n)
{
    bufptr b = buffer::alloc(n);
    memcpy(b->data(), d, n);
    b->pos(0);
    s.apply_pack(i, *b);
}
template <class F>
static bool throws(F f)
{
    try { f(); return false; }
    catch (const std::exception&) { return true; }
}
// everything that can be read agrees with the list
static void compare(fs_log_store& s, const M& m, const char* who, bool packs)
{
    if (s.start_index() != m.start) return hx::fail("%sstart_index() is %llu instead of %llu", who, (unsigned long long)s.start_index(), (unsigned long long)m.start);
    if (s.next_slot() != nxt(m)) return hx::fail("%snext_slot() is %llu instead of %llu", who, (unsigned long long)s.next_slot(), (unsigned long long)nxt(m));
    ptr<log_entry> le = s.last_entry();
    if (m.n)
    {
        if (!same(le, m.e[m.n - 1])) return hx::fail("%slast_entry() is %s", who, show(le).c_str());
    }
    else if (!le || le->get_term() != 0) return hx::fail("%slast_entry() of an empty store is %s", who, show(le).c_str());
    for (int k = 0; k < m.n; k++)
    {
        ptr<log_entry> p = s.entry_at(m.start + k);
        if (!same(p, m.e[k])) return hx::fail("%sentry_at(%llu) of [%llu,%llu) is %s", who, (unsigned long long)m.start + k, (unsigned long long)m.start, (unsigned long long)nxt(m), show(p).c_str());
        if (s.term_at(m.start + k) != m.e[k].term) return hx::fail("%sterm_at(%llu) of [%llu,%llu) is wrong", who, (unsigned long long)m.start + k, (unsigned long long)m.start, (unsigned long long)nxt(m));
    }
    for (int d = 0; d < 2; d++)
    {
        ptr<log_entry> p = s.entry_at(nxt(m) + d);
        if (p) return hx::fail("%sentry_at(next_slot()+%d) is %s", who, d, show(p).c_str());
        uint64_t t = 0;
        throws([&] { t = s.term_at(nxt(m) + d); });
        if (t) return hx::fail("%sterm_at(next_slot()+%d) is not 0", who, d);
    }
    for (int d = 1; d < 3 && m.start > (uint64_t)d; d++)
    {
        ptr<log_entry> p;
        uint64_t t = 0;
        throws([&] { p = s.entry_at(m.start - d); });
        if (p) return hx::fail("%sentry_at(start_index()-%d) is %s", who, d, show(p).c_str());
        throws([&] { t = s.term_at(m.start - d); });
        if (t) return hx::fail("%sterm_at(start_index()-%d) is not 0", who, d);
    }
    for (int a = 0; a <= m.n; a++)
        for (int b = a; b <= m.n + 1; b++)
        {
            auto v = s.log_entries(m.start + a, m.start + b);
            int e = b > m.n ? m.n : b, c = e > a ? e - a : 0;
            int got = v ? (int)v->size() : 0;
            if (got != c) return hx::fail("%slog_entries(%llu,%llu) of [%llu,%llu) returns %d entries", who, (unsigned long long)m.start + a, (unsigned long long)m.start + b, (unsigned long long)m.start, (unsigned long long)nxt(m), got);
            for (int k = 0; k < c; k++)
                if (!same((*v)[k], m.e[a + k])) return hx::fail("%slog_entries(%llu,%llu) of [%llu,%llu): number %d is %s", who, (unsigned long long)m.start + a, (unsigned long long)m.start + b, (unsigned long long)m.start, (unsigned long long)nxt(m), k, show((*v)[k]).c_str());
        }
    if (!packs) return;
    // packs: applied to an empty store they give these entries
    for (int a = 0; a <= m.n && !hx::failed(); a++)
        for (int c = 1; a + c <= m.n + 1 && !hx::failed(); c++)
        {
            if (c > 2 && a + c < m.n) continue;
            bufptr p = s.pack(m.start + a, c);
            int want = a + c > m.n ? m.n - a : c;
            if (!want)
            {
                if (p && p->size()) return hx::fail("%spack(next_slot()) is not empty", who);
                continue;
            }
            fs_log_store f("/f/", 100);
            p->pos(0);
            f.apply_pack(1, *p);
            if (f.next_slot() != 1 + (uint64_t)want) return hx::fail("%spack(%llu,%d) of [%llu,%llu) holds %d entries", who, (unsigned long long)m.start + a, c, (unsigned long long)m.start, (unsigned long long)nxt(m), (int)f.next_slot() - 1);
            for (int k = 0; k < want; k++)
            {
                ptr<log_entry> q = f.entry_at(1 + k);
                if (!same(q, m.e[a + k])) return hx::fail("%spack(%llu,%d) of [%llu,%llu): number %d is %s", who, (unsigned long long)m.start + a, c, (unsigned long long)m.start, (unsigned long long)nxt(m), k, show(q).c_str());
            }
            f.close();
            for (const char* x : {"/f/store.idx", "/f/store.dat", "/f/store.sti"}) ::remove(x);
        }
}
enum { O_APPEND_ = 1, O_WRITE, O_COMPACT, O_PACK, O_REOPEN, O_READ };
static const char* ON[] = {"", "append", "write_at", "compact", "apply_pack", "reopen", "read"};
static const int ALEN[] = {0, 2, 9}, WLEN[] = {1, 12};
static std::string opname(int t, int a, int b)
{
    char s[80];
    switch (t)
    {
        case O_APPEND_: snprintf(s, sizeof s, "append(size %d)", ALEN[a]); break;
        case O_WRITE: snprintf(s, sizeof s, "write_at(start+%d, size %d)", a, WLEN[b]); break;
        case O_COMPACT: snprintf(s, sizeof s, "compact(start+%d)", a); break;
        case O_PACK: snprintf(s, sizeof s, "apply_pack(start+%d, pack %d)", a, b); break;
        case O_READ:
        {
            static const char* n[] = {"entry_at(start)", "log_entries(all)", "term_at(start)", "pack(all)", "term_at(next)", "write_at(next+1)", "compact(start-1)", "entry_at(next)"};
            return n[a];
        }
        default: snprintf(s, sizeof s, "%s", ON[t]);
    }
    return s;
}
// one operation on the list and on the store
static void l_op(M& m, int t, int a, int b, E& e)
{
    switch (t)
    {
        case O_APPEND_: e = mk(ALEN[a]); l_append(m, e); break;
        case O_WRITE: e = mk(WLEN[b]); l_write(m, m.start + a, e); break;
        case O_COMPACT: l_compact(m, m.start + a); break;
        case O_PACK: l_pack(m, m.start + a, P[b]); break;
    }
}
static void s_op(const M& before, int t, int a, int b, const E& e)
{
    uint64_t i = before.start + a;
    switch (t)
    {
        case O_APPEND_:
        {
            auto p = entry(e);
            uint64_t r = St->append(p);
            if (r != nxt(before)) hx::fail("append returns %llu instead of %llu", (unsigned long long)r, (unsigned long long)nxt(before));
            break;
        }
        case O_WRITE: { auto p = entry(e); St->write_at(i, p); break; }
        case O_COMPACT: if (!St->compact(i)) hx::fail("compact(%llu) of [%llu,%llu) fails", (unsigned long long)i, (unsigned long long)before.start, (unsigned long long)nxt(before)); break;
        case O_PACK: s_apply(*St, i, P[b].d, P[b].n); break;
        case O_REOPEN: s_close(); s_open(); break;
        case O_READ:
            switch (a)
            {
                case 0: St->entry_at(before.start); break;
                case 1: St->log_entries(before.start, nxt(before)); break;
                case 2: St->term_at(before.start); break;
                case 3: St->pack(before.start, before.n); break;
                case 4: throws([] { St->term_at(L.start + L.n); }); break;
                case 5:
                {
                    ctr++;
                    auto p = entry(mk(3));
                    if (!throws([&] { St->write_at(nxt(before) + 1, p); })) hx::fail("write_at(next_slot()+1) is accepted");
                    break;
                }
                case 6: throws([] { St->compact(L.start - 1); }); break;
                case 7: St->entry_at(nxt(before)); break;
            }
            break;
    }
}
static void ops(const M& m, std::vector<ex::Choice>& out, bool reads)
{
    auto add = [&](int t, int a, int b) {
        ex::Choice c;
        c.t = t; c.a = a; c.b = b; c.cls = 1;
        out.push_back(c);
    };
    if (m.n + 3 < CAP)
        for (int k = 0; k < 3; k++) add(O_APPEND_, k, 0);
    for (int i = 0; i <= m.n; i++)
        for (int k = 0; k < 2; k++) add(O_WRITE, i, k);
    for (int i = 0; i <= m.n + 1; i++) add(O_COMPACT, i, 0);
    for (int i = 0; i <= m.n; i++)
        for (int k = 0; k < 2; k++) add(O_PACK, i, k);
    if (!reads) return;
    add(O_REOPEN, 0, 0);
    for (int k = 0; k < 8; k++)
    {
        if (k < 4 && !m.n) continue;
        if (k == 6 && m.start == 1) continue;
        add(O_READ, k, 0);
    }
}
static void checked(const std::function<void()>& f, const char* what)
{
    hx::in_world([&] {
        try { f(); }
        catch (const std::exception& x) { hx::fail("%s throws: %s", what, x.what()); }
    }, what);
}
static void make_packs()
{
    checked([] {
        M d{1, 0, {}};
        fs_log_store s("/d/", 100);
        for (int len : {3, 7, 5, 0})
        {
            E e = mk(len);
            l_append(d, e);
            auto p = entry(e);
            s.append(p);
        }
        auto take = [&](Pack& k, int a, int c) {
            bufptr b = s.pack(1 + a, c);
            b->pos(0);
            k.n = (int)b->size();
            memcpy(k.d, b->data(), k.n);
            k.cnt = c;
            for (int i = 0; i < c; i++) k.e[i] = d.e[a + i];
        };
        take(P[0], 0, 2);
        take(P[1], 2, 1);
        s.close();
        for (const char* x : {"/d/store.idx", "/d/store.dat", "/d/store.sti"}) ::remove(x);
    }, "making packs");
}
// root 0: empty; 1: three entries; 2: five entries, three of them compacted away, reopened; 3: seven entries
static void setup(int root, int cachesize)
{
    memset((void*)&L, 0, sizeof L);
    L.start = 1;
    ctr = 0;
    cache = cachesize;
    vfs::reset();
    make_packs();
    checked([&] {
        s_open();
        auto app = [&](int len) {
            E e = mk(len);
            M b = L;
            l_append(L, e);
            s_op(b, O_APPEND_, 0, 0, e);
        };
        if (root == 1) for (int l : {4, 0, 6}) app(l);
        if (root == 2)
        {
            for (int l : {4, 1, 6, 8, 2, 3}) app(l);
            St->compact(3);
            l_compact(L, 3);
            s_close();
            s_open();
        }
        if (root == 3) for (int l : {4, 0, 6, 5, 1, 3, 7}) app(l);
        compare(*St, L, "", false);
    }, "setting up");
}
struct Seq : ex::System
{
    void enabled(std::vector<ex::Choice>& out) override
    {
        if (!hx::failed()) ops(L, out, true);
    }
    void apply(const ex::Choice& c) override
    {
        std::string nm = opname(c.t, c.a, c.b);
        M b = L;
        E e{};
        l_op(L, c.t, c.a, c.b, e);
        hx::cov(c.t == O_READ ? "reads between operations" : ON[c.t]);
        checked([&] { s_op(b, c.t, c.a, c.b, e); }, nm.c_str());
    }
    uint64_t hash() override { return rt::hash_bytes(&L, sizeof L, 1) ^ vfs::hash(); }
    const char* violation() override { return hx::failed(); }
    bool want_probe() override { return true; }
    void probe() override
    {
        checked([] { compare(*St, L, "", true); }, "reading");
        if (hx::failed()) return;
        checked([] { s_close(); s_open(); compare(*St, L, "after reopening: ", false); }, "reopening");
    }
    std::string text(const ex::Choice& c) override { return opname(c.t, c.a, c.b); }
};
// ---- one failing file operation during a compaction
struct Fault : ex::System
{
    static int phase, nops, at, first, mode, left; // left: operations after the first failing one
    void enabled(std::vector<ex::Choice>& out) override
    {
        if (hx::failed()) return;
        ex::Choice c;
        if (phase == 0)
            for (int i = 0; i <= L.n + 1; i++)
            {
                c.t = 1; c.a = i;
                out.push_back(c);
            }
        if (phase == 1)
            for (int m = 0; m < 2; m++)
                for (int k = 1; k <= nops; k++)
                {
                    c.t = 2; c.a = k; c.b = m;
                    out.push_back(c);
                }
        if (phase == 4) // a second one that fails, or all that follow
            for (int k = 0; k <= left + 1; k++)
            {
                c.t = 4; c.a = k <= left ? k : 255;
                out.push_back(c);
            }
        if (phase == 2)
            for (int k = 0; k < 4; k++)
            {
                c.t = 3; c.a = k;
                out.push_back(c);
            }
    }
    void arm()
    {
        vfs::State& v = vfs::st();
        v.fail_at = v.ops + first;
        v.fail_n = 0;
        v.fail2_at = 0;
        memset(v.fail_what, 0, sizeof v.fail_what);
        strcpy(v.fail_what, "write");
        v.fail_mode = mode;
        v.failed = 0;
    }
    void apply(const ex::Choice& c) override
    {
        if (c.t == 1)
        {
            // how many file operations does it take?
            rt::Ckpt* k = rt::save();
            int o0 = vfs::st().ops, o1 = 0, n;
            hx::in_world([&] { throws([&] { St->compact(L.start + c.a); }); o1 = vfs::st().ops; }, "compact");
            n = o1 - o0;
            rt::restore(k);
            rt::release(k);
            nops = n;
            at = c.a;
            phase = 1;
            return;
        }
        if (c.t == 2)
        {
            first = c.a;
            mode = c.b;
            rt::Ckpt* k = rt::save();
            int n = 0;
            arm();
            hx::in_world([&] { throws([&] { St->compact(L.start + at); }); n = vfs::st().ops - vfs::st().fail_at; }, "compact");
            rt::restore(k);
            rt::release(k);
            left = n > 0 ? n : 0;
            phase = 4;
            return;
        }
        if (c.t == 4)
        {
            arm();
            vfs::State& v = vfs::st();
            if (c.a == 255) v.fail2_at = v.fail_at + 1, v.fail2_n = 1 << 20;
            else if (c.a) v.fail2_at = v.fail_at + c.a, v.fail2_n = 0;
            bool done = false, thrown = false;
            hx::in_world([&] {
                try { done = St->compact(L.start + at); }
                catch (const std::exception& x) { thrown = true; }
            }, "compact");
            vfs::st().fail_at = vfs::st().fail2_at = 0;
            if (hx::failed()) return;
            char w[100];
            snprintf(w, sizeof w, "a failing %s%s: compact(start+%d) %s: ", v.fail_what, c.a == 255 ? " and all that follows" : c.a ? " and another one" : "", at, done ? "succeeds" : thrown ? "throws" : "fails");
            hx::cov(done ? "compacted in spite of the failure" : thrown ? "exception" : "reported failure");
            M m = L;
            if (done) l_compact(m, m.start + at);
            memcpy((void*)&L, &m, sizeof L);
            if (c.a && thrown)
            {
                hx::cov("restoring failed");
                checked([&] { s_close(); s_open(); }, w); // only the next opening can restore it
            }
            if (hx::failed()) return;
            checked([&] { compare(*St, L, w, true); }, w);
            phase = 2;
            return;
        }
        // go on: append / reopen and append / overwrite / compact
        checked([&] {
            E e{};
            if (c.a == 1) { s_close(); s_open(); compare(*St, L, "reopened: ", true); }
            if (hx::failed()) return;
            M b = L;
            int t = c.a == 2 && L.n ? O_WRITE : c.a == 3 ? O_COMPACT : O_APPEND_;
            int p = c.a == 2 ? 0 : 1;
            l_op(L, t, p, 0, e);
            s_op(b, t, p, 0, e);
            if (hx::failed()) return;
            compare(*St, L, "after the failed compaction: ", true);
            if (hx::failed()) return;
            s_close();
            s_open();
            compare(*St, L, "after the failed compaction, reopened: ", true);
        }, "going on after the failed compaction");
        phase = 3;
    }
    uint64_t hash() override { return rt::hash_bytes(&L, sizeof L, 1) ^ vfs::hash(); }
    const char* violation() override { return hx::failed(); }
    std::string text(const ex::Choice& c) override
    {
        if (c.t == 1) return "compact(start+" + std::to_string(c.a) + ")";
        if (c.t == 2) return "file operation " + std::to_string(c.a) + (c.b ? " fails half done" : " fails");
        if (c.t == 4) return c.a == 255 ? "all that follow too" : c.a ? "and operation " + std::to_string(c.a) + " after it" : "no other";
        static const char* n[] = {"append", "reopen append", "write_at", "compact"};
        return n[c.a];
    }
};
int Fault::phase, Fault::nops, Fault::at, Fault::first, Fault::mode, Fault::left;

// ---- the process ends at any file operation
struct Crash : ex::System
{
    // phase 0: operations; 1: t/a/b is under way, choose the file operation; 2: opening again, choose again; 3: go on; 4: done
    static struct St_ { int phase, t, a, b, nops, seed; M before, after; bool sure; char what[80]; } C;
    static M cand[2 * CAP + 4];
    static void die() { vfs::close_all(); St = nullptr; }
    // how many file operations does it take?
    static int count(const std::function<void()>& f)
    {
        rt::Ckpt* k = rt::save();
        int o1 = 0, o0 = vfs::st().ops;
        hx::in_world([&] { throws(f); o1 = vfs::st().ops; }, "counting");
        rt::restore(k);
        rt::release(k);
        return o1 - o0;
    }
    static void run_op()
    {
        E e{};
        ctr = C.seed;
        M m = C.before;
        l_op(m, C.t, C.a, C.b, e);
        s_op(C.before, C.t, C.a, C.b, e);
    }
    // it dies right before its k-th file operation, or when it is done
    static void killed(int k, const std::function<void()>& f, const char* what)
    {
        vfs::State& v = vfs::st();
        v.die_at = v.ops + k;
        checked(f, what);
        vfs::st().die_at = 0;
        die();
    }
    void enabled(std::vector<ex::Choice>& out) override
    {
        if (hx::failed()) return;
        ex::Choice c;
        if (C.phase == 0)
        {
            ops(L, out, false);
            size_t n = out.size();
            for (size_t i = 0; i < n; i++)
            {
                c = out[i];
                c.cls = 0;
                c.c = 1; // this one is interrupted
                out.push_back(c);
            }
            c = ex::Choice();
            c.t = O_REOPEN; c.c = 1;
            out.push_back(c);
        }
        if (C.phase == 1)
            for (int k = 1; k <= C.nops + 1; k++)
            {
                c.t = 20; c.a = k;
                out.push_back(c);
            }
        if (C.phase == 2)
            for (int k = 0; k <= C.nops; k++)
            {
                c.t = 21; c.a = k; c.cls = k ? 2 : 0;
                out.push_back(c);
            }
        if (C.phase == 3)
            for (int k = 0; k < 4; k++)
            {
                c.t = 22; c.a = k;
                out.push_back(c);
            }
    }
    void apply(const ex::Choice& c) override
    {
        if (C.phase == 0)
        {
            E e{};
            C.seed = ctr;
            C.before = L;
            C.after = L;
            l_op(C.after, c.t, c.a, c.b, e);
            C.t = c.t; C.a = c.a; C.b = c.b;
            if (c.c == 0)
            {
                checked(run_op, opname(c.t, c.a, c.b).c_str());
                L = C.after;
                return;
            }
            C.nops = count(run_op);
            C.phase = 1;
            return;
        }
        if (C.phase == 1)
        {
            C.sure = c.a == C.nops + 1;
            snprintf(C.what, sizeof C.what, "killed %s %s: ", C.sure ? "after" : "during", opname(C.t, C.a, C.b).c_str());
            hx::cov(C.sure ? "process ends between operations" : "process ends within an operation");
            killed(c.a, run_op, "the operation");
            ctr = C.seed + 1;
            C.nops = count(s_open);
            C.phase = 2;
            return;
        }
        if (C.phase == 2)
        {
            if (c.a)
            {
                hx::cov("process ends while opening");
                killed(c.a, s_open, "opening the store");
                C.nops = count(s_open);
                return;
            }
            checked(s_open, (std::string(C.what) + "opening the store").c_str());
            if (hx::failed()) return;
            int n = 0;
            cand[n++] = C.after;
            if (!C.sure)
            {
                cand[n++] = C.before;
                if (C.t == O_WRITE || C.t == O_PACK)
                    for (int j = C.a; j < C.before.n; j++) cand[n] = C.before, cand[n++].n = j;
                if (C.t == O_PACK)
                    for (int j = C.a + 1; j < C.after.n; j++) cand[n] = C.after, cand[n++].n = j;
            }
            int hit = -1;
            std::string got;
            checked([&] {
                uint64_t a = St->start_index(), b = St->next_slot();
                got = "the store holds [" + std::to_string(a) + "," + std::to_string(b) + ")";
                for (int i = 0; i < n && hit < 0; i++)
                {
                    if (cand[i].start != a || nxt(cand[i]) != b) continue;
                    bool ok = true;
                    for (int j = 0; j < cand[i].n && ok; j++) ok = same(St->entry_at(a + j), cand[i].e[j]);
                    if (ok) hit = i;
                }
            }, C.what);
            if (hx::failed()) return;
            if (hit < 0) return hx::fail("%safter opening the store again it has lost or changed entries: %s, it was [%llu,%llu) before and [%llu,%llu) after the operation", C.what, got.c_str(),
                                         (unsigned long long)C.before.start, (unsigned long long)nxt(C.before), (unsigned long long)C.after.start, (unsigned long long)nxt(C.after));
            L = cand[hit];
            hx::cov(hit == 0 ? "operation is done" : hit == 1 ? "operation is undone" : "operation is partly done");
            checked([&] { compare(*St, L, C.what, true); }, C.what);
            C.phase = 3;
            return;
        }
        C.phase = 4;
        checked([&] {
            E e{};
            M b = L;
            int t = c.a == 1 && L.n ? O_WRITE : c.a == 2 ? O_COMPACT : c.a == 3 ? O_PACK : O_APPEND_;
            int p = t == O_PACK ? L.n : 0;
            l_op(L, t, p, 0, e);
            s_op(b, t, p, 0, e);
            if (hx::failed()) return;
            compare(*St, L, (std::string(C.what) + "and one more operation: ").c_str(), true);
            if (hx::failed()) return;
            die();
            s_open();
            compare(*St, L, (std::string(C.what) + "and one more operation, killed, reopened: ").c_str(), true);
        }, "going on");
    }
    uint64_t hash() override { return rt::hash_bytes(&L, sizeof L, 1) ^ vfs::hash() ^ rt::hash_bytes(&C, sizeof C, 5); }
    const char* violation() override { return hx::failed(); }
    std::string text(const ex::Choice& c) override
    {
        if (c.t == 20) return "file operation " + std::to_string(c.a) + ": killed";
        if (c.t == 21) return c.a ? "opening, file operation " + std::to_string(c.a) + ": killed" : "opening";
        static const char* n[] = {"append", "write_at", "compact", "apply_pack"};
        if (c.t == 22) return n[c.a];
        return opname(c.t, c.a, c.b) + (c.c ? " begins" : "");
    }
};
Crash::St_ Crash::C;
M Crash::cand[2 * CAP + 4];

// ---- threads
enum { R_NEXT = 0, R_START, R_LAST, R_ENTRY, R_TERM, R_RANGE };
struct ROp { int kind; uint64_t a, b; };
struct WOp { int t, a, b; };
const int MAXV = 4, MAXW = 3, MAXR = 3;
static struct
{
    M ver[MAXV];
    int begun, ended;
    WOp w[MAXW];
    E we[MAXW];
    int nw;
    ROp r[2][MAXR];
    int nr[2];
    bool bulk;
} TH;
static bool matches(const ROp& r, const M& m, bool thrown, uint64_t num, const ptr<log_entry>& e, const ptr<std::vector<ptr<log_entry>>>& v)
{
    bool in = r.a >= m.start && r.a < nxt(m);
    switch (r.kind)
    {
        case R_NEXT: return !thrown && num == nxt(m);
        case R_START: return !thrown && num == m.start;
        case R_LAST: return !thrown && (m.n ? same(e, m.e[m.n - 1]) : e && e->get_term() == 0 && e->get_buf().size() == 0);
        case R_ENTRY: return in ? !thrown && same(e, m.e[r.a - m.start]) : r.a < m.start ? thrown || !e : !thrown && !e;
        case R_TERM: return in ? !thrown && num == m.e[r.a - m.start].term : thrown || num == 0;
        case R_RANGE:
        {
            if (r.a < m.start) return thrown || !v || v->empty();
            if (thrown) return false;
            uint64_t end = r.b < nxt(m) ? r.b : nxt(m);
            size_t c = end > r.a ? end - r.a : 0;
            if ((v ? v->size() : 0) != c) return false;
            for (size_t k = 0; k < c; k++)
                if (!same((*v)[k], m.e[r.a - m.start + k])) return false;
            return true;
        }
    }
    return false;
}
static std::string rname(const ROp& r)
{
    static const char* n[] = {"next_slot", "start_index", "last_entry", "entry_at", "term_at", "log_entries"};
    std::string s = n[r.kind];
    if (r.kind >= R_ENTRY) s += "(" + std::to_string(r.a) + (r.kind == R_RANGE ? "," + std::to_string(r.b) : "") + ")";
    return s;
}
static void reader(void* arg)
{
    int me = (int)(intptr_t)arg;
    for (int k = 0; k < TH.nr[me]; k++)
    {
        ROp r = TH.r[me][k];
        int lo = TH.ended;
        bool thrown = false;
        uint64_t num = 0;
        ptr<log_entry> e;
        ptr<std::vector<ptr<log_entry>>> v;
        char why[80] = "";
        try
        {
            switch (r.kind)
            {
                case R_NEXT: num = St->next_slot(); break;
                case R_START: num = St->start_index(); break;
                case R_LAST: e = St->last_entry(); break;
                case R_ENTRY: e = St->entry_at(r.a); break;
                case R_TERM: num = St->term_at(r.a); break;
                case R_RANGE: v = St->log_entries(r.a, r.b); break;
            }
        }
        catch (const std::exception& x)
        {
            thrown = true;
            snprintf(why, sizeof why, "%s", x.what());
        }
        int hi = TH.begun;
        bool ok = false;
        for (int i = lo; i <= hi && !ok; i++) ok = matches(r, TH.ver[i], thrown, num, e, v);
        if (hi > lo) hx::cov("reads during a write");
        if (!ok)
        {
            std::string g = thrown ? std::string("throws ") + why : r.kind == R_RANGE ? std::to_string(v ? v->size() : 0) + " entries" : r.kind == R_LAST || r.kind == R_ENTRY ? show(e) : std::to_string(num);
            hx::fail("%s during %s: %s, which the store did not hold at any moment of the call", rname(r).c_str(), opname(TH.w[hi ? hi - 1 : 0].t, TH.w[hi ? hi - 1 : 0].a, TH.w[hi ? hi - 1 : 0].b).c_str(), g.c_str());
        }
    }
}
static void writer(void*)
{
    try
    {
        for (int k = 0; k < TH.nw; k++)
        {
            TH.begun = k + 1;
            s_op(TH.ver[k], TH.w[k].t, TH.w[k].a, TH.w[k].b, TH.we[k]);
            TH.ended = k + 1;
        }
    }
    catch (const std::exception& x) { hx::fail("a write during reads throws: %s", x.what()); }
}
struct Thr : hx::ThreadSys
{
    // first choice: which case
    struct Case { WOp w[MAXW]; int nw; ROp r[2][MAXR]; int nr[2]; };
    static std::vector<Case>* cases;
    static int chosen;
    void enabled(std::vector<ex::Choice>& out) override
    {
        if (chosen < 0)
        {
            for (size_t i = 0; i < cases->size(); i++)
            {
                ex::Choice c;
                c.t = 9; c.a = i & 255; c.b = i >> 8;
                out.push_back(c);
            }
            return;
        }
        ThreadSys::enabled(out);
    }
    void apply(const ex::Choice& c) override
    {
        if (c.t != 9) return ThreadSys::apply(c);
        chosen = c.a + c.b * 256;
        Case& k = (*cases)[chosen];
        memset((void*)&TH, 0, sizeof TH);
        TH.ver[0] = L;
        TH.nw = k.nw;
        for (int i = 0; i < k.nw; i++)
        {
            TH.w[i] = k.w[i];
            TH.ver[i + 1] = TH.ver[i];
            l_op(TH.ver[i + 1], k.w[i].t, k.w[i].a, k.w[i].b, TH.we[i]);
        }
        for (int i = 0; i < 2; i++)
        {
            TH.nr[i] = k.nr[i];
            memcpy(TH.r[i], k.r[i], sizeof k.r[i]);
        }
        hx::threads_reset();
        rt::spawn(writer, nullptr, 1);
        for (int i = 0; i < 2; i++)
            if (TH.nr[i]) rt::spawn(reader, (void*)(intptr_t)i, 2);
    }
    std::string text(const ex::Choice& c) override
    {
        if (c.t != 9) return ThreadSys::text(c);
        Case& k = (*cases)[c.a + c.b * 256];
        std::string s = "[";
        for (int i = 0; i < k.nw; i++) s += opname(k.w[i].t, k.w[i].a, k.w[i].b) + " ";
        for (int i = 0; i < 2; i++)
        {
            if (k.nr[i]) s += "| ";
            for (int j = 0; j < k.nr[i]; j++) s += rname(k.r[i][j]) + " ";
        }
        return s + "]";
    }
};
std::vector<Thr::Case>* Thr::cases;
int Thr::chosen = -1;

static bool make(const std::string& scen, int prop, bool thorough, hx::Setup& out)
{
    size_t d = scen.find('-');
    if (d == std::string::npos) return false;
    std::string kind = scen.substr(0, d), rest = scen.substr(d + 1);
    int root = 0, cs = 0;
    if (sscanf(rest.c_str(), "r%dc%d", &root, &cs) != 2) return false;
    if (cs == 9) cs = -1;
    setup(root, cs);
    out.opt.dedupe = false;
    out.opt.table_bits = 12;
    std::string rt_ = "root state " + std::to_string(root) + ", cache of " + (cs < 0 ? "unlimited" : std::to_string(cs)) + " entries; ";
    if (kind == "seq")
    {
        int depth = (root == 0 ? 4 : 3) + thorough + (rest.find('d') != std::string::npos);
        out.opt.budget[1] = depth;
        out.opt.seconds = thorough ? 600 : 60;
        out.bounds = rt_ + "all sequences of up to " + std::to_string(depth) + " operations (append, overwrite, compact, apply pack, reopen, reads), everything read back after each";
        out.sys.reset(new Seq);
        return true;
    }
    if (kind == "fault")
    {
        out.bounds = rt_ + "compaction up to every index, each file operation in it failing in turn (completely, or after half a write), alone, with every other later one, and with all later ones, then append, overwrite, compact or reopen";
        out.sys.reset(new Fault);
        return true;
    }
    if (kind == "crash")
    {
        int depth = (root < 3) + thorough;
        out.opt.budget[1] = depth;
        out.opt.budget[2] = thorough ? 2 : 1;
        out.opt.seconds = thorough ? 600 : 60;
        memset((void*)&Crash::C, 0, sizeof Crash::C);
        out.bounds = rt_ + "up to " + std::to_string(depth) + " operations, then one during which, or after which, the process is killed, at every file operation; the store is opened again, with up to " + std::to_string(out.opt.budget[2]) + " kills during opening, at every file operation; then one more operation of every kind, a kill, and another opening";
        out.sys.reset(new Crash);
        return true;
    }
    if (kind == "thr")
    {
        static std::vector<Thr::Case> cs_;
        cs_.clear();
        uint64_t s = L.start, n = nxt(L);
        std::vector<ROp> rs;
        for (uint64_t i : {s, n - 1, n}) rs.push_back({R_ENTRY, i, 0}), rs.push_back({R_TERM, i, 0});
        if (thorough) rs.push_back({R_ENTRY, s + 1, 0}), rs.push_back({R_TERM, s + 1, 0}), rs.push_back({R_RANGE, s + 1, n});
        rs.push_back({R_RANGE, s, n + 1});
        rs.push_back({R_RANGE, s, s + 1});
        rs.push_back({R_RANGE, n - 1, n + 1});
        rs.push_back({R_LAST, 0, 0});
        rs.push_back({R_NEXT, 0, 0});
        rs.push_back({R_START, 0, 0});
        std::vector<WOp> ws = {{O_APPEND_, 1, 0}, {O_WRITE, 0, 1}, {O_WRITE, L.n - 1, 0}, {O_COMPACT, 0, 0}, {O_COMPACT, L.n, 0}, {O_PACK, L.n, 0}, {O_PACK, 1, 1}};
        bool two = rest.find('t') != std::string::npos; // two readers
        for (auto& w : ws)
        {
            if (!two)
                for (auto& r : rs)
                {
                    Thr::Case c{};
                    c.w[0] = w;
                    c.nw = 1;
                    c.w[1] = {O_APPEND_, 0, 0};
                    c.nw = 2;
                    c.r[0][0] = r;
                    c.nr[0] = 1;
                    cs_.push_back(c);
                }
            else
            {
                Thr::Case c{};
                c.w[0] = w;
                c.nw = 1;
                c.r[0][0] = {R_ENTRY, s, 0};
                c.r[1][0] = {R_RANGE, s, n + 1};
                c.nr[0] = c.nr[1] = 1;
                cs_.push_back(c);
                c.r[1][0] = {R_TERM, s, 0};
                cs_.push_back(c);
            }
        }
        Thr::cases = &cs_;
        Thr::chosen = -1;
        auto* t = new Thr;
        t->regions = {{&TH, sizeof TH}, {&vfs::st(), sizeof(vfs::State)}, {&Thr::chosen, sizeof(int)}};
        out.opt.dedupe = true;
        out.opt.table_bits = 26;
        t->finish = [] {
            if (!hx::all_done()) return hx::fail("reads and writes wait for each other: %s", hx::stuck().c_str());
            if (Thr::chosen < 0) return;
            checked([] {
                compare(*St, TH.ver[TH.nw], "after the threads have finished: ", true);
                if (hx::failed()) return;
                s_close();
                s_open();
                compare(*St, TH.ver[TH.nw], "after the threads have finished, reopened: ", false);
            }, "after the threads have finished");
        };
        out.sys.reset(t);
        *rt::points_on = true;
        out.opt.budget[1] = (thorough ? 5 : 4) - (two ? 1 : 0);
        out.opt.seconds = thorough ? 800 : 60;
        out.bounds = rt_ + std::to_string(cs_.size()) + " combinations of writes and reads, all schedules with up to " + std::to_string(out.opt.budget[1]) + " preemptions at locks, shared memory accesses of the store and file operations";
        rt::watch(St, sizeof(fs_log_store));
        *rt::watch_on = true;
        return true;
    }
    return false;
}
int main(int argc, char** argv)
{
    std::vector<std::string> names;
    for (const char* k : {"seq", "fault", "crash"})
        for (int r = 0; r < 4; r++)
            for (int c : {1, 2, 9}) names.push_back(std::string(k) + "-r" + std::to_string(r) + "c" + std::to_string(c));
    for (int r = 1; r < 4; r++)
        for (const char* c : {"c1", "c2", "c9", "c1t", "c2t"}) names.push_back("thr-r" + std::to_string(r) + c);
    const char* target = "fslog";
    const char* b = strrchr(argv[0], '/');
    if (b && !strncmp(b + 1, "fsthr", 5)) target = "fsthr";
    return hx::main(argc, argv, target, names, make);
}
