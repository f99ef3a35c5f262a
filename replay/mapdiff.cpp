// Differential run of the real map against std::unordered_map, with adversarial hash functions.
// Compiled with -DMAPK=15|16|2 (2: robin_hash_map); argv: mode seed tier
#include <limits.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csignal>
#include <unistd.h>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
#include <algorithm>
#if MAPK == 15
#include <jstd/hashmap/group15_flat_map.hpp>
template <class K, class V, class H> using MapT = jstd::group15_flat_map<K, V, H>;
#elif MAPK == 16
#include <jstd/hashmap/group16_flat_map.hpp>
template <class K, class V, class H> using MapT = jstd::group16_flat_map<K, V, H>;
#else
#include <jstd/hashmap/robin_hash_map.h>
template <class K, class V, class H> using MapT = jstd::robin_hash_map<K, V, H>;
#endif
typedef uint64_t u64; typedef uint32_t u32;
static int g_fail = 0;
static char g_case[256] = "start", g_opk[32] = "ctor";   // g_opk: kind of the operation just performed
static long g_idx = 0, g_good = 0, g_deep = -1;           // operation index; last index with a verified state; deep compares from here on
struct Again { };
static std::vector<std::string> g_hist;
static unsigned long g_ops = 0;
// FAIL key=<kind>@<operation>: kind is what was observed (find, lost, extra, value, iter, size, cap, result, life, crash, hang)
static void fail(const char * kind, const char * fmt, ...) {
    if (!strcmp(g_opk, "history") && g_deep < 0) { g_deep = g_good; throw Again(); }    // re-run to attribute it to one operation
    char b[600]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    std::string h; size_t n = g_hist.size(), i = n > 12 ? n - 12 : 0; for (; i < n; i++) h += g_hist[i] + " ";
    printf("FAIL key=%s@%s map%d %s: %s [op %lu; last ops: %s]\n", kind, g_opk, MAPK, g_case, b, g_ops, h.c_str());
    fflush(stdout); g_fail++; _exit(1);
}
static void on_alarm(int) { { g_deep = 0; fail("hang", "operation does not terminate"); }; }
static void on_segv(int s) { { g_deep = 0; fail("crash", "crash (signal %d)", s); }; }
static void H(const char * fmt, ...) { char b[100]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); g_hist.push_back(b); if (g_hist.size() > 64) g_hist.erase(g_hist.begin(), g_hist.begin() + 32); g_ops++; }

static u64 rs = 88172645463325252ull;
static u64 rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull; }
static u64 rn(u64 n) { return n ? rnd() % n : 0; }

// ---- hash families (the map mixes them again: mum_mul_mix by 0x9E3779B97F4A7C15)
static int g_hk = 0;
static std::vector<u64> g_pre, g_pre2;      // g_pre[c]: hash values whose mixed form has a chosen group index/control byte
static u64 mix(u64 h) { unsigned __int128 p = (unsigned __int128)h * 11400714819323198485ull; return (u64)(p >> 64) ^ (u64)p; }
static u64 hash_of(u64 k) {
    switch (g_hk) {
    case 0: return k;                         // identity
    case 1: return 7;                         // everything collides
    case 2: return k & 3;                     // four classes
    case 3: return k * 0x9E3779B97F4A7C15ull; // good
    case 4: return g_pre.empty() ? 0 : g_pre[k % g_pre.size()];   // same home group, different control bytes
    case 5: return k << 48;                   // only high bits vary
    case 6: return k / 16;                    // runs
    case 7: return (k % 5) ? k : 0;
    default: return g_pre2.empty() ? 0 : g_pre2[k % g_pre2.size()];  // home group is the last one: probing wraps around
    }
}
struct HI { std::size_t operator()(u64 k) const noexcept { return hash_of(k); } };

// ---- lifetime tracked element
struct Tr {
    static std::map<const void *, u64> live; static long ctor, dtor;
    u64 v; u64 * own; Tr * self;
    void reg() { if (!live.emplace(this, v).second) { fail("life", "element constructed twice at the same place without being destroyed"); } own = new u64(v); self = this; ctor++; }
    Tr() : v(0) { reg(); }
    Tr(u64 x) : v(x) { reg(); }
    Tr(const Tr & o) : v(o.get()) { reg(); }
    Tr(Tr && o) noexcept : v(o.get()) { reg(); }
    Tr & operator=(const Tr & o) { chk(); v = o.get(); *own = v; return *this; }
    Tr & operator=(Tr && o) noexcept { chk(); v = o.get(); *own = v; return *this; }
    void chk() const { if (self != this || !live.count(this)) { fail("life", "use of an element that was not constructed or was already destroyed"); } }
    u64 get() const { chk(); if (*own != v) fail("life", "element state corrupted"); return v; }
    ~Tr() { chk(); live.erase(this); delete own; own = nullptr; self = nullptr; dtor++; }
    bool operator==(const Tr & o) const { return get() == o.get(); }
    bool operator!=(const Tr & o) const { return get() != o.get(); }
};
std::map<const void *, u64> Tr::live; long Tr::ctor, Tr::dtor;
struct HT { std::size_t operator()(const Tr & k) const noexcept { return hash_of(k.get()); } };
struct HS { std::size_t operator()(const std::string & k) const noexcept { u64 n = 0; for (char c : k) if (c >= '0' && c <= '9') n = n * 10 + (c - '0'); return hash_of(n); } };

template <class T> struct Cv;
template <> struct Cv<u64> { static u64 to(u64 x) { return x; } static u64 from(u64 x) { return x; } };
template <> struct Cv<Tr> { static Tr to(u64 x) { return Tr(x); } static u64 from(const Tr & x) { return x.get(); } };
template <> struct Cv<std::string> { static std::string to(u64 x) { return "key-with-a-longer-prefix-" + std::to_string(x); } static u64 from(const std::string & s) { return strtoull(s.c_str() + 25, 0, 10); } };

#define OP(x) snprintf(g_opk, sizeof g_opk, "%s", x)
typedef std::unordered_map<u64, u64> Ref;

template <class T, class HH> struct Run {
    typedef MapT<T, T, HH> M;
    typedef Cv<T> C;
#if MAPK != 2
    static size_t limit(M & m) { size_t c = m.capacity(); return c > 32 ? c * (size_t)(m.max_load_factor() * 256) / 256 : c; }
#endif
    static void compare(M & m, const Ref & r, const char * what, bool deep) {
        if (m.size() != r.size()) fail("size", "%s: size() is %lu, expected %lu", what, (unsigned long)m.size(), (unsigned long)r.size());
        if (m.empty() != r.empty()) fail("size", "%s: empty() wrong for size %lu", what, (unsigned long)r.size());
#if MAPK != 2
        if (m.size() > m.capacity()) fail("cap", "%s: size %lu beyond capacity %lu", what, (unsigned long)m.size(), (unsigned long)m.capacity());
        if (m.capacity() != m.bucket_count()) fail("cap", "%s: bucket_count differs", what);
        { double lf = m.capacity() ? (double)m.size() / (double)m.capacity() : 0, d = lf - m.load_factor(); if (d > 1e-5 || d < -1e-5) fail("size", "%s: load_factor() is %g for size %lu and capacity %lu", what, (double)m.load_factor(), (unsigned long)m.size(), (unsigned long)m.capacity()); }
#endif
        if (!deep) return;
        std::unordered_map<u64, int> seen; size_t n = 0, lim = 2 * m.capacity() + 64;
        bool dup = false, extra = false; u64 dk = 0, xk = 0;
        for (auto it = m.begin(); it != m.end(); ++it) {
            u64 k = C::from(it->first), v = C::from(it->second);
            if (++n > lim) fail("iter", "%s: iteration does not end", what);
            if (seen[k]++) { dup = true; dk = k; }
            auto f = r.find(k);
            if (f == r.end()) { extra = true; xk = k; continue; }
            if (f->second != v) fail("value", "%s: iteration yields value %lu for key %lu, expected %lu", what, (unsigned long)v, (unsigned long)k, (unsigned long)f->second);
        }
        for (auto & e : r) {
            T key = C::to(e.first); auto it = m.find(key);
            bool fnd = it != m.end() && C::from(it->first) == e.first, itr = seen.count(e.first);
            if (!fnd && itr) fail("find", "%s: find(%lu) does not find a present key (iteration yields it)", what, (unsigned long)e.first);
            if (fnd && !itr) fail("iter", "%s: iteration does not visit key %lu, which find() finds", what, (unsigned long)e.first);
            if (!fnd && !itr) fail("lost", "%s: key %lu is no longer in the map", what, (unsigned long)e.first);
        }
        if (extra) { T key = C::to(xk); auto it = m.find(key);
            if (it != m.end()) fail("extra", "%s: key %lu is in the map but should not be", what, (unsigned long)xk);
            else fail("iter", "%s: iteration yields key %lu that is not in the map", what, (unsigned long)xk); }
        if (dup) fail("iter", "%s: iteration visits key %lu twice", what, (unsigned long)dk);
        if (n != r.size()) fail("iter", "%s: iteration visits %lu of %lu elements", what, (unsigned long)n, (unsigned long)r.size());
        { const M & cm = m; size_t cn = 0; for (auto it = cm.begin(); it != cm.end(); it++) if (++cn > lim) break; if (cn != r.size()) fail("iter", "%s: const iteration visits %lu of %lu elements", what, (unsigned long)cn, (unsigned long)r.size()); }
        for (auto & e : r) lookup(m, r, e.first, what);
    }
    static void lookup(M & m, const Ref & r, u64 k, const char * what) {
        T key = C::to(k);
        auto it = m.find(key); auto f = r.find(k);
        if (f == r.end()) {
            if (it != m.end()) fail("find", "%s: find(%lu) found an absent key", what, (unsigned long)k);
            if (m.contains(key) || m.count(key) != 0) fail("find", "%s: contains/count(%lu) true for an absent key", what, (unsigned long)k);
            bool th = false; try { (void)m.at(key); } catch (const std::exception &) { th = true; }
            if (!th) fail("find", "%s: at(%lu) does not throw for an absent key", what, (unsigned long)k);
        } else {
            if (it == m.end()) fail("find", "%s: find(%lu) does not find a present key", what, (unsigned long)k);
            if (C::from(it->first) != k) fail("find", "%s: find(%lu) yields key %lu", what, (unsigned long)k, (unsigned long)C::from(it->first));
            if (C::from(it->second) != f->second) fail("value", "%s: find(%lu) yields value %lu, expected value %lu", what, (unsigned long)k, (unsigned long)C::from(it->second), (unsigned long)f->second);
            if (!m.contains(key) || m.count(key) != 1) fail("find", "%s: contains/count(%lu) false for a present key", what, (unsigned long)k);
            if (C::from(m.at(key)) != f->second) fail("find", "%s: at(%lu) wrong", what, (unsigned long)k);
#if MAPK != 2
            const M & cm = m; auto ci = cm.find(key);
            if (ci == cm.end() || C::from(ci->first) != k || C::from(cm.at(key)) != f->second) fail("find", "%s: const find/at(%lu) wrong", what, (unsigned long)k);
#endif
        }
    }
    static void one1(const char * tname, int mode, u64 seed, u64 nops, u64 keys) {
        snprintf(g_case, sizeof g_case, "%s hash=%d seed=%lu keys=%lu", tname, g_hk, (unsigned long)seed, (unsigned long)keys);
        rs = seed * 0x9E3779B97F4A7C15ull + 12345 + g_hk * 777 + keys; rnd(); rnd();
        g_hist.clear(); g_idx = 0; strcpy(g_opk, "ctor");
        {
            u64 initcap = (seed % 3 == 0) ? 0 : (seed % 3 == 1 ? rn(40) : rn(keys + 1));
            M m(initcap), other(0); Ref r, ro;
            H("ctor(%lu)", (unsigned long)initcap);
            // phases: grow, churn, shrink
            for (u64 i = 0; i < nops; i++) {
                if ((i & 1023) == 0) alarm(25);
                g_idx = (long)i; int phase = (int)((i * 6) / nops);
                u64 k = rn(keys), v = rnd() >> 8; u64 d = rn(100);
                int insw = (phase == 0 || phase == 3) ? 75 : (phase == 2 || phase == 5) ? 15 : 45;
                if (d < (u64)insw) {
                    OP("insert");
                    T key = C::to(k), val = C::to(v); bool had = r.count(k); bool ins = true;
#if MAPK != 2
                    size_t b0 = m.capacity(), n0 = m.size(), L0 = limit(m);
#endif
                    switch (rn(6)) {
                    case 0: { H("emplace(%lu)", (unsigned long)k); auto p = m.emplace(key, val); ins = p.second; if (C::from(p.first->first) != k) fail("result", "emplace returns an iterator to another key"); if (!had) r[k] = v; break; }
                    case 1: { H("try_emplace(%lu)", (unsigned long)k); auto p = m.try_emplace(key, val); ins = p.second; if (C::from(p.first->first) != k) fail("result", "try_emplace returns an iterator to another key"); if (!had) r[k] = v; break; }
                    case 2: { H("insert(%lu)", (unsigned long)k); typename M::value_type kv(key, val); auto p = m.insert(kv); ins = p.second; if (C::from(p.first->first) != k) fail("result", "insert returns an iterator to another key"); if (C::from(kv.second) != v) fail("result", "insert(const&) changed its argument"); if (!had) r[k] = v; break; }
                    case 3: { H("insert_rv(%lu)", (unsigned long)k); auto p = m.insert(typename M::value_type(key, val)); ins = p.second; if (!had) r[k] = v; break; }
#if MAPK != 2
                    case 4: { H("insert_or_assign(%lu)", (unsigned long)k); auto p = m.insert_or_assign(key, val); ins = p.second; if (C::from(p.first->second) != v) fail("result", "insert_or_assign does not set the value"); r[k] = v; break; }
#endif
                    default: { H("[](%lu)", (unsigned long)k); ins = !had; m[key] = val; r[k] = v; break; }
                    }
#if MAPK != 2
                    { size_t b1 = m.capacity(), n1 = m.size(); size_t L1 = limit(m);      // within the load limit before => within it afterwards
                      if (!had && n0 <= L0 && n1 > L1 + (b0 <= 32 && b1 != b0)) { OP("load"); fail("limit", "size %lu exceeds the load limit %lu (capacity %lu, max_load_factor %g) after an insertion into a table with capacity %lu, load limit %lu", (unsigned long)n1, (unsigned long)L1, (unsigned long)b1, (double)m.max_load_factor(), (unsigned long)b0, (unsigned long)L0); } }
#endif
                    if (ins == had) fail("result", "insertion of key %lu reports inserted=%d, key %s before", (unsigned long)k, (int)ins, had ? "present" : "absent");
                    auto f = m.find(key); if (f == m.end() || C::from(f->second) != r[k]) fail("find", "key %lu not found with its value after insertion", (unsigned long)k);
                } else if (d < 88) {
                    OP("erase");
                    T key = C::to(k); bool had = r.erase(k);
#if MAPK != 2
                    if (rn(5) == 0) { auto it = m.find(key); if (it != m.end()) { H("erase_it(%lu)", (unsigned long)k); auto nx = m.erase(it); if (nx != m.end() && !r.count(C::from(nx->first))) fail("result", "erase(iterator) returns a dead position"); if (!had) fail("find", "found absent key"); } else if (had) fail("find", "find(%lu) misses a present key", (unsigned long)k); }
                    else
#endif
                    { H("erase(%lu)", (unsigned long)k); size_t n = m.erase(key); if (n != (had ? 1u : 0u)) fail("result", "erase(%lu) returns %lu, key was %s", (unsigned long)k, (unsigned long)n, had ? "present" : "absent"); }
                    if (m.find(key) != m.end()) fail("extra", "key %lu still found after erase", (unsigned long)k);
                } else if (d < 97 || mode == 1) {
                    OP("lookup");
                    lookup(m, r, k, "lookup"); lookup(m, r, keys + rn(1000), "lookup");
                } else if (mode == 2) {
                    OP("rehash");
                    switch (rn(4)) {
                    case 0: { u64 n = rn(keys * 2); H("rehash(%lu)", (unsigned long)n); m.rehash(n); break; }
                    case 1: { u64 n = rn(keys * 2); H("reserve(%lu)", (unsigned long)n); m.reserve(n);
#if MAPK != 2
                        if (m.capacity() < n) fail("cap", "capacity %lu after reserve(%lu)", (unsigned long)m.capacity(), (unsigned long)n);
                        if (rn(4) == 0) { // a fresh map takes that many elements without another rehash; shrinking gives the memory back
                            static const float LF[] = { 0.5f, 0.61f, 0.7f, 0.83f, 0.875f };
                            M c(0); c.max_load_factor(LF[rn(5)]); if (n) c.reserve(n); size_t bc = c.bucket_count(); u64 q = n < 700 ? n : 700; Ref rc;
                            if (g_hk == 0 || g_hk == 3) q = n;
                            for (u64 j = 0; j < q; j++) { c.emplace(C::to(j * 3), C::to(j)); rc[j * 3] = j; }
                            if (c.bucket_count() != bc && n) fail("cap", "reserve(%lu): bucket_count %lu changed to %lu while %lu elements were inserted", (unsigned long)n, (unsigned long)bc, (unsigned long)c.bucket_count(), (unsigned long)q);
                            for (u64 j = 0; j < q; j++) if (j % 8) { c.erase(C::to(j * 3)); rc.erase(j * 3); }
                            c.shrink_to_fit(); compare(c, rc, "shrink_to_fit of a map with few elements", true);
                            if (c.capacity() > 4 * rc.size() + 64) fail("cap", "capacity %lu after shrink_to_fit with %lu elements", (unsigned long)c.capacity(), (unsigned long)rc.size());
                            c.clear(); c.shrink_to_fit(); compare(c, Ref(), "shrink_to_fit of an empty map", true);
                            c.rehash(n); if (n && c.bucket_count() + c.bucket_count() / 15 + 2 < n) fail("cap", "bucket_count %lu after rehash(%lu)", (unsigned long)c.bucket_count(), (unsigned long)n);
                        }
#endif
                        break; }
                    case 2: { H("shrink_to_fit"); m.shrink_to_fit(); break; }
                    default: {
#if MAPK != 2
                        H("shrink_to_fit(true)"); m.shrink_to_fit(true);
#else
                        m.reserve(r.size());
#endif
                        break; }
                    }
                    compare(m, r, "after rehash/reserve/shrink_to_fit", true);
#if MAPK != 2
                } else if (mode == 5) {
                    OP("load");
                    float f = (float)((double)rn(4096) / 1024 - 1); if (rn(3) == 0) f = (float)(0.5 + (double)rn(1000) / 2500);
                    H("max_load_factor(%g)", (double)f); m.max_load_factor(f);
                    float w = f < 0.5f ? 0.5f : f > 0.875f ? 0.875f : f; w = (float)(size_t)(w * 256) / 256;
                    if (m.max_load_factor() != w) fail("mlf", "max_load_factor() is %g after max_load_factor(%g), expected %g", (double)m.max_load_factor(), (double)f, (double)w);
                    if (m.size() > limit(m)) fail("limit", "size %lu exceeds the load limit %lu after max_load_factor(%g)", (unsigned long)m.size(), (unsigned long)limit(m), (double)f);
                    compare(m, r, "max_load_factor", true);
                    if (m.capacity() > 4 * keys + 64) { m.shrink_to_fit(); compare(m, r, "shrink_to_fit", true); }
#endif
                } else if (mode == 3) {
                    OP("copy");
                    switch (rn(8)) {
                    case 0: { H("copy"); M c(m); compare(c, r, "copy constructor", true); compare(m, r, "source of copy", true);
                        T key = C::to(k); c.erase(key); if ((m.find(key) != m.end()) != (bool)r.count(k)) fail("result", "erasing from a copy changes the source");
                        break; }
                    case 1: { H("copy="); other = m; ro = r; compare(other, ro, "copy assignment", true); break; }
                    case 2: { H("move="); M c(m); other = std::move(c); ro = r; compare(other, ro, "move assignment", true); break; }
                    case 3: { H("move"); M c(std::move(m)); compare(c, r, "move constructor", true); m = std::move(c); compare(m, r, "move back", true); break; }
                    case 4: { H("swap"); m.swap(other); std::swap(r, ro); compare(m, r, "swap", true); compare(other, ro, "swap", true); break; }
                    case 5: { if (rn(4)) break; bool d = rn(2); H("clear(%d)", (int)d); m.clear(d); r.clear(); compare(m, r, "clear", true); break; }
                    case 6: { H("selfassign"); m = *&m; compare(m, r, "self copy assignment", true); break; }
                    default: { H("range"); M c(0); std::vector<typename M::value_type> vv; for (auto & e : r) { vv.emplace_back(C::to(e.first), C::to(e.second)); } 
#if MAPK != 2
                        c.insert(vv.begin(), vv.end()); compare(c, r, "insert(first,last)", true);
#endif
                        break; }
                    }
                }
                if (keys <= 48 || (keys <= 128 && (i & 3) == 0) || (g_deep >= 0 && (long)i >= g_deep)) { compare(m, r, "state", true); g_good = (long)i; }
                else { compare(m, r, "size", false); if ((i % 257) == 0) { OP("history"); compare(m, r, "state", true); g_good = (long)i; } }
#if MAPK != 2
                if (mode == 4 && r.size() && rn(200) == 0) { // erase_if by iterators
                    OP("erase"); H("erase_if"); size_t b = r.size(); for (auto it = r.begin(); it != r.end(); ) if (it->first % 3 == 0) it = r.erase(it); else ++it;
                    size_t n = std::erase_if(m, [](const typename M::value_type & e) { return C::from(e.first) % 3 == 0; });
                    if (n != b - r.size()) fail("result", "erase_if returns %lu, expected %lu", (unsigned long)n, (unsigned long)(b - r.size()));
                    compare(m, r, "erase_if", true);
                }
#endif
            }
            OP(g_deep >= 0 ? "any" : "history"); compare(m, r, "end", true); compare(other, ro, "end (other)", true);
            if (mode == 3) { OP("copy"); m.clear(); compare(m, Ref(), "clear", true); }
        }
        strcpy(g_opk, "dtor"); if (!Tr::live.empty()) { fail("life", "%lu elements never destroyed", (unsigned long)Tr::live.size()); }
    }
    static void one(const char * tname, int mode, u64 seed, u64 nops, u64 keys) {
        g_deep = -1; g_good = 0;
        try { one1(tname, mode, seed, nops, keys); }
        catch (const Again &) { Tr::live.clear(); one1(tname, mode, seed, nops, keys); }
    }
};

int main(int argc, char ** argv) {
    int mode = argc > 1 ? atoi(argv[1]) : 0; u64 seed = argc > 2 ? strtoull(argv[2], 0, 10) : 1; int tier = argc > 3 ? atoi(argv[3]) : 0;
    int life = argc > 4 ? atoi(argv[4]) : 1;
    signal(SIGALRM, on_alarm); signal(SIGSEGV, on_segv); signal(SIGABRT, on_segv); signal(SIGBUS, on_segv); signal(SIGFPE, on_segv);
    // hash values whose mixed form shares the top 20 bits (same home group) but has many control bytes
    { u64 x = 1; u64 want = 0; while (g_pre.size() < 40 && x < 40000000) { u64 h = mix(x); if ((h >> 50) == want) g_pre.push_back(x); x++; }
      x = 1; while (g_pre2.size() < 40 && x < 40000000) { u64 h = mix(x); if ((h >> 50) == 0x3fff) g_pre2.push_back(x); x++; } }
    static const u64 KS[] = { 24, 45, 120, 700, 3000 };
    unsigned long runs = 0;
    int hks[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8 };
    for (u64 rep = 0; rep < (tier ? 6u : 1u); rep++)
        for (int h : hks) for (u64 ks : KS) {
            g_hk = h;
            u64 cap = ks; if ((h == 1 || h == 2 || h == 4 || h == 5 || h == 8) && cap > 700) continue;
#if MAPK == 2
            if ((h == 1 || h == 2 || h == 4 || h == 5 || h == 8) && cap > 24) continue;   // robin: probe distance is limited by design
#endif
            u64 ops = 600 + cap * 12;
            if ((h == 1 || h == 2) && cap > 100) ops = 2500;
            Run<u64, HI>::one("u64", mode, seed + rep * 97, ops, cap); runs++;
            if (life && cap <= 700) { Run<Tr, HT>::one("tracked", mode, seed + rep * 97, ops / 3, cap); runs++; }
            if (life && cap <= 120) { Run<std::string, HS>::one("string", mode, seed + rep * 97, ops / 3, cap); runs++; }
        }
    printf("STATS runs=%lu ops=%lu seed=%lu\n", runs, g_ops, (unsigned long)seed);
    return g_fail ? 1 : 0;
}
