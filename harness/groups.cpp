// Thin extern "C" names for the SIMD control-group operations of the flat maps
#include <limits.h>
#include <jstd/hashmap/flat_map_group15.hpp>
#include <jstd/hashmap/flat_map_group16.hpp>
#include <jstd/hashmap/group_quadratic_prober.hpp>
#define X extern "C" __attribute__((used))
typedef uint32_t u32; typedef uint64_t u64;
using C5 = jstd::group15_meta_ctrl; using C6 = jstd::group16_meta_ctrl;
using G5 = jstd::flat_map_group15<C5>; using G6 = jstd::flat_map_group16<C6>;
#define COMMON(P, G, C) \
 X void P##_init(G * g) { g->init(); } \
 X bool P##_is_empty(const G * g, u64 pos) { return g->is_empty(pos); } \
 X bool P##_is_used(const G * g, u64 pos) { return g->is_used(pos); } \
 X bool P##_is_equals(G * g, u64 pos, u64 h) { return g->is_equals(pos, h); } \
 X bool P##_is_overflow(const G * g, u64 h) { return g->is_overflow(h); } \
 X bool P##_is_not_overflow(const G * g, u64 h) { return g->is_not_overflow(h); } \
 X bool P##_has_any_overflow(const G * g) { return g->has_any_overflow(); } \
 X void P##_set_empty(G * g, u64 pos) { g->set_empty(pos); } \
 X void P##_set_used(G * g, u64 pos, u64 h) { g->set_used(pos, h); } \
 X void P##_set_overflow(G * g, u64 h) { g->set_overflow(h); } \
 X u32 P##_match_empty(const G * g) { return g->match_empty(); } \
 X u32 P##_match_used(const G * g) { return g->match_used(); } \
 X u32 P##_match_hash(const G * g, u64 h) { return g->match_hash(h); } \
 X unsigned char P##_reduced(u64 h) { return C::reduced_hash(h); } \
 X u32 P##_repeated(u64 h) { return (u32)C::repeated_hash(h); } \
 X u32 P##_match_hashbits(const G * g, u64 h) { return g->match_hash(G::make_hash_bits(h)); }
COMMON(g15, G5, C5)
COMMON(g16, G6, C6)
X void g15_set_used64(G5 * g, u64 pos, u64 h) { g->set_used64(pos, h); }
X bool g15_is_equals64(G5 * g, u64 pos, u64 h) { return g->is_equals64(pos, h); }
X void g15_set_sentinel(G5 * g) { g->set_sentinel(); }
X bool g15_is_sentinel(const G5 * g, u64 pos) { return g->is_sentinel(pos); }
X bool g15_is_valid(const G5 * g, u64 pos) { return g->is_valid(pos); }
X void g15_clear_overflow(G5 * g) { g->clear_overflow(); }
X void g16_set_used_strict(G6 * g, u64 pos, u64 h) { g->set_used_strict(pos, h); }
X u32 g16_match_empty_m(const G6 * g) { return g->match_empty(G6::make_mask_bits()); }
X u32 g16_match_used_m(const G6 * g) { return g->match_used(G6::make_mask_bits()); }
X u32 g16_match_hash_m(const G6 * g, u64 h) { return g->match_hash(G6::make_hash_bits(h), G6::make_mask_bits()); }
X u32 g16_match_hash_hm(const G6 * g, u64 h) { return g->match_hash(h, G6::make_mask_bits()); }
// prober
struct PR { u64 i, s, m, len; bool more; };
X void prober_step(u64 index, u64 step, u64 mask, PR * out) {
    jstd::group_quadratic_prober p(index);
    // bring the object into an arbitrary state through its layout-compatible members
    struct L { u64 i, s; }; static_assert(sizeof(L) == sizeof(p), "");
    L l = { index, step }; __builtin_memcpy(&p, &l, sizeof(l));
    bool more = p.next_bucket(mask);
    out->i = p.get(); out->s = p.steps(); out->len = p.length(); out->more = more;
}
X void prober_start(u64 index, PR * out) { jstd::group_quadratic_prober p(index); out->i = p.get(); out->s = p.steps(); out->len = p.length(); }
