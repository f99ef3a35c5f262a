// Names for the public operations of group15_flat_map / group16_flat_map over 64-bit keys and values,
// with an arbitrary (external) hash function.
#include <limits.h>
#if defined(G16)
#include <jstd/hashmap/group16_flat_map.hpp>
#define MAPT jstd::group16_flat_map
#else
#include <jstd/hashmap/group15_flat_map.hpp>
#define MAPT jstd::group15_flat_map
#endif
#include <cstdint>
typedef uint64_t u64; typedef uint32_t u32;
extern "C" u64 ext_hash(u64) noexcept __attribute__((pure));
struct H { std::size_t operator()(u64 k) const noexcept { return ext_hash(k); } };
#ifdef TRACKED
// an element whose construction, copying, moving and destruction are visible: external functions with contracts of their own
struct V;
extern "C" { void v_ctor(V *, u64) noexcept; void v_copy(V *, const V *) noexcept; void v_move(V *, V *) noexcept; void v_assign(V *, const V *) noexcept; void v_dtor(V *) noexcept; }
struct V { u64 x; V(u64 a = 0) noexcept { v_ctor(this, a); } V(const V & o) noexcept { v_copy(this, &o); } V(V && o) noexcept { v_move(this, &o); }
           V & operator = (const V & o) noexcept { v_assign(this, &o); return *this; } V & operator = (V && o) noexcept { v_assign(this, &o); return *this; } ~V() { v_dtor(this); } };
#else
typedef u64 V;
#endif
using M = MAPT<u64, V, H>;
#define X extern "C" __attribute__((used))
X const M::value_type * op_find(M & m, u64 k) { auto it = m.find(k); return (it == m.end()) ? nullptr : &*it; }
X const M::value_type * op_cfind(const M & m, u64 k) { auto it = m.find(k); return (it == m.end()) ? nullptr : &*it; }
X bool op_contains(const M & m, u64 k) { return m.contains(k); }
X u64 op_count(const M & m, u64 k) { return m.count(k); }
X V * op_at(M & m, u64 k) { return &m.at(k); }
X const V * op_cat(const M & m, u64 k) { return &m.at(k); }
struct R { const M::value_type * p; bool ins; };
X void op_emplace(M & m, u64 k, u64 v, R * r) { auto x = m.emplace(k, v); r->p = &*x.first; r->ins = x.second; }
X void op_try_emplace(M & m, u64 k, u64 v, R * r) { auto x = m.try_emplace(k, v); r->p = &*x.first; r->ins = x.second; }
X void op_insert(M & m, const M::value_type & kv, R * r) { auto x = m.insert(kv); r->p = &*x.first; r->ins = x.second; }
X void op_insert_rv(M & m, M::value_type & kv, R * r) { auto x = m.insert(std::move(kv)); r->p = &*x.first; r->ins = x.second; }
X void op_insert_or_assign(M & m, u64 k, u64 v, R * r) { auto x = m.insert_or_assign(k, v); r->p = &*x.first; r->ins = x.second; }
X V * op_subscript(M & m, u64 k) { return &m[k]; }
X u64 op_erase(M & m, u64 k) { return m.erase(k); }
X void op_rehash(M & m, u64 n) { m.rehash(n); }
X void op_reserve(M & m, u64 n) { m.reserve(n); }
X void op_shrink(M & m) { m.shrink_to_fit(); }
X void op_clear(M & m) { m.clear(); }
X u64 op_size(const M & m) { return m.size(); }
X bool op_empty(const M & m) { return m.empty(); }
X u64 op_capacity(const M & m) { return m.capacity(); }
X u64 op_bucket_count(const M & m) { return m.bucket_count(); }
X u64 op_max_size(const M & m) { return m.max_size(); }
X void op_set_mlf(M & m, float f) { m.max_load_factor(f); }
X float op_get_mlf(const M & m) { return m.max_load_factor(); }
X float op_load_factor(const M & m) { return m.load_factor(); }
X void op_swap(M & a, M & b) { a.swap(b); }
X void op_construct(void * p, u64 n) { new (p) M(n); }
X void op_default(void * p) { new (p) M(); }
X void op_destroy(M & m) { m.~M(); }
X void op_copy(void * p, const M & o) { new (p) M(o); }
X void op_copy_assign(M & a, const M & o) { a = o; }
X void op_move_assign(M & a, M & o) { a = std::move(o); }
#ifdef TRYALL
X void op_move(void * p, M & o) { new (p) M(std::move(o)); }
X u64 op_erase_it(M & m, u64 k) { auto it = m.find(k); if (it == m.end()) return 0; m.erase(it); return 1; }
#endif
X void op_begin(M & m, M::iterator * it) { *it = m.begin(); }
X void op_end(M & m, M::iterator * it) { *it = m.end(); }
X void op_next(M::iterator * it) { M::iterator x = *it; ++x; *it = x; }
X void op_nextc(M::const_iterator * it) { M::const_iterator x = *it; x++; *it = x; }
X void op_cbegin(const M & m, M::const_iterator * it) { *it = m.begin(); }
X void op_cend(const M & m, M::const_iterator * it) { *it = m.end(); }
X void op_find_it(M & m, u64 k, M::iterator * it) { *it = m.find(k); }
X void op_cfind_it(const M & m, u64 k, M::const_iterator * it) { *it = m.find(k); }
X bool op_iteq(M::iterator * a, M::iterator * b) { return *a == *b; }
X bool op_itne(M::iterator * a, M::iterator * b) { return *a != *b; }
X bool op_iteqc(M::const_iterator * a, M::const_iterator * b) { return *a == *b; }
X bool op_itnec(M::const_iterator * a, M::const_iterator * b) { return *a != *b; }
X const M::value_type * op_derefc(M::const_iterator * it) { return &**it; }
X const M::value_type * op_deref(M::iterator * it) { return &**it; }
// --- specification functions: the map's own hash, group index and control byte for a key (needs -fno-access-control)
X u64 sp_hash(M & m, u64 k) { return m.table_.hash_for(k); }
X u64 sp_index(M & m, u64 h) { return m.table_.index_for_hash(h); }
X u64 sp_ctrl(M & m, u64 h) { return m.table_.ctrl_for_hash(h); }
X u64 sp_init(void * p) { M * m = new (p) M(); return m->table_.mlf_; }
#define OFF(f) X const u64 off_##f = __builtin_offsetof(M, table_.f##_);
OFF(groups) OFF(slots) OFF(slot_size) OFF(slot_threshold) OFF(index_shift) OFF(mlf) OFF(group_mask)
#if defined(G16)
OFF(slot_mask) OFF(groups_alloc)
#endif
