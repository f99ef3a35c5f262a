// Thin extern "C" names for the real functions of jstd/support/{Power2,BitUtils}.h
#include <jstd/support/Power2.h>
#include <jstd/support/BitUtils.h>
#include <jstd/support/BitVec.h>
#define X extern "C" __attribute__((used))
typedef uint32_t u32; typedef uint64_t u64;
namespace rt = jstd::run_time;
#define POW(T, S) \
 X bool is_pow2_##S(T n) { return rt::is_pow2<T>(n); } \
 X T clear_low_bit_##S(T n) { return rt::clear_low_bit<T>(n); } \
 X u32 bitScanForward_##S(T n) { return rt::bitScanForward<T>(n); } \
 X u32 bitScanReverse_##S(T n) { return rt::bitScanReverse<T>(n); } \
 X u32 countTrailingZeros_##S(T n) { return rt::countTrailingZeros<T>(n); } \
 X u32 countLeadingZeros_##S(T n) { return rt::countLeadingZeros<T>(n); } \
 X T prev_pow2_##S(T n) { return rt::prev_pow2<T>(n); } \
 X T round_down_##S(T n) { return rt::round_down<T>(n); } \
 X T round_to_##S(T n) { return rt::round_to<T>(n); } \
 X T round_up_##S(T n) { return rt::round_up<T>(n); } \
 X T next_pow2_##S(T n) { return rt::next_pow2<T>(n); } \
 X T log2_int_##S(T n) { return rt::log2_int<T>(n); }
POW(u32, u32) POW(u64, u64)
// the instantiation the maps use for their capacities
X u64 round_up4_u64(u64 n) { return rt::round_up<u64, 4>(n); }
namespace bu = jstd::BitUtils;
X u32 i_popcnt(u32 x) { return bu::__internal_popcnt(x); }
X u32 i_popcnt_slow(u32 x) { return bu::__internal_popcnt_slow(x); }
X u32 i_hakmem(u32 x) { return bu::__internal_hakmem_popcnt(x); }
X u32 i_popcnt64(u64 x) { return bu::__internal_popcnt64(x); }
X u32 i_clz(u32 x) { return bu::__internal_clz(x); }
X u32 i_clzll(u64 x) { return bu::__internal_clzll(x); }
X u32 i_ctz(u32 x) { return bu::__internal_ctz(x); }
X u32 i_ctzll(u64 x) { return bu::__internal_ctzll(x); }
X u32 bsf32(u32 x) { return bu::bsf32(x); }
X u32 bsf64(u64 x) { return bu::bsf64(x); }
X u32 bsr32(u32 x) { return bu::bsr32(x); }
X u32 bsr64(u64 x) { return bu::bsr64(x); }
X u32 bsf_(u64 x) { return bu::bsf(x); }
X u32 bsr_(u64 x) { return bu::bsr(x); }
X u32 ctz32(u32 x) { return bu::countTrailingZeros32(x); }
X u32 ctz64(u64 x) { return bu::countTrailingZeros64(x); }
X u32 ctz_(u64 x) { return bu::countTrailingZeros(x); }
X u32 clz32(u32 x) { return bu::countLeadingZeros32(x); }
X u32 clz64(u64 x) { return bu::countLeadingZeros64(x); }
X u32 clz_(u64 x) { return bu::countLeadingZeros(x); }
X u32 popcnt32(u32 x) { return bu::popcnt32(x); }
X u32 popcnt64(u64 x) { return bu::popcnt64(x); }
X u32 popcnt_(u64 x) { return bu::popcnt(x); }
X u32 ls1b32(u32 x) { return bu::ls1b32(x); }
X u64 ls1b64(u64 x) { return bu::ls1b64(x); }
X u64 ls1b_(u64 x) { return bu::ls1b(x); }
X u32 ms1b32(u32 x) { return bu::ms1b32(x); }
X u64 ms1b64(u64 x) { return bu::ms1b64(x); }
X u64 ms1b_(u64 x) { return bu::ms1b(x); }
X u32 clow32(u32 x) { return bu::clearLowBit32(x); }
X u64 clow64(u64 x) { return bu::clearLowBit64(x); }
X u64 clow_(u64 x) { return bu::clearLowBit(x); }
X u32 log2_32(u32 x) { return bu::log2_32(x); }
X u64 log2_64(u64 x) { return bu::log2_64(x); }
X u64 log2_(u64 x) { return bu::log2_int(x); }
