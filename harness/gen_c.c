// The C11 type-generic accessors, which C++ cannot reach.
#include <stdint.h>
#include "evfs/util/unaligned_access.h"
#define ALL(T, N) \
  T gen_get_##N(const void *p) { return get_unaligned((T *)p); } T gen_get_be_##N(const void *p) { return get_unaligned_be((T *)p); } T gen_get_le_##N(const void *p) { return get_unaligned_le((T *)p); } \
  void gen_set_##N(T v, void *p) { set_unaligned(v, p); } void gen_set_be_##N(T v, void *p) { set_unaligned_be(v, p); } void gen_set_le_##N(T v, void *p) { set_unaligned_le(v, p); }
ALL(uint16_t, u16) ALL(int16_t, s16) ALL(uint32_t, u32) ALL(int32_t, s32) ALL(uint64_t, u64) ALL(int64_t, s64)
