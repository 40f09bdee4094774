PRE = r'''
#include <stdio.h>
#include <stdint.h>
#include <stdbool.h>
#include <string.h>
#include "evfs/util/intmath.h"
#include "evfs/util/range_strings.h"
'''
SEEDS = [
 dict(id='U28a', property='U28', edits=[('src/util/intmath.c', '''    6,6,6,6,  // 9 - 12   (2**23-1 - 2**19)
    5,5,5,    // 13 - 15  (2**19-1 - 65536)''', '''    6,6,6,    // 9 - 11   (2**23-1 - 2**20)
    5,5,5,5,  // 12 - 15  (2**20-1 - 65536)''')], needs='a number between 1000000 and 1048575', breaks='its logarithm and digit count are one too small',
  demo=PRE + r'''
int main(void) { if(ilog10(999999) != 5 || ilog10(1048576) != 6) return 2; return base10_digits(1000000) != 7 || ilog10(1040000) != 6; }
'''),
 dict(id='U28b', property='U28', edits=[('src/util/intmath.c', '''31267,  31647,  32024,''', '''31267,  31467,  32024,''')], needs='a mantissa close to 1.953', breaks='the logarithm is off by up to 180 units in the last place',
  demo=PRE + r'''
int main(void) { int32_t l = log2_fixed(125, 6); return l < 31645 || l > 31649; }
'''),
 dict(id='U28c', property='U28', edits=[('src/util/intmath.c', '''  const unsigned short aux_bits = adj_bits >= 2 ? 2 : adj_bits;''', '''  const unsigned short aux_bits = adj_bits > 24 ? 0 : adj_bits >= 2 ? 2 : adj_bits;''')], needs='a fixed-point number with few fraction bits', breaks='the square root is more than one unit in the last place off',
  demo=PRE + r'''
int main(void) { for(unsigned long v = 1; v < 100000; v++) { unsigned long q = isqrt_fixed(v, 0); if((q + 1) * (q + 1) < v || (q && (q - 1) * (q - 1) > v)) return printf("%lu %lu\n", v, q), 1; if(isqrt_fixed(v * v, 0) != v) return printf("%lu %lu\n", v * v, q), 1; } return 0; }
'''),
dict(id='U30a', property='U30', edits=[('src/util/getopt_r.c', '''  if(state->optarg && state->optarg == argv[state->optind-1])
    shift_right++;''', '''  if(state->optarg)
    shift_right++;''')], needs='operands before and after an option with its argument in the same word', breaks='the operands change their order',
  demo=PRE + r'''
#include "evfs/util/getopt_r.h"
int main(void) { char *argv[] = {"p", "x", "-bfoo", "y", "-c", NULL}; GetoptState s; getopt_init(&s); s.permute_args = 1; if(getopt_r(argv, "b:c", &s) != 'b' || strcmp(s.optarg, "foo")) return 1; if(getopt_r(argv, "b:c", &s) != 'c') return 1; if(getopt_r(argv, "b:c", &s) != -1) return 1; return s.optind != 3 || strcmp(argv[3], "x") || strcmp(argv[4], "y"); }
'''),
 dict(id='U30b', property='U30', edits=[('src/util/getopt_r.c', '''      if(strlen(long_options[i].name) == long_opt_len) { // Check for exact match''', '''      if(long_opt_len > 0 && strlen(long_options[i].name) <= long_opt_len + (equal_pos != NULL)) { // Check for exact match''')], needs='a long option with "=" whose name lacks the last letter of a defined one', breaks='it is accepted as that option',
  demo=PRE + r'''
#include "evfs/util/getopt_r.h"
int main(void) { static const struct option lo[] = {{"beta", required_argument, NULL, 'b'}, {0}}; char *argv[] = {"p", "--bet=1", "--beta=2", NULL}; GetoptState s; getopt_init(&s); if(getopt_long_r(argv, "", lo, &s) != '?') return 1; return getopt_long_r(argv, "", lo, &s) != 'b' || strcmp(s.optarg, "2"); }
'''),
 dict(id='U32a', property='U32', edits=[('include/evfs/util/unaligned_access.h', '''  val |= (uint64_t)bdata[3] << 24;
  val |= (uint64_t)bdata[4] << 32;''', '''  val |= (uint64_t)(bdata[3] << 24);
  val |= (uint64_t)bdata[4] << 32;''')], needs='a 64-bit little endian value with bit 31 set', breaks='the upper half is read as all ones',
  demo=PRE + r'''
#include "evfs/util/unaligned_access.h"
int main(void) { unsigned char b[9] = {0, 1, 2, 3, 0x84, 5, 6, 7, 8}; return get_unaligned_u64le(b + 1) != 0x0807060584030201ull; }
'''),
]
