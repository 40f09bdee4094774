// libFuzzer front end: coverage-guided bytes become the tape of the same properties.
#include "pbt.h"
#include "pbt_core.inc"
using namespace pbt;
static const Prop *g_p;
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  const char *id = getenv("PBT_PROP"); if(!id) { fprintf(stderr, "PBT_PROP unset\n"); exit(3); }
  for(const Prop *q = props; q->id; q++) if(!strcmp(id, q->id)) g_p = q;
  if(!g_p) { fprintf(stderr, "no property %s\n", id); exit(3); }
  harness_setup();
  return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) {
  Case c; c.start_replay(d, n);
  try { g_p->fn(c); }
  catch(const Failure &f) { fprintf(stderr, "PBT-FAILURE: %s\n", f.msg.c_str()); abort(); }
  catch(const Discard &) { return -1; }
  return 0;
}
