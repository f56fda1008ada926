/* Included in front of the command-line generators: a run is reproducible. */
#include <stdlib.h>
void pbc_random_set_deterministic(unsigned int seed);
__attribute__((constructor)) static void vp_tool_seed(void) {
  char *s = getenv("VP_TOOL_SEED");
  if (s) { pbc_random_set_deterministic((unsigned) atoi(s)); srand((unsigned) atoi(s)); }
}
