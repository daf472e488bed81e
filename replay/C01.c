/* random sequences of valid set calls on the real code: after each call every input reads back as last set */
#include "api.h"
int main() { int c, n, it; for (it = 0; it < 6; it++) for (c = 0; c < NCFG; c++) { static xrtm_data d; static sh_t s; memset(&s, 0, sizeof(s)); if (make(&d, c, it % 2 ? NTH : 0)) continue;
     for (n = 0; n < 1500; n++) { if (valid(&d, &s)) return 1; if (cmp(&d, &s)) { printf("after %s\n", OP); return 1; } } xrtm_destroy(&d); } return 0; }
