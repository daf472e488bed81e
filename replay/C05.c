/* random orders of set calls on the real code: a solve is refused exactly as long as a required input is missing */
#define KERNELS XRTM_KERNEL_LI_SPARSE, XRTM_KERNEL_ROSS_THICK, XRTM_KERNEL_RAHMAN
#define COEF(k, l) ((k) == 0 || (k) == 3 ? (1 - .3 * ((k) == 3)) * (2 * (l) + 1) * pow(.45, l) * (.6 + .4 * V()) : .1 * pow(.4, l) * V())
#define TAU .0001
#define FTOL 1e-3
#include "api.h"
#include "solve.h"
static const char *missing(sh_t *s) { static char b[2000]; int i, k; sh_t t; b[0] = 0; for (i = 0; i < n_s; i++) if (!s->set[i]) { t = *s; t.set[i] = 1; sprintf(b + strlen(b), "scalar %d ", i); } for (i = 0; i < NL; i++) { if (!s->so[i]) sprintf(b + strlen(b), "omega[%d] ", i); if (!s->st[i]) sprintf(b + strlen(b), "ltau[%d] ", i); if (!s->sc[i]) sprintf(b + strlen(b), "coef[%d] ", i); }
     for (i = 0; i < NK; i++) { if (!s->ska[i]) sprintf(b + strlen(b), "ampfac[%d] ", i); for (k = 0; k < kernel_n_params(KT[i]); k++) if (!s->skp[i][k]) sprintf(b + strlen(b), "param[%d][%d] ", i, k); } return b; }
int main() { int c, n, it, q, k, solvers[] = {XRTM_SOLVER_EIG_BVP, XRTM_SOLVER_EIG_ADD, XRTM_SOLVER_DOUB_ADD, XRTM_SOLVER_PADE_ADD, XRTM_SOLVER_SOS}; if (!getenv("TELL") && !freopen("/dev/null", "w", stderr)) return 0;
     for (it = 0; it < 60; it++) for (c = 0; c < NCFG; c++) { static xrtm_data d; static sh_t s; static res_t r; int after = 0, ok, upd = 0; memset(&s, 0, sizeof(s)); if (make(&d, c, it % 2 ? NTH : 0)) continue;
     for (k = q = 0; q < 5; q++) if (solvers[(q + it) % 5] & SOLVER) k = solvers[(q + it) % 5];
     for (n = 0; n < 2000 && after < 12; n++) { if (valid(&d, &s)) return 1; ok = complete(&s); if (ok) after++; if (!ok && R(4)) continue;
          if (NDD && !upd) { solve(&d, k, XRTM_OUTPUT_RADIANCE, &r); if (r.rc == 0) { printf("configuration %d: the solve is accepted before xrtm_update_varied_layers has been called\n", c); return 1; } if (R(2)) continue; }
          if (NDD) { int u = xrtm_update_varied_layers(&d); if ((u == 0) != ok) { printf("configuration %d: xrtm_update_varied_layers returns %d with these inputs missing: %s\n", c, u, missing(&s)); return 1; } upd |= ok; }
          solve(&d, k, XRTM_OUTPUT_RADIANCE, &r); if ((r.rc == 0) != ok) { printf("configuration %d, solver %d: the solve returns %d after %s with these inputs not set: %s\n", c, k, r.rc, OP, missing(&s)); return 1; } upd |= ok; }
     if (after < 12) { printf("configuration %d: the gate was not reached\n", c); return 0; }
     xrtm_destroy(&d); } return 0; }
