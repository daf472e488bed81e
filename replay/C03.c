/* random configurations on the real code: created exactly when no rule is violated, with the implied settings filled in */
#include <stdio.h>
#include <stdlib.h>
#include <gutil.h>
#include <xrtm.h>
#include <xrtm_interface.h>
static unsigned sd = 12345; static unsigned r32() { sd ^= sd << 13; sd ^= sd >> 17; sd ^= sd << 5; return sd; } static int R(int n) { return (r32() >> 7) % n; }
#define O(x) (o & (unsigned) XRTM_OPTION_##x)
#define S(x) (XRTM_SOLVER_##x)
#define BAD(c) if (c) return #c
#define NOS(c, m) if ((c) && (s & (m))) return #c " / " #m
#define TWO(a, b) BAD(O(a) && O(b))
static unsigned implied(unsigned o, int ns, int early) { if (ns > 1) o |= (unsigned) XRTM_OPTION_VECTOR; if (O(N_T_TMS)) o |= XRTM_OPTION_DELTA_M; if (!O(FOUR_CONV_OLD) && !O(FOUR_CONV_NEW)) o |= XRTM_OPTION_FOUR_CONV_NEW; if (!O(PART_SOL_CLASSICAL) && !O(PART_SOL_GREENS)) o |= XRTM_OPTION_PART_SOL_CLASSICAL;
     if (!O(PHASE_SCALAR) && !O(PHASE_MATRIX_GC) && !O(PHASE_MATRIX_LC)) o |= O(VECTOR) ? XRTM_OPTION_PHASE_MATRIX_GC : XRTM_OPTION_PHASE_SCALAR; if (!O(QUAD_NORM_GAUS_LEG) && !O(QUAD_DOUB_GAUS_LEG) && !O(QUAD_LOBATTO)) o |= XRTM_OPTION_QUAD_DOUB_GAUS_LEG;
     if (!O(UPWELLING_OUTPUT) && !O(DOWNWELLING_OUTPUT)) o |= XRTM_OPTION_UPWELLING_OUTPUT | XRTM_OPTION_DOWNWELLING_OUTPUT; if (!early && O(PHASE_MATRIX_LC)) o |= XRTM_OPTION_SAVE_PHASE_MATS; return o; }
static const char *rule(unsigned o, int s, int nc, int nq, int ns, int nd, int nl, int nt, int nk, int nkq, int kv, int nv, int nu) {
     BAD(nc < 0); BAD(nq <= 0); BAD(ns <= 0 || ns > 4); BAD(nd < 0); BAD(nl <= 0); BAD(nt <= 0); BAD(nk < 0); BAD(nk > 0 && nkq <= 0); BAD(nk > 0 && !kv); BAD(nv <= 0); BAD(nu < 0); o = implied(o, ns, 1);
     TWO(N_T_TMS, NO_AZIMUTHAL); TWO(FOUR_CONV_OLD, FOUR_CONV_NEW); BAD(!O(OUTPUT_AT_LEVELS) && !O(OUTPUT_AT_TAUS)); TWO(OUTPUT_AT_LEVELS, OUTPUT_AT_TAUS); TWO(PART_SOL_CLASSICAL, PART_SOL_GREENS); TWO(PHASE_SCALAR, PHASE_MATRIX_GC); TWO(PHASE_SCALAR, PHASE_MATRIX_LC); TWO(PHASE_MATRIX_GC, PHASE_MATRIX_LC);
     TWO(QUAD_NORM_GAUS_LEG, QUAD_DOUB_GAUS_LEG); TWO(QUAD_NORM_GAUS_LEG, QUAD_LOBATTO); TWO(QUAD_DOUB_GAUS_LEG, QUAD_LOBATTO); TWO(SAVE_LAYER_R_T_S, STACK_REUSE_ADDING); BAD(O(STACK_REUSE_ADDING) && !O(CALC_DERIVS)); TWO(STACK_REUSE_ADDING, TOP_DOWN_ADDING); TWO(TOP_DOWN_ADDING, BOTTOM_UP_ADDING);
     BAD(!O(VECTOR) && (O(PHASE_MATRIX_GC) || O(PHASE_MATRIX_LC))); BAD(O(VECTOR) && !O(PHASE_MATRIX_GC) && !O(PHASE_MATRIX_LC));
     BAD(!O(CALC_DERIVS) && nd > 0); BAD(O(CALC_DERIVS) && nd == 0); BAD(O(DELTA_M) && nc < 2 * nq + 1); BAD(O(SFI) && nu == 0); BAD(O(TOP_DOWN_ADDING) && nv != 1); BAD(O(BOTTOM_UP_ADDING) && nv != 1); BAD(!O(VECTOR) && ns > 1);
     NOS(nq != 1, S(TWO_STREAM)); NOS(nq != 2, S(FOUR_STREAM)); NOS(nq != 3, S(SIX_STREAM)); NOS(nt != 1, 0x7fffffff & ~S(DOUB_ADD)); NOS(nv > 2, S(DOUB_ADD) | S(EIG_ADD) | S(PADE_ADD) | S(SOS) | S(TWO_OS)); NOS(nu > 0 && !O(SFI), S(TWO_STREAM) | S(FOUR_STREAM) | S(SIX_STREAM));
     NOS(O(DELTA_M) && !O(N_T_TMS), S(SINGLE)); NOS(O(N_T_TMS), S(TWO_OS)); NOS(O(NO_AZIMUTHAL), S(SINGLE)); NOS(O(OUTPUT_AT_TAUS), S(DOUB_ADD) | S(EIG_ADD) | S(PADE_ADD) | S(SOS)); NOS(O(QUAD_LOBATTO), 0x7fffffff); NOS(O(SFI), S(DOUB_ADD) | S(EIG_ADD) | S(MEM_BVP) | S(PADE_ADD) | S(SOS));
     NOS(!O(SOURCE_SOLAR), S(MEM_BVP) | S(SINGLE) | S(SOS) | S(TWO_OS)); NOS(O(SOURCE_THERMAL), S(FOUR_STREAM) | S(MEM_BVP) | S(SINGLE) | S(SIX_STREAM) | S(SOS) | S(TWO_OS) | S(TWO_STREAM));
     NOS(O(STACK_REUSE_ADDING) || O(TOP_DOWN_ADDING) || O(BOTTOM_UP_ADDING), S(EIG_BVP) | S(MEM_BVP) | S(SINGLE) | S(SOS) | S(TWO_OS)); return NULL; }
int main() { static int so[] = {S(DOUB_ADD), S(EIG_ADD), S(EIG_BVP), S(MEM_BVP), S(PADE_ADD), S(SINGLE), S(SOS), S(TWO_OS), S(TWO_STREAM), S(FOUR_STREAM), S(SIX_STREAM)}; int n, i, acc = 0; static xrtm_data d; if (!freopen("/dev/null", "w", stderr)) return 0;
     for (n = 0; n < 3000000 && acc < 60000; n++) { unsigned o = 0, b; int s = 0, nc, nq = 1 + R(3), ns = R(3) ? 1 : 1 + R(4), nd, nl = 1 + R(3), nt = R(20) ? 1 : 2, nk = R(3), nkq = 1 + R(3), nv = 1 + R(3), nu = R(3), kv = 1; enum xrtm_kernel_type K[4]; const char *why; int rc;
          for (i = 0; i < 32; i++) if (!R(6)) o |= 1u << i; o |= R(8) ? R(3) ? XRTM_OPTION_OUTPUT_AT_LEVELS : XRTM_OPTION_OUTPUT_AT_TAUS : 0; if (R(4)) o |= XRTM_OPTION_SOURCE_SOLAR; if (R(3)) o &= ~(unsigned) (XRTM_OPTION_FOUR_CONV_OLD | XRTM_OPTION_PART_SOL_GREENS | XRTM_OPTION_PHASE_SCALAR | XRTM_OPTION_PHASE_MATRIX_LC | XRTM_OPTION_QUAD_LOBATTO | XRTM_OPTION_STACK_REUSE_ADDING | XRTM_OPTION_BOTTOM_UP_ADDING | XRTM_OPTION_TOP_DOWN_ADDING | XRTM_OPTION_SFI);
          if (R(4)) { nd = O(CALC_DERIVS) ? 1 + R(2) : 0; if (ns == 1) o &= ~(unsigned) (XRTM_OPTION_VECTOR | XRTM_OPTION_PHASE_MATRIX_GC); } else nd = R(3); nc = R(3) ? 2 * nq + 1 + R(2) : R(9); for (i = R(6) ? 1 : 3; i > 0; i--) s |= so[R(11)]; if (R(2)) nv = 1 + R(2);
          if (!R(12)) switch (R(10)) { case 0: nc = -1; break; case 1: nq = 0; break; case 2: ns = R(2) ? 0 : 5; break; case 3: nd = -1; break; case 4: nl = 0; break; case 5: nt = 0; break; case 6: nk = -1; break; case 7: nkq = 0; break; case 8: nv = 0; break; case 9: nu = -1; }
          for (i = 0; i < 4; i++) K[i] = R(3) ? XRTM_KERNEL_LAMBERTIAN : R(10); if (!R(30)) { i = R(3); K[i] = R(2) ? -1 : 77; if (i < nk) kv = 0; } if (O(PHASE_MATRIX_LC)) o &= ~(unsigned) XRTM_OPTION_PHASE_MATRIX_LC;
          why = rule(o, s, nc, nq, ns, nd, nl, nt, nk, nkq, kv, nv, nu); rc = xrtm_create(&d, o, s, nc, nq, ns, nd, nl, nt, nk, nkq, K, nv, nu);
          if ((rc == 0) != !why) { printf("xrtm_create(options %#x, solvers %#x, max_coef %d, n_quad %d, n_stokes %d, n_derivs %d, n_layers %d, n_theta_0s %d, n_kernels %d, n_kernel_quad %d, n_out_levels %d, n_out_thetas %d) returns %d, expected %s%s\n", o, s, nc, nq, ns, nd, nl, nt, nk, nkq, nv, nu, rc, why ? "an error: " : "0", why ? why : ""); return 1; }
          if (rc) continue; acc++; if ((unsigned) xrtm_get_options(&d) != implied(o, ns, 0)) { printf("options %#x with n_stokes %d are recorded as %#x, expected %#x\n", o, ns, xrtm_get_options(&d), implied(o, ns, 0)); return 1; }
          if (xrtm_get_solvers(&d) != s || xrtm_get_max_coef(&d) != nc || xrtm_get_n_quad(&d) != nq || xrtm_get_n_stokes(&d) != ns || xrtm_get_n_derivs(&d) != nd || xrtm_get_n_layers(&d) != nl || xrtm_get_n_kernels(&d) != nk || xrtm_get_n_out_levels(&d) != nv || xrtm_get_n_out_thetas(&d) != nu || xrtm_get_n_elem(&d) != (ns == 1 ? 1 : 6)) { printf("options %#x: a dimension is recorded differently\n", o); return 1; }
          for (i = 0; i < nk; i++) if (xrtm_get_kernel(&d, i) != K[i]) { printf("kernel %d is recorded differently\n", i); return 1; }
          xrtm_destroy(&d); } 
     if (getenv("TELL")) printf("%d\n", acc); if (acc < 300) printf("only %d accepted\n", acc); return 0; }
