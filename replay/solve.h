/* a solve of the shadowed handle; which inputs a configuration requires */
#ifndef STAT
#define STAT static
#endif
static int complete(sh_t *s) { int i, k, all = 1;
#define NEED(f, c) if ((c) && !s->set[f]) all = 0
     NEED(s_doub, sol(XRTM_SOLVER_DOUB_ADD)); NEED(s_pade, sol(XRTM_SOLVER_PADE_ADD)); NEED(s_sos, sol(XRTM_SOLVER_SOS)); NEED(s_four, 1); NEED(s_pr, has(XRTM_OPTION_PSA)); NEED(s_z, has(XRTM_OPTION_PSA)); NEED(s_lev, has(XRTM_OPTION_OUTPUT_AT_LEVELS)); NEED(s_taus, has(XRTM_OPTION_OUTPUT_AT_TAUS));
     NEED(s_oth, NU); NEED(s_ft, 1); NEED(s_fb, 1); NEED(s_F0, has(XRTM_OPTION_SOURCE_SOLAR)); NEED(s_th, has(XRTM_OPTION_SOURCE_SOLAR)); NEED(s_phi, has(XRTM_OPTION_SOURCE_SOLAR)); NEED(s_b, has(XRTM_OPTION_SOURCE_THERMAL)); NEED(s_sb, has(XRTM_OPTION_SOURCE_THERMAL));
     for (i = 0; i < NL; i++) if (!s->so[i] || !s->st[i] || !s->sc[i]) all = 0; for (i = 0; i < NK; i++) { if (!s->ska[i]) all = 0; for (k = 0; k < kernel_n_params(KT[i]); k++) if (!s->skp[i][k]) all = 0; }
     return all; }
/* give every input that is not set yet a value */
static int fill(xrtm_data *d, sh_t *s) { int n; for (n = 0; n < 20000; n++) { if (complete(s)) return 0; if (valid(d, s)) return 1; } return 1; }
#define NPH 2
#define FLEN 4000
typedef struct { int rc, n; double v[FLEN]; } res_t;
static double phis[NPH] = {20., 140.};
static void solve(xrtm_data *d, int solver, int what, res_t *r) { int i, j, k, l, m, nu = NU ? NU : 2, n = 0; STAT double A[2][MV][4][NPH][4], B[2][MV][ND][4][NPH][4], M[3][2][MV], MD[3][2][MV][ND], FD[MV], FDD[MV][ND];
     double ***I[2][MV + 1], ****Il[2][MV + 1], *ph[4], *pp[4]; double **L3[2][MV][8], *L2[2][MV][8][8], ***D4[2][MV][ND], **D3[2][MV][ND][8], *D2[2][MV][ND][8][8], *md[3][2][MV], *fdd[MV]; r->n = 0;
     memset(A, 0, sizeof(A)); memset(B, 0, sizeof(B)); memset(M, 0, sizeof(M)); memset(MD, 0, sizeof(MD)); memset(FD, 0, sizeof(FD)); memset(FDD, 0, sizeof(FDD));
     for (i = 0; i < 4; i++) pp[i] = phis;
     for (m = 0; m < 2; m++) for (i = 0; i < NV; i++) { I[m][i] = L3[m][i]; Il[m][i] = D4[m][i]; for (j = 0; j < nu; j++) { L3[m][i][j] = L2[m][i][j]; for (k = 0; k < NPH; k++) L2[m][i][j][k] = A[m][i][j][k]; }
       for (l = 0; l < NDD; l++) { D4[m][i][l] = D3[m][i][l]; for (j = 0; j < nu; j++) { D3[m][i][l][j] = D2[m][i][l][j]; for (k = 0; k < NPH; k++) D2[m][i][l][j][k] = B[m][i][l][j][k]; } }
       for (l = 0; l < 3; l++) md[l][m][i] = MD[l][m][i]; fdd[i] = FDD[i]; }
     r->rc = xrtm_solution(d, solver, what, NPH, pp, I[0], I[1], NDD ? Il[0] : NULL, NDD ? Il[1] : NULL, M[0][0], M[0][1], NDD ? md[0][0] : NULL, NDD ? md[0][1] : NULL, M[1][0], M[1][1], NDD ? md[1][0] : NULL, NDD ? md[1][1] : NULL, FD, NDD ? fdd : NULL);
     memcpy(r->v + n, A, sizeof(A)); n += sizeof(A) / 8; memcpy(r->v + n, M, sizeof(M)); n += sizeof(M) / 8; if (NDD) { memcpy(r->v + n, B, sizeof(B)); n += sizeof(B) / 8; memcpy(r->v + n, MD, sizeof(MD)); n += sizeof(MD) / 8; } r->n = n; }
