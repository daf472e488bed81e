/* Contracts of the comparison functions (misc/gutil_cmp.c): every pair of values (NaN excluded: it has no order); arrays bounded to 4 elements. */
#include "gutil.h"
long nondet_l(void);
uchar nondet_uc_(void);
int cmp_uc(uchar, uchar); int cmp_p_uc(uchar *, uchar *); int cmp_n_uc(uchar *, uchar *, long); int cmp_dec_uc(uchar, uchar); int cmp_dec_p_uc(uchar *, uchar *); int cmp_dec_n_uc(uchar *, uchar *, long);
void h_uc(void) { uchar a = nondet_uc_(), b = nondet_uc_(); int w = a < b ? -1 : a > b ? 1 : 0;
     __CPROVER_assert(cmp_uc(a, b) == w, "cmp_uc: order");
     __CPROVER_assert(cmp_p_uc(&a, &b) == w, "cmp_p_uc: order");
     __CPROVER_assert(cmp_dec_uc(a, b) == -w, "cmp_dec_uc: order");
     __CPROVER_assert(cmp_dec_p_uc(&a, &b) == -w, "cmp_dec_p_uc: order");
}
void b_uc(void) { uchar a[4], b[4]; long n = nondet_l(); int i, w = 0; __CPROVER_assume(0 <= n && n <= 4); for (i = 0; i < 4; ++i) { }
     for (i = 0; i < n && ! w; ++i) w = a[i] < b[i] ? -1 : a[i] > b[i] ? 1 : 0;
     __CPROVER_assert(cmp_n_uc(a, b, n) == w, "cmp_n_uc: lexicographic order"); __CPROVER_assert(cmp_dec_n_uc(a, b, n) == -w, "cmp_dec_n_uc: reversed lexicographic order"); }
char nondet_c_(void);
int cmp_c(char, char); int cmp_p_c(char *, char *); int cmp_n_c(char *, char *, long); int cmp_dec_c(char, char); int cmp_dec_p_c(char *, char *); int cmp_dec_n_c(char *, char *, long);
void h_c(void) { char a = nondet_c_(), b = nondet_c_(); int w = a < b ? -1 : a > b ? 1 : 0;
     __CPROVER_assert(cmp_c(a, b) == w, "cmp_c: order");
     __CPROVER_assert(cmp_p_c(&a, &b) == w, "cmp_p_c: order");
     __CPROVER_assert(cmp_dec_c(a, b) == -w, "cmp_dec_c: order");
     __CPROVER_assert(cmp_dec_p_c(&a, &b) == -w, "cmp_dec_p_c: order");
}
void b_c(void) { char a[4], b[4]; long n = nondet_l(); int i, w = 0; __CPROVER_assume(0 <= n && n <= 4); for (i = 0; i < 4; ++i) { }
     for (i = 0; i < n && ! w; ++i) w = a[i] < b[i] ? -1 : a[i] > b[i] ? 1 : 0;
     __CPROVER_assert(cmp_n_c(a, b, n) == w, "cmp_n_c: lexicographic order"); __CPROVER_assert(cmp_dec_n_c(a, b, n) == -w, "cmp_dec_n_c: reversed lexicographic order"); }
ushort nondet_us_(void);
int cmp_us(ushort, ushort); int cmp_p_us(ushort *, ushort *); int cmp_n_us(ushort *, ushort *, long); int cmp_dec_us(ushort, ushort); int cmp_dec_p_us(ushort *, ushort *); int cmp_dec_n_us(ushort *, ushort *, long);
void h_us(void) { ushort a = nondet_us_(), b = nondet_us_(); int w = a < b ? -1 : a > b ? 1 : 0;
     __CPROVER_assert(cmp_us(a, b) == w, "cmp_us: order");
     __CPROVER_assert(cmp_p_us(&a, &b) == w, "cmp_p_us: order");
     __CPROVER_assert(cmp_dec_us(a, b) == -w, "cmp_dec_us: order");
     __CPROVER_assert(cmp_dec_p_us(&a, &b) == -w, "cmp_dec_p_us: order");
}
void b_us(void) { ushort a[4], b[4]; long n = nondet_l(); int i, w = 0; __CPROVER_assume(0 <= n && n <= 4); for (i = 0; i < 4; ++i) { }
     for (i = 0; i < n && ! w; ++i) w = a[i] < b[i] ? -1 : a[i] > b[i] ? 1 : 0;
     __CPROVER_assert(cmp_n_us(a, b, n) == w, "cmp_n_us: lexicographic order"); __CPROVER_assert(cmp_dec_n_us(a, b, n) == -w, "cmp_dec_n_us: reversed lexicographic order"); }
short nondet_s_(void);
int cmp_s(short, short); int cmp_p_s(short *, short *); int cmp_n_s(short *, short *, long); int cmp_dec_s(short, short); int cmp_dec_p_s(short *, short *); int cmp_dec_n_s(short *, short *, long);
void h_s(void) { short a = nondet_s_(), b = nondet_s_(); int w = a < b ? -1 : a > b ? 1 : 0;
     __CPROVER_assert(cmp_s(a, b) == w, "cmp_s: order");
     __CPROVER_assert(cmp_p_s(&a, &b) == w, "cmp_p_s: order");
     __CPROVER_assert(cmp_dec_s(a, b) == -w, "cmp_dec_s: order");
     __CPROVER_assert(cmp_dec_p_s(&a, &b) == -w, "cmp_dec_p_s: order");
}
void b_s(void) { short a[4], b[4]; long n = nondet_l(); int i, w = 0; __CPROVER_assume(0 <= n && n <= 4); for (i = 0; i < 4; ++i) { }
     for (i = 0; i < n && ! w; ++i) w = a[i] < b[i] ? -1 : a[i] > b[i] ? 1 : 0;
     __CPROVER_assert(cmp_n_s(a, b, n) == w, "cmp_n_s: lexicographic order"); __CPROVER_assert(cmp_dec_n_s(a, b, n) == -w, "cmp_dec_n_s: reversed lexicographic order"); }
uint nondet_ui_(void);
int cmp_ui(uint, uint); int cmp_p_ui(uint *, uint *); int cmp_n_ui(uint *, uint *, long); int cmp_dec_ui(uint, uint); int cmp_dec_p_ui(uint *, uint *); int cmp_dec_n_ui(uint *, uint *, long);
void h_ui(void) { uint a = nondet_ui_(), b = nondet_ui_(); int w = a < b ? -1 : a > b ? 1 : 0;
     __CPROVER_assert(cmp_ui(a, b) == w, "cmp_ui: order");
     __CPROVER_assert(cmp_p_ui(&a, &b) == w, "cmp_p_ui: order");
     __CPROVER_assert(cmp_dec_ui(a, b) == -w, "cmp_dec_ui: order");
     __CPROVER_assert(cmp_dec_p_ui(&a, &b) == -w, "cmp_dec_p_ui: order");
}
void b_ui(void) { uint a[4], b[4]; long n = nondet_l(); int i, w = 0; __CPROVER_assume(0 <= n && n <= 4); for (i = 0; i < 4; ++i) { }
     for (i = 0; i < n && ! w; ++i) w = a[i] < b[i] ? -1 : a[i] > b[i] ? 1 : 0;
     __CPROVER_assert(cmp_n_ui(a, b, n) == w, "cmp_n_ui: lexicographic order"); __CPROVER_assert(cmp_dec_n_ui(a, b, n) == -w, "cmp_dec_n_ui: reversed lexicographic order"); }
int nondet_i_(void);
int cmp_i(int, int); int cmp_p_i(int *, int *); int cmp_n_i(int *, int *, long); int cmp_dec_i(int, int); int cmp_dec_p_i(int *, int *); int cmp_dec_n_i(int *, int *, long);
void h_i(void) { int a = nondet_i_(), b = nondet_i_(); int w = a < b ? -1 : a > b ? 1 : 0;
     __CPROVER_assert(cmp_i(a, b) == w, "cmp_i: order");
     __CPROVER_assert(cmp_p_i(&a, &b) == w, "cmp_p_i: order");
     __CPROVER_assert(cmp_dec_i(a, b) == -w, "cmp_dec_i: order");
     __CPROVER_assert(cmp_dec_p_i(&a, &b) == -w, "cmp_dec_p_i: order");
}
void b_i(void) { int a[4], b[4]; long n = nondet_l(); int i, w = 0; __CPROVER_assume(0 <= n && n <= 4); for (i = 0; i < 4; ++i) { }
     for (i = 0; i < n && ! w; ++i) w = a[i] < b[i] ? -1 : a[i] > b[i] ? 1 : 0;
     __CPROVER_assert(cmp_n_i(a, b, n) == w, "cmp_n_i: lexicographic order"); __CPROVER_assert(cmp_dec_n_i(a, b, n) == -w, "cmp_dec_n_i: reversed lexicographic order"); }
ulong nondet_ul_(void);
int cmp_ul(ulong, ulong); int cmp_p_ul(ulong *, ulong *); int cmp_n_ul(ulong *, ulong *, long); int cmp_dec_ul(ulong, ulong); int cmp_dec_p_ul(ulong *, ulong *); int cmp_dec_n_ul(ulong *, ulong *, long);
void h_ul(void) { ulong a = nondet_ul_(), b = nondet_ul_(); int w = a < b ? -1 : a > b ? 1 : 0;
     __CPROVER_assert(cmp_ul(a, b) == w, "cmp_ul: order");
     __CPROVER_assert(cmp_p_ul(&a, &b) == w, "cmp_p_ul: order");
     __CPROVER_assert(cmp_dec_ul(a, b) == -w, "cmp_dec_ul: order");
     __CPROVER_assert(cmp_dec_p_ul(&a, &b) == -w, "cmp_dec_p_ul: order");
}
void b_ul(void) { ulong a[4], b[4]; long n = nondet_l(); int i, w = 0; __CPROVER_assume(0 <= n && n <= 4); for (i = 0; i < 4; ++i) { }
     for (i = 0; i < n && ! w; ++i) w = a[i] < b[i] ? -1 : a[i] > b[i] ? 1 : 0;
     __CPROVER_assert(cmp_n_ul(a, b, n) == w, "cmp_n_ul: lexicographic order"); __CPROVER_assert(cmp_dec_n_ul(a, b, n) == -w, "cmp_dec_n_ul: reversed lexicographic order"); }
long nondet_l_(void);
int cmp_l(long, long); int cmp_p_l(long *, long *); int cmp_n_l(long *, long *, long); int cmp_dec_l(long, long); int cmp_dec_p_l(long *, long *); int cmp_dec_n_l(long *, long *, long);
void h_l(void) { long a = nondet_l_(), b = nondet_l_(); int w = a < b ? -1 : a > b ? 1 : 0;
     __CPROVER_assert(cmp_l(a, b) == w, "cmp_l: order");
     __CPROVER_assert(cmp_p_l(&a, &b) == w, "cmp_p_l: order");
     __CPROVER_assert(cmp_dec_l(a, b) == -w, "cmp_dec_l: order");
     __CPROVER_assert(cmp_dec_p_l(&a, &b) == -w, "cmp_dec_p_l: order");
}
void b_l(void) { long a[4], b[4]; long n = nondet_l(); int i, w = 0; __CPROVER_assume(0 <= n && n <= 4); for (i = 0; i < 4; ++i) { }
     for (i = 0; i < n && ! w; ++i) w = a[i] < b[i] ? -1 : a[i] > b[i] ? 1 : 0;
     __CPROVER_assert(cmp_n_l(a, b, n) == w, "cmp_n_l: lexicographic order"); __CPROVER_assert(cmp_dec_n_l(a, b, n) == -w, "cmp_dec_n_l: reversed lexicographic order"); }
uint64_t nondet_ull_(void);
int cmp_ull(uint64_t, uint64_t); int cmp_p_ull(uint64_t *, uint64_t *); int cmp_n_ull(uint64_t *, uint64_t *, long); int cmp_dec_ull(uint64_t, uint64_t); int cmp_dec_p_ull(uint64_t *, uint64_t *); int cmp_dec_n_ull(uint64_t *, uint64_t *, long);
void h_ull(void) { uint64_t a = nondet_ull_(), b = nondet_ull_(); int w = a < b ? -1 : a > b ? 1 : 0;
     __CPROVER_assert(cmp_ull(a, b) == w, "cmp_ull: order");
     __CPROVER_assert(cmp_p_ull(&a, &b) == w, "cmp_p_ull: order");
     __CPROVER_assert(cmp_dec_ull(a, b) == -w, "cmp_dec_ull: order");
     __CPROVER_assert(cmp_dec_p_ull(&a, &b) == -w, "cmp_dec_p_ull: order");
}
void b_ull(void) { uint64_t a[4], b[4]; long n = nondet_l(); int i, w = 0; __CPROVER_assume(0 <= n && n <= 4); for (i = 0; i < 4; ++i) { }
     for (i = 0; i < n && ! w; ++i) w = a[i] < b[i] ? -1 : a[i] > b[i] ? 1 : 0;
     __CPROVER_assert(cmp_n_ull(a, b, n) == w, "cmp_n_ull: lexicographic order"); __CPROVER_assert(cmp_dec_n_ull(a, b, n) == -w, "cmp_dec_n_ull: reversed lexicographic order"); }
int64_t nondet_ll_(void);
int cmp_ll(int64_t, int64_t); int cmp_p_ll(int64_t *, int64_t *); int cmp_n_ll(int64_t *, int64_t *, long); int cmp_dec_ll(int64_t, int64_t); int cmp_dec_p_ll(int64_t *, int64_t *); int cmp_dec_n_ll(int64_t *, int64_t *, long);
void h_ll(void) { int64_t a = nondet_ll_(), b = nondet_ll_(); int w = a < b ? -1 : a > b ? 1 : 0;
     __CPROVER_assert(cmp_ll(a, b) == w, "cmp_ll: order");
     __CPROVER_assert(cmp_p_ll(&a, &b) == w, "cmp_p_ll: order");
     __CPROVER_assert(cmp_dec_ll(a, b) == -w, "cmp_dec_ll: order");
     __CPROVER_assert(cmp_dec_p_ll(&a, &b) == -w, "cmp_dec_p_ll: order");
}
void b_ll(void) { int64_t a[4], b[4]; long n = nondet_l(); int i, w = 0; __CPROVER_assume(0 <= n && n <= 4); for (i = 0; i < 4; ++i) { }
     for (i = 0; i < n && ! w; ++i) w = a[i] < b[i] ? -1 : a[i] > b[i] ? 1 : 0;
     __CPROVER_assert(cmp_n_ll(a, b, n) == w, "cmp_n_ll: lexicographic order"); __CPROVER_assert(cmp_dec_n_ll(a, b, n) == -w, "cmp_dec_n_ll: reversed lexicographic order"); }
float nondet_f_(void);
int cmp_f(float, float); int cmp_p_f(float *, float *); int cmp_n_f(float *, float *, long); int cmp_dec_f(float, float); int cmp_dec_p_f(float *, float *); int cmp_dec_n_f(float *, float *, long);
void h_f(void) { float a = nondet_f_(), b = nondet_f_(); __CPROVER_assume(a == a && b == b); int w = a < b ? -1 : a > b ? 1 : 0;
     __CPROVER_assert(cmp_f(a, b) == w, "cmp_f: order");
     __CPROVER_assert(cmp_p_f(&a, &b) == w, "cmp_p_f: order");
     __CPROVER_assert(cmp_dec_f(a, b) == -w, "cmp_dec_f: order");
     __CPROVER_assert(cmp_dec_p_f(&a, &b) == -w, "cmp_dec_p_f: order");
}
void b_f(void) { float a[4], b[4]; long n = nondet_l(); int i, w = 0; __CPROVER_assume(0 <= n && n <= 4); for (i = 0; i < 4; ++i) { __CPROVER_assume(a[i] == a[i] && b[i] == b[i]); }
     for (i = 0; i < n && ! w; ++i) w = a[i] < b[i] ? -1 : a[i] > b[i] ? 1 : 0;
     __CPROVER_assert(cmp_n_f(a, b, n) == w, "cmp_n_f: lexicographic order"); __CPROVER_assert(cmp_dec_n_f(a, b, n) == -w, "cmp_dec_n_f: reversed lexicographic order"); }
double nondet_d_(void);
int cmp_d(double, double); int cmp_p_d(double *, double *); int cmp_n_d(double *, double *, long); int cmp_dec_d(double, double); int cmp_dec_p_d(double *, double *); int cmp_dec_n_d(double *, double *, long);
void h_d(void) { double a = nondet_d_(), b = nondet_d_(); __CPROVER_assume(a == a && b == b); int w = a < b ? -1 : a > b ? 1 : 0;
     __CPROVER_assert(cmp_d(a, b) == w, "cmp_d: order");
     __CPROVER_assert(cmp_p_d(&a, &b) == w, "cmp_p_d: order");
     __CPROVER_assert(cmp_dec_d(a, b) == -w, "cmp_dec_d: order");
     __CPROVER_assert(cmp_dec_p_d(&a, &b) == -w, "cmp_dec_p_d: order");
}
void b_d(void) { double a[4], b[4]; long n = nondet_l(); int i, w = 0; __CPROVER_assume(0 <= n && n <= 4); for (i = 0; i < 4; ++i) { __CPROVER_assume(a[i] == a[i] && b[i] == b[i]); }
     for (i = 0; i < n && ! w; ++i) w = a[i] < b[i] ? -1 : a[i] > b[i] ? 1 : 0;
     __CPROVER_assert(cmp_n_d(a, b, n) == w, "cmp_n_d: lexicographic order"); __CPROVER_assert(cmp_dec_n_d(a, b, n) == -w, "cmp_dec_n_d: reversed lexicographic order"); }
