import os; exec(open(os.path.join(os.path.dirname(spec), 'common.py')).read())
G = 'misc/gindex_name_value.c'
SEEDS = [
dict(id='c04-kernel-names', prop='C04', needs='looking up the name of one of two neighbouring kernels', breaks='the names of two kernels are exchanged',
 edits=[('src/xrtm_brdf.c', '     "li_sparse",\n     "li_dense",\n', '     "li_dense",\n     "li_sparse",\n')],
 demo=HDR + r'''
#include <xrtm_brdf.h>
int main() { int r = 0; if (strcmp(xrtm_kernel_value_to_name(XRTM_KERNEL_LI_DENSE), "li_dense")) r = 1; if (xrtm_kernel_name_to_value("li_sparse") != XRTM_KERNEL_LI_SPARSE) r = 1; if (r) printf("kernel names exchanged\n"); return r; }'''),
dict(id='c04-mask-table', prop='C04', needs='converting a solver code to its name, which uses the code table only',
 breaks='two solver codes are exchanged in the code table, so a name gives the code of another solver',
 edits=[(I, '     XRTM_SOLVER_SOS,\n     XRTM_SOLVER_TWO_OS,\n     XRTM_SOLVER_TWO_STREAM,\n#ifdef', '     XRTM_SOLVER_TWO_OS,\n     XRTM_SOLVER_SOS,\n     XRTM_SOLVER_TWO_STREAM,\n#ifdef')],
 demo=HDR + r'''
int main() { int r = 0; if (xrtm_solver_name_to_mask("sos") != XRTM_SOLVER_SOS) r = 1; if (strcmp(xrtm_solver_mask_to_name(XRTM_SOLVER_TWO_OS), "two_os")) r = 1; if (r) printf("solver codes exchanged\n"); return r; }'''),
dict(id='c04-prefix', prop='C04', needs='a name that continues the name of a table entry', breaks='a name is accepted when only its beginning is that of an entry',
 edits=[(G, '''          if (strcmp(names[i], name) == 0) {
               return i;''', '''          if (strncmp(names[i], name, strlen(names[i])) == 0) {
               return i;''')],
 demo=HDR + r'''
int main() { int r = 0, i; if (xrtm_option_name_to_index("psa_extended") != -1) r = 1; for (i = 0; i < xrtm_option_n(); i++) if (xrtm_option_name_to_index(xrtm_option_index_to_name(i)) != i) r = 1; if (r) printf("unknown name accepted\n"); return r; }'''),
dict(id='c04-value-bound', prop='C04', needs='the last index of a table', breaks='the last entry of a table has no code',
 edits=[(G, '''     if (index < 0 || index >= n) {
/*
          fprintf(stderr, "ERROR: invalid %s index: %d\\n", desc, index);
*/
          return -1;''', '''     if (index < 0 || index >= n - 1) {
/*
          fprintf(stderr, "ERROR: invalid %s index: %d\\n", desc, index);
*/
          return -1;''')],
 demo=HDR + r'''
int main() { int n = xrtm_option_n(); if (xrtm_option_index_to_mask(n - 1) != xrtm_option_name_to_mask(xrtm_option_index_to_name(n - 1))) { printf("last option has no code\n"); return 1; } return 0; }'''),
]
