R = open('/verif/replay/C09.c').read()
def seed(id, needs, breaks, *edits): return dict(id=id, prop='C09', needs=needs, breaks=breaks, demo=R, edits=[('src/xrtm_work.c',) + e for e in edits])
SEEDS = [
seed('c09-page-reuse', 'two nested scopes one after the other, the second asking for a region larger than the page the first one moved to', 'a page already acquired is used for regions longer than it is',
 ("          if (length > work->w->n_bytes[work->i_page]) {\n               work->w->n_bytes[work->i_page] = MAX(work->w->min_page_size, length);\n\n               free", "          if (work->w->n_bytes[work->i_page] == 0 || (length > work->w->n_bytes[work->i_page] && work->i_page < 2)) {\n               work->w->n_bytes[work->i_page] = MAX(work->w->min_page_size, length);\n\n               free")),
seed('c09-list-room', 'tables of more than a thousand buffers at once (layers x derivatives)', 'a list of buffers grows by one step where several are needed',
 ("          *n += ((i - *n + 1) / WORK_LIST_INC + 1) * WORK_LIST_INC;", "          *n += WORK_LIST_INC;")),
seed('c09-dux-tables', 'tables of buffers of user angles by quadrature angles for layers and derivatives, more quadrature than user angles', 'the buffers are made with the number of user angles for both extents',
 ("               return get_work_matrices2(i, n, max, &(work->i_list[WORK_DUX]),     &(w->n_list[WORK_DUX]),     &(w->max_list[WORK_DUX]),     (void **(*)(long, long)) alloc_array2_d,  ll1, ll2, w->n_umus_v, w->n_quad_v_x,", "               return get_work_matrices2(i, n, max, &(work->i_list[WORK_DUX]),     &(w->n_list[WORK_DUX]),     &(w->max_list[WORK_DUX]),     (void **(*)(long, long)) alloc_array2_d,  ll1, ll2, w->n_umus_v, w->n_umus_v,")),
seed('c09-x4-tables', 'matrices for layers and derivatives from the pages', 'the region asked for leaves no room for the index table of the matrix',
 ("     length = array_mem_length2(o, p, size);\n\n     for (i = 0; i < m; ++i) {\n          for (j = 0; j < n; ++j) {", "     length = array_mem_length1(o * p, size);\n\n     for (i = 0; i < m; ++i) {\n          for (j = 0; j < n; ++j) {")),
seed('c09-count-new', 'a table of matrices for layers and derivatives asked for after a scope that ended had left unused matrices in the list, and another matrix afterwards', 'the number of matrices in the list is counted too high, entries never made are handed out',
 ("""                    if (! flags || flags[i][j]) {""", """                    if (flags[i][j]) {"""),
 ("""          for (i = *n2; i < *iq2 + count; ++i) {
               (*data2)[i] = alloc_matrix_x(mm, nn);
               if (! (*data2)[i]) {
                    fprintf(stderr, "ERROR: memory allocation failed\\n");
                    exit(1);
               }
          }

          *n2 = *iq2 + count;
     }

     if (! flags) {
          for (i = 0; i < ll1; ++i) {""", """          for (i = *n2; i < *iq2 + count; ++i) {
               (*data2)[i] = alloc_matrix_x(mm, nn);
               if (! (*data2)[i]) {
                    fprintf(stderr, "ERROR: memory allocation failed\\n");
                    exit(1);
               }
          }

          *n2 += count;
     }

     if (! flags) {
          for (i = 0; i < ll1; ++i) {""")),
]
