R = open('/verif/replay/C10.c').read()
def seed(id, needs, breaks, *edits): return dict(id=id, prop='C10', needs=needs, breaks=breaks, demo=R, edits=list(edits))
A = 'misc/gutil_alloc.c'; G = 'misc/galloc.h'
SEEDS = [
seed('c10-init-rank5', 'initialising an array of five dimensions whose last two extents differ', 'the last two extents are exchanged on the way to the rows',
 (G, "XCAT(init_array4_, postfix_)(a[i], n, o, p, q, x);", "XCAT(init_array4_, postfix_)(a[i], n, o, q, p, x);")),
seed('c10-realloc-tables', 'reallocating an array of two or more dimensions to a larger first extent', 'the index tables are those of the block before it moved',
 (A, "     if (a2 && rank > 1)\n          ptr_array_assign((void **) a2, (void **) a2, rank, dimen, size, index, 0);", "     if (a2 && a2 != a1 && rank > 1)\n          ptr_array_assign((void **) a2, (void **) a2, rank, dimen, size, index, 0);")),
seed('c10-rank8-levels', 'an array of eight dimensions', 'the tables of the last level are filled with the size of a pointer as element size',
 (A, "     if (depth == rank_m_2)\n          size2 = size;", "     if (depth == rank_m_2 && depth < MAX_DIMENS - 2)\n          size2 = size;")),
seed('c10-own-memory', 'array_from_mem() with the tables in the memory of the caller', 'the elements start behind where the tables of elements of size one would end',
 (A, "          a2 = (uchar *) a2 + length;", "          a2 = (uchar *) a2 + length + dimen[0] % 2;")),
seed('c10-zero-copy', 'copying an array of six dimensions whose third extent is larger than the second', 'rows of the third dimension beyond the second extent are not copied',
 (G, "XCAT(copy_array5_, postfix_)(a2[i], a1[i], n, o, p, q, r);", "XCAT(copy_array5_, postfix_)(a2[i], a1[i], n, n < o ? n : o, p, q, r);")),
]
