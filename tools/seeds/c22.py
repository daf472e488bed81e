import os
H_ = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(spec))))
BODY = open(H_ + '/replay/C22.c').read()
L, S, C = 'misc/gstruct_dclist.h', 'misc/gutil_sort.c', 'misc/gutil_cmp.c'
X = open('/repo/' + L).read(); Y = open('/repo/' + S).read(); Z = open('/repo/' + C).read()
def part(x, a, b):
    i = x.index(a); return x[i:x.index(b, i) + len(b)]
rm = part(X, 'dcelem *dclist_remove(dclist *list, dcelem *pos) {', 'return pos;')
ins = part(X, 'dcelem *dclist_insert(dclist *list, dcelem *pos, GSTRUCT_TYPE value) {', 'return tmp;')
isc = part(X, 'dcelem *dclist_insert_sort_comp(dclist *list, GSTRUCT_TYPE value) {', 'while (pos->next != list->first);')
ii = part(Y, 'void insertion_sort_index(', 'index[j] = temp;')
qp = part(Y, 'void q_sort_pointer(', 'break;')
dp = part(Z, '#define cmp_dec_p_frame(postfix_, type_)', 'return 0;')
def e(x, a, b):
    assert x.count(a) == 1, (x.count(a), a); return (x, x.replace(a, b))
SEEDS = [
dict(id='c22-remove-first', prop='C22', needs='removing the first element of a list of at least two elements', breaks='the list still starts at the removed element', edits=[(L,) + e(rm, 'list->first = pos->next;', 'list->first = pos;')], demo=BODY),
dict(id='c22-insert-back-link', prop='C22', needs='inserting in the middle or at the end of a list and walking it backwards afterwards', breaks='the element after the inserted one still points back past it', edits=[(L,) + e(ins, 'tmp->next->prev = tmp;', 'tmp->next->prev = pos;')], demo=BODY),
dict(id='c22-sorted-insert-equal', prop='C22', needs='sorted insertion of a value equal to one already in the list, with a larger one behind', breaks='equal values are not kept in the order of insertion', edits=[(L,) + e(isc, 'if (list->comp(POINTER(value), POINTER(pos->next->value)) < 0)', 'if (list->comp(POINTER(value), POINTER(pos->next->value)) <= 0)')], demo=BODY),
dict(id='c22-index-sort-front', prop='C22', needs='sorting by index an array whose smallest element is not among the first two', breaks='the sort never moves an element before the first one', edits=[(S,) + e(ii, 'for (j = p; j > 0 &&', 'for (j = p; j > 1 - (p < 2) &&')], demo=BODY),
dict(id='c22-descending-pointer', prop='C22', needs='descending comparison through pointers of two equal values', breaks='equal values compare as different', edits=[(C,) + e(dp, 'if (*a > *b)', 'if (*a >= *b)')], demo=BODY),
]
