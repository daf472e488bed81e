T = 'deductive verification: function contracts over the LLVM IR of the current sources, weakest-precondition style symbolic execution with inductive loop summaries, obligations discharged by normal forms and z3'
CLAIM = {
 'C01': ('yes', T, 'proof', 'set/get pairs of about 110 interface functions, all indices and sizes symbolic; reals instead of doubles, 32-bit overflow excluded by the index ranges'),
 'C02': ('yes', T, 'proof', 'refusal conditions, error value and unchanged handle of about 110 interface functions, all indices and sizes symbolic'),
 'C03': ('yes', T, 'proof', 'the three rule functions for all options, solvers and dimensions; the creation call with symbolic arguments: domains, completion of the options, sizes; the variadic helper check_solvers by contract'),
 'C04': ('yes', T, 'proof', 'lookups of every table entry and of symbolic codes and names outside the tables, generic lookups on unbounded tables; lists of names bounded'),
 'C05': ('yes', T, 'proof', 'the gate for every configuration and every combination of marks, unbounded numbers of layers and kernels; the marks written by every setter; the entry points'),
 'C06': ('yes', T, 'proof', 'dependency marking by every setter, propagation of the marks and the rebuild condition of every saved result; memory of doubles not tracked in the rebuild contracts'),
 'C07': ('yes', T, 'proof', 'every activity table, summary and union at generic layer and derivative, unbounded numbers of layers and derivatives; the wiring of the tables in xrtm_update_varied_layers'),
 'C08': ('yes', T, 'proof', 'creation and destruction for every configuration at once, the record of inputs, activity flags, kernel tables, stacks and their hand-over; histories of handles and running out of the failure paths natively (bounded)'),
 'C09': ('yes', T, 'proof', 'the page allocator, every request function, every kind and table of buffers, creation and release of the workspace; that scopes are copies by value is taken from the C semantics; histories of nested scopes natively (bounded)'),
 'C10': ('yes', T, 'proof', 'all ranks up to 8, all extents; recursion by contract; initialisation of float and float complex arrays natively (bounded)'),
 'C11': ('yes', T, 'proof', 'every obligation at generic indices, unbounded sizes; reals instead of doubles; BLAS replaced by its defining formulas'),
 'C12': ('yes', T, 'proof', 'matrix identities over noncommuting operator symbols for every activity combination, separate and in-place outputs, fresh, stored and reused intermediate terms; unbounded numbers of streams and derivatives'),
 'C13': ('yes', T, 'proof', 'matrix identities over noncommuting operator symbols, unbounded numbers of streams and derivatives; the dense matrix helpers replaced by the contracts proved in C11, LAPACK by the inverse it computes'),
 'C15': ('yes', T, 'proof', 'every level the update recomputes, any number of layers and derivatives, both geometries, partial and full updates: the optical depth by its recurrence or sum over layers, transmittance, average secant and layer transmittance from it, the derivatives as exact total derivatives over the reals; the path factors as chord lengths by geometry; a layer of no thickness below the first is given the factor of the one above, the first one is not specified; the levels that are not recomputed are left alone (that they are current is C06); the values of level 0 set by xrtm_create only by the bounded check'),
 'C18': ('yes', T, 'proof', 'reverse-mode differentiation of the forward definitions against the adjoint routines, any number of streams, moments and angles; layer_add_ref_a for 8 combinations of varying layers and both directions, layer_add_all_a for the 3 combinations it implements, unit factor; the intermediate results the forward routines save are proved to be the ones the adjoints take; adjoints of the vector phase vectors and matrices, the composite delta-M routine and the particular solution only by a bounded check against central differences of the real forward routines; adjoints of the eigenproblem, boundary-value solver, reflection kernels, single scattering and the top-level adjoint solution are not covered'),
 'C16': ('yes', T, 'proof', 'interaction-principle identities over noncommuting operator symbols for every activity combination, unbounded numbers of streams and derivatives; quadrature sums at unbounded length; the dense matrix helpers replaced by the contracts proved in C11'),
 'C17': ('yes', T, 'proof', 'exact derivative identities over the reals for all ten kernels, where their square roots are positive; angle tables, kernel sums and azimuth expansion at unbounded numbers of directions, azimuths, kernels and derivatives (1 to 4 Stokes elements); user-defined kernels are not covered; the activity test is replaced by its contract of C07'),
 'C22': ('yes', 'deductive verification: pre- and postconditions and frame conditions of the real functions as CBMC proof harnesses over goto programs compiled from the current sources; loop-free list operations, comparison functions and exchanges for all inputs and lists of every length, traversals and sorts bounded and labelled so', 'proof', 'list operations on lists of any length, comparison of any two values; whole-list traversals (2 to 4 elements), array comparison (4), insertion sorts (4) and quick sorts (native) are bounded stand-ins'),
 'C24': ('no', 'the chain is grown by an unbounded search (build_stack_chain: while (1) over a grid of candidate pairs, with early exits) whose invariant is a property of the whole set of ranges built so far; no contract the verifier at hand can discharge expresses it without a bound, and an exploration of activity patterns up to a few layers would be a bounded model, not a contract'),
 'C25': ('yes', T, 'proof', 'polynomials, scalar phase functions and matrices, scattering matrices and rotation, local operators and mirror symmetry at unbounded sizes for 1 to 4 Stokes elements; the azimuth components of the polarised phase matrices (build_phase_*_vector_gc) only by a bounded check of the real code against closed forms'),
 'C14': ('yes', T, 'proof', 'every obligation at generic indices, unbounded sizes; reals instead of doubles'),
 'C27': ('yes', T, 'proof', 'frame contracts of every function reachable from the interface: no object with static storage is written and none that is written is read; Fortran routines at object-code level; the shared tree sentinel and runs of two handles only bounded'),
 'C19': ('yes', T, 'proof', 'all functions of xrtm_fd_interface.c; restoring in real arithmetic; that a solve leaves the inputs alone is C06, native search bounded'),
 'C20': ('yes', T, 'proof', 'every wrapper of C++, Fortran 77 (C side), Fortran 90 (C side) and every Julia dimension function; the Fortran 77 side natively (bounded); Fortran 90 module, IDL and Python sides not covered'),
 'C28': ('no', 'agreement of independent numerical solvers to a stated accuracy is a statement about convergence of floating-point iterations and eigenproblems (LAPACK); no contract within reach of the verifier expresses the discretisation error'),
 'C29': ('no', 'parsing and formatting go through stdio and lex/yacc generated tables; the verifier has no contracts for them, and a bounded round trip would not be deductive'),
}
