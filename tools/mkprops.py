#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one table (run by hand; the outputs are committed)"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **kw)))
I = ['inputs']; IC = ['inputs', 'configurations']; IH = ['inputs', 'histories']
p('C01', 'Inputs read back exactly as set',
  'Every accepted set call stores its values so that the matching get call afterwards returns exactly those values, for every layer, derivative, element and kernel index and for both the single-element and the whole-array forms, and no other input that can be read back changes. Setting one input never alters another one, and a derivative input set for one layer or derivative index stays with that index.',
  IC + ['histories'], 'every configuration the creation call accepts, every valid index, every value, every order of set and get calls',
  'Index arithmetic over up to four dimensions and two call forms; a test samples a few shapes, often square ones, where transposed or aliased storage is invisible.',
  ['src/xrtm_interface.c'], [('set and get functions', 'src/xrtm_interface.c: xrtm_set_* / xrtm_get_*'), ('storage allocation and aliasing of scaled and unscaled inputs', 'src/xrtm_interface.c: xrtm_create_misc')])
p('C02', 'Invalid calls are refused with an error and change nothing',
  'A set or get call with an out-of-range layer, derivative, element or kernel index, with a value outside its documented domain, or for an option or solver that was not enabled at creation returns the documented error status. Such a refused call leaves every input as it was and touches no memory outside the objects owned by the handle.',
  IC, 'every configuration, every integer index (negative, one past the end, huge) and every value outside the domain',
  'The set of bad indices and option combinations is unbounded and tests only make valid calls.',
  ['src/xrtm_interface.c'], [('argument checks', 'src/xrtm_interface.c: range and option tests at the head of every xrtm_set_* / xrtm_get_*')])
p('C03', 'Creation accepts exactly the consistent configurations',
  'The creation call succeeds only for dimension, option, solver and kernel combinations that the documentation allows: mutually exclusive options not combined, required companion options present, and every solver compatible with the options and dimensions. Whatever is refused is refused with an error status, and options implied by others, default quadrature and default output choices are filled in the documented way.',
  ['configurations', 'inputs'], 'all 2^n combinations of option and solver bits and all dimension values',
  'There are billions of combinations of about 30 option bits, 15 solver bits and 8 dimensions; tests sample a few dozen.',
  ['src/xrtm_interface.c'], [('option, count and solver checks', 'src/xrtm_interface.c: check_options, check_counts, check_solvers, xrtm_create_misc')])
p('C04', 'Names and codes are mutually inverse',
  'For every option, solver, solution, quadrature and kernel code the name lookup and the code lookup are inverse to each other, so that the name of each code maps back to that same code and every listed name maps to exactly one code; unknown names and codes are reported as errors. Converting a bit mask to its list of names or values and back yields the same mask.',
  I, 'every code, every mask, every index of the tables',
  'A single swapped or missing entry affects one name that no test happens to use.',
  ['src/xrtm_interface.c', 'misc/gindex_name_value.c', 'src/xrtm_brdf.c'], [('name tables', 'src/xrtm_interface.c: *_names / *_masks tables and xrtm_*_mask_to_name etc.'), ('generic table lookup', 'misc/gindex_name_value.c')])
p('C05', 'A solve is refused until every required input is set',
  'A solve request on a configuration with some required input still missing returns an error; once every input that the configuration requires has been set in any order, the gate opens and stays open. Inputs that the configuration does not require are never demanded.',
  IC + ['histories'], 'every configuration, every subset and order of set calls',
  'The number of subsets of inputs times configurations is exponential; tests always set everything.',
  ['src/xrtm_interface.c'], [('input tracking', 'src/xrtm_interface.c: check_inputs_initialized, set_flags_* fields')])
p('C06', 'Changed inputs are never answered from stale intermediate results',
  'After any input is changed, every intermediate quantity that depends on it (delta-M scaled optical properties, user optical depths, path factors and direct-beam quantities) is recomputed before it is used, so a solve after changing some inputs equals a solve on a fresh handle with the same inputs. Each set call marks all layers and quantities that its input influences.',
  IH, 'every sequence of set calls and solves, every layer range, every combination of changed inputs',
  'Staleness depends on the order of set and solve calls; unit tests create a new handle per case.',
  ['src/xrtm_model.c', 'src/xrtm_interface.c'], [('dependency masks', 'src/xrtm_interface.c: set_deps, init_deps; src/xrtm_model.c: update_opt_props, update_utaus, beam_params_update, get_chapman and their *_deps')])
p('C07', 'Derivative activity tables are complete and exact',
  'From the set of layers in which each derivative is active, the bookkeeping marks, for every layer, pair of layers, level and derivative, exactly whether the local properties, the beam above, the stack above or the total can depend on it, and the aggregated flags over derivatives equal the or of the individual ones. No derivative that influences a quantity is dropped and none that cannot is marked.',
  IC, 'every activity pattern, every number of layers and derivatives',
  'The patterns grow as 2^(layers x derivatives); tests use one varied layer or all of them.',
  ['src/xrtm_interface.c', 'src/xrtm_utility.c', 'src/xrtm_stacks.c'], [('activity tables', 'src/xrtm_interface.c: update_varied_layers; src/xrtm_utility.c: flags_*')])
p('C08', 'Destroying a handle releases every allocation exactly once',
  'Every block of memory acquired while a handle is created is released exactly once when it is destroyed, for every accepted configuration, and nothing that was not acquired for it is released. No block is released twice and none is used after its release.',
  ['configurations', 'histories'], 'every accepted combination of options, solvers and dimensions',
  'Allocation and release are guarded by option tests written twice, in two functions; a mismatch shows only for particular option combinations.',
  ['src/xrtm_interface.c'], [('create and destroy', 'src/xrtm_interface.c: xrtm_create_misc, xrtm_destroy')])
p('C09', 'Scratch buffers handed out are always distinct and large enough',
  'Every scratch buffer that the workspace hands out to a computation is disjoint from every other buffer handed out in the same scope, has the dimensions its kind promises, and remains valid until its scope ends. A request inside a nested scope never disturbs a buffer of the enclosing scope.',
  IC + ['histories'], 'every sequence of requests and nested scopes, every kind and size',
  'Overlap depends on the history of requests and page boundaries that tests never reach.',
  ['src/xrtm_work.c'], [('workspace', 'src/xrtm_work.c: get_work1, get_work2, work_init, work_get*')])
p('C10', 'Multi-dimensional arrays address each element once, in order',
  'An allocated multi-dimensional array has one contiguous element block, its index tables lead every index tuple to a distinct element in row-major order inside that block, and initialisation or copying touches every element and nothing else. Releasing it releases the block exactly once.',
  I, 'every number of dimensions and every extent',
  'Index tables are built recursively; off-by-one sizing shows only for unequal or degenerate extents.',
  ['misc/gutil_alloc.c', 'misc/galloc.h'], [('array allocator', 'misc/gutil_alloc.c: array_mem_length*, array_from_mem*, alloc_array*, init_array*, copy_array*')])
p('C11', 'Dense vector and matrix operations equal their definitions',
  'Each dense vector and matrix operation writes exactly the mathematical result (copy, zero, identity, transpose, sum, difference, scaling, product with vector, matrix or diagonal) to the addressed output elements for every size and changes nothing else. In-place use, where output and input are the same object, gives the same result.',
  I, 'all sizes including zero and non-square shapes, all element values',
  'Products of shapes and aliasing; a transposed index is invisible on symmetric or square samples.',
  ['misc/gmatrix.h', 'misc/gmath_matrix.c', 'misc/gmath_mat2d3d.c', 'src/xrtm_matrix.c'], [('matrix kernels', 'misc/gmatrix.h: xmat_*, xvec_*')])
p('C12', 'Adding two layers follows the interaction principle with exact derivatives',
  'Combining the reflection, transmission and source terms of two layers yields the operators of the combined layer given by the interaction principle, for any operators and any number of streams. Every derivative produced for the combination equals the total derivative of that result for whichever of the two layers carries the derivative, including beam attenuation between them.',
  I, 'all operators, sizes, derivative counts and activity patterns',
  'Each of about nine activity cases has its own hand-simplified derivative code, most of which no test reaches.',
  ['src/xrtm_adding.c'], [('adding kernels', 'src/xrtm_adding.c: layer_add_ref, layer_add_all, layer_add_ref_l, layer_add_all_l')])
p('C13', 'Doubling a layer equals adding it to itself with exact derivatives',
  'One doubling step yields the operators and source terms of two identical layers added together, and every derivative it produces equals the total derivative of that result.',
  I, 'all operators, sizes, derivative counts and activity patterns', 'Hand-derived formulas with many terms; numerical tests compare only a few layers and tolerate errors in rarely used terms.',
  ['src/xrtm_doubling.c'], [('doubling kernels', 'src/xrtm_doubling.c: layer_double, layer_double_l, layer_double_s*')])
p('C14', 'Delta-M and TMS scaling follow their formulas with exact derivatives',
  'The scaled asymmetry parameter, phase expansion coefficients, single scattering albedo and optical thickness equal the delta-M truncation formulas, and the single scattering correction albedo equals its formula, for every truncation fraction. Every derivative they return is the exact total derivative with respect to the unscaled inputs and the truncation fraction, for each derivative index, and only the addressed outputs change.',
  I, 'all values, any number of coefficients and derivatives, scalar and six-element coefficient sets of both kinds',
  'Each output has its own hand-written derivative; a wrong term is small and passes tolerance tests on typical inputs.',
  ['src/xrtm_utility.c', 'src/xrtm_model.c'], [('delta-M functions', 'src/xrtm_utility.c: delta_m_*, n_t_tms_scaling'), ('truncation fraction', 'src/xrtm_model.c: get_delta_m_f')])
p('C15', 'Direct-beam attenuation and spherical path factors are exact',
  'For every level the optical depth along the solar beam, its transmittance and the per-layer average secant and layer transmittance follow from the layer optical thicknesses, in plane-parallel geometry or with the spherical path factors. The path factors equal the geometric chord lengths divided by layer thickness, and every derivative is the exact total derivative with respect to each layer thickness.',
  I + ['configurations'], 'any number of layers and derivatives, any thickness, height grid, planet radius and sun angle', 'Cumulative sums across layers with separate derivative code per geometry.',
  ['src/xrtm_model.c', 'src/xrtm_utility.c'], [('beam parameters', 'src/xrtm_model.c: beam_params_update'), ('path factors', 'src/xrtm_utility.c: chapman_functions')])
p('C16', 'Level radiances and fluxes follow from the layer operators',
  'Upwelling and downwelling radiances at the boundaries follow from the operators, boundary inputs and source terms by the interaction principle, and mean intensity and flux are the quadrature-weighted sums of the radiances with the direct beam counted once. Their derivatives are the exact total derivatives.',
  I, 'all sizes, operators, inputs, derivative patterns', 'Hand-coded products and accumulations per activity case.',
  ['src/xrtm_radiance.c'], [('radiances', 'src/xrtm_radiance.c: radiance_*, calc_radiance_*'), ('fluxes', 'src/xrtm_radiance.c: mean and flux functions')])
p('C17', 'Surface kernels and their derivatives are exact',
  'Every surface reflection kernel (other than the two Li kernels and user-defined ones) returns the value of its published formula. For every kernel the derivative returned with respect to its parameters is the exact derivative of the value returned, at every pair of directions and relative azimuth. The precomputed angle tables equal the corresponding trigonometric values. The reflection vectors and matrices and their derivatives sum over all kernels with their weights (product rule) and form the cosine expansion in azimuth.',
  I, 'all parameter values and geometries, all kernels', 'Branches at special geometries and parameter limits.',
  ['src/xrtm_brdf.c'], [('kernels', 'src/xrtm_brdf.c: *_kernel, *_aux'), ('kernel sums', 'src/xrtm_brdf.c: brdf_build_kernel_vecs/mats'), ('azimuth expansion', 'src/xrtm_brdf.c: brdf_build_ref_vec/mat')])
p('C18', 'Adjoint building blocks are the transposes of the tangent-linear ones',
  'Each adjoint routine of the building blocks (radiances at the boundaries and at levels; adding a layer onto a reflecting lower boundary and onto a layer; local and difference/sum operators and the eigenmatrix; solar source vectors; delta-M and single-scattering-correction scalings; phase functions, vectors and matrices) adds, to the adjoint of every input that varies, exactly the transpose of the derivative of the corresponding forward routine applied to the adjoints of its outputs. Adjoints accumulated before the call are kept, and the adjoints of inputs that do not vary are left alone. Consumed output adjoints are reset to zero, except by the routines whose caller owns them (radiance_toa_ref_a, radiance_toa_all_a for the radiance passed on, radiance_boa_all_a, build_scat_vector_gc_a, and those taking the output adjoint by value).',
  I, 'all values, sizes and derivative seeds', 'Transposition errors cancel for symmetric or single-element tests.',
  ['src/xrtm_utility_a.c', 'src/xrtm_adding_a.c', 'src/xrtm_radiance_a.c', 'src/xrtm_source_a.c', 'src/xrtm_scatter_a.c'], [('adjoint routines', 'src/*_a.c: radiance_*_a, layer_add_*_a, build_*_a, delta_m_*_a, phase_func_a'), ('saved terms', 'src/xrtm_adding.c, src/xrtm_radiance.c: forward_save_*')])
p('C19', 'Finite-difference derivatives perturb exactly one input at a time',
  'The finite-difference interface perturbs, for each derivative index, exactly the inputs whose perturbation was requested by exactly the requested amount, restores every input to its original value afterwards (up to rounding of adding and subtracting the perturbation), and returns the difference of the radiances of the two solutions divided by the distance between them in the independent variable (delta for one-sided, twice delta for central differences). The unperturbed radiances it returns are those of the original inputs, and every refused call or failed solve is reported.',
  IC + ['histories'], 'every derivative index, layer, input and difference method', 'A perturbation that is not undone corrupts only later calls.',
  ['src/xrtm_fd_interface.c'], [('perturbation', 'src/xrtm_fd_interface.c: xrtm_fd_set_*, perturb')])
p('C20', 'Language wrappers forward every argument unchanged',
  'Every method of the C++ interface and every function of the C side of the Fortran 77, Fortran 90 and Julia interfaces passes each of its arguments, in order and unchanged, to the native call of the same name on the same handle (multi-dimensional arrays as index tables over the memory of the caller with the dimensions the native call documents), and returns its result or signals its error.',
  I, 'every wrapped call, every argument value', 'Swapped arguments of equal type compile and pass tests that use symmetric values.',
  ['interfaces/xrtm_int_cpp.cpp', 'interfaces/xrtm_fd_int_cpp.cpp', 'interfaces/xrtm_int_f77_util.c', 'interfaces/xrtm_int_f90_util.c', 'interfaces/xrtm_fd_int_f77_util.c', 'interfaces/xrtm_fd_int_f90_util.c', 'interfaces/xrtm_int_jl_util.c'], [('C++ wrappers', 'interfaces/xrtm_int_cpp.cpp, interfaces/xrtm_fd_int_cpp.cpp'), ('Fortran wrappers', 'interfaces/xrtm_int_f77_util.c, interfaces/xrtm_int_f90_util.c'), ('Julia dimensions', 'interfaces/xrtm_int_jl_util.c')])
p('C22', 'Containers and ordering functions keep their contents and order',
  'List operations keep exactly the inserted elements in order with consistent forward and backward links, sorted insertion places a value behind those that compare equal, sorting yields an ordered permutation of its input (in place, by index or by pointer), and comparison functions return -1, 0 or 1 according to the ascending or descending order of their operands, arrays lexicographically.',
  IH, 'every sequence of operations, every content', 'Pointer surgery errors show only at particular positions and lengths.',
  ['misc/gstruct_dclist.h', 'misc/gutil_sort.c', 'misc/gutil_cmp.c'], [('doubly linked list', 'misc/gstruct_dclist.h'), ('sorting', 'misc/gutil_sort.c')])
p('C24', 'Layer stacks cover contiguous disjoint layer ranges',
  'The grouping of layers into stacks for each derivative partitions the atmosphere into contiguous ranges, every stack refers to two adjacent parts that together make up its range, and every layer belongs to exactly one stack of the final chain.',
  IC, 'every derivative activity pattern', 'Exponentially many activity patterns.',
  ['src/xrtm_stacks.c'], [('stack construction', 'src/xrtm_stacks.c')])
p('C25', 'Phase function expansions and local scattering matrices match their formulas',
  'Phase functions and matrices built from expansion coefficients equal the corresponding polynomial sums for every truncation and azimuth order: the Legendre, associated and generalised spherical polynomials follow their recurrences, the azimuth components sum to the (rotated) scattering function of the actual scattering angle in both hemispheres for 1 to 4 Stokes elements, the mirror-direction matrices are related by the documented symmetry, and the local reflection and transmission matrices and their sum, difference and product equal their formula in the phase matrices, quadrature and albedo, with every derivative equal to the total derivative.',
  I, 'any number of coefficients, streams, Stokes elements and derivatives', 'Index patterns over streams and Stokes elements; derivative code separate from value code.',
  ['src/xrtm_scatter.c', 'src/xrtm_utility.c', 'misc/rtutil_math.c'], [('polynomials', 'misc/rtutil_math.c: leg_poly*, gen_spher_funcs_prt*, src/xrtm_scatter.c: basic_matrix, calc_Y_x'), ('phase functions', 'src/xrtm_scatter.c: build_phase_*, build_scat_*, scat_vector_rotate_hovenier, phase_matrix_symmetry*'), ('local matrices', 'src/xrtm_utility.c: build_local_r_and_t, build_txr, build_gamma')])
p('C27', 'Handles are isolated from each other',
  'No operation on one handle reads or changes state that belongs to another handle or is shared by the process: the library keeps no mutable global or static state on any path of the model interface, so operations on distinct handles, in any order or in parallel threads, give the same results as when run alone.',
  ['schedules', 'histories'], 'every interleaving of operations on distinct handles', 'A hidden static only shows when two handles interleave.',
  ['src', 'misc'], [('absence of mutable static state', 'src/*.c, misc/*.c')])
p('C28', 'All solvers and interface languages agree with each other numerically',
  'All exact solvers give the same radiances, fluxes and derivatives within their numerical tolerance for the same inputs, energy is conserved for non-absorbing atmospheres, and derivatives agree with finite differences of the radiances.',
  IC, 'all inputs and solver combinations', 'Continuous input domain; tests sample a few cases.',
  ['src'], [('solvers', 'src/xrtm_eig_rts.c, src/xrtm_eig_bvp.c, src/xrtm_mem_bvp.c, src/xrtm_pade_rts.c, src/xrtm_doub_rts.c, src/xrtm_sos.c')])
p('C29', 'Scattering property files survive a round trip',
  'Writing scattering properties to a file and loading them again yields the same properties, and malformed files are rejected with an error.',
  I, 'every property set and every byte string as file content', 'Infinite input space.',
  ['misc/rtutil_scat_io.c'], [('reader and writer', 'misc/rtutil_scat_io.c')])

CLAIM = {}
exec(open(os.path.join(H, 'tools', 'claims.py')).read())
json_lines = '\n'.join(json.dumps(x) for x in P) + '\n'
open(os.path.join(H, 'properties.jsonl'), 'w').write(json_lines)
M = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[])
for x in P:
    c = CLAIM.get(x['id'])
    if c and c[0] == 'yes':
        M['checks'].append(dict(property=x['id'], quick_cmd='python3-vt check.py %s --tier quick' % x['id'], thorough_cmd='python3-vt check.py %s --tier thorough' % x['id'],
                                technique=c[1], level=c[2], level_note=c[3]))
    else:
        M['not_applicable'].append(dict(property=x['id'], reason=(c[1] if c else 'not built yet')))
json.dump(M, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(M['checks']), 'claimed')
