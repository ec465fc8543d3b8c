#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
  assert len(title) <= 80, (id, len(title))
  d = dict(id=id, title=title, statement=statement,
           quantifier=dict(over=over, text=text), why_tests_cant=why,
           anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                        observe_at=observe, hook_needed=None))
  if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
  P.append(d)
G='swirl_fem/core/gather_scatter.py'; I='swirl_fem/core/interpolation.py'; M='swirl_fem/core/mesh.py'
PM='swirl_fem/core/premesh.py'; R='swirl_fem/core/mesh_refiner.py'; F='swirl_fem/core/fespace.py'
FU='swirl_fem/common/facet_util.py'; PC='swirl_fem/common/premesh_commons.py'
RD='swirl_fem/common/mesh_reader.py'; PT='swirl_fem/common/mesh_partitioner.py'
NS='swirl_fem/navier_stokes/navier_stokes.py'; CG='swirl_fem/linalg/cg.py'; SD='swirl_fem/sde/sdeint.py'
FS='swirl_fem/sde/flax_nn_sde.py'; PO='swirl_fem/examples/poisson.py'
CR='swirl_fem/communication/crystal_router.py'; PS='swirl_fem/communication/pscan.py'
ST='swirl_fem/communication/semi_traced_scalar.py'; JD='swirl_fem/communication/jit_distributed.py'
DG='swirl_fem/niles/datagen/datagen.py'

prop('C01', 'Gather and scatter are exact transposes and ignore padding entries',
 'Gathering nodal values to elements reads, at every slot whose index names a node, exactly that node\'s value, and the fill value at every padding slot. Scattering element values to nodes returns for every node the sum of exactly the element slots that name it, so padding slots contribute nothing. Hence scatter is the exact transpose of gather: the sum over all slots of gather(u, fill 0) times v equals the sum over all nodes of u times scatter(v).',
 ['inputs'], 'every number of nodes (at least 1) and elements, every index array with entries in {-1} or [0, number of nodes) (repeated and unreferenced nodes and padding in any position included), every real nodal and element value',
 'The tests check a handful of small fixed index arrays and values; the transpose identity must hold for every connectivity, in particular for padding mixed with a referenced last node (index -1 aliases it) and for repeated indices.',
 [G, M], [('masked read', 'gather'), ('masked accumulate', 'scatter'), ('mesh-level wrappers', 'Mesh.gather / Mesh.scatter / Mesh.element_coords')],
 ['return values of gather_scatter.gather / scatter and Mesh.gather / scatter'])
prop('C02', 'Exchange sums the values of all copies of a degree of freedom, everywhere',
 'After exchanging nodal values, every node that shares its global id with other nodes - in the same array, or on other partitions - holds the sum of the input values of all nodes with that id, and every other node (including padding nodes) keeps its input value unchanged. The result has the value type of the input. A layout the exchange cannot represent (the same id twice inside one partition of a partitioned array) is rejected with an error rather than exchanged wrongly.',
 ['inputs', 'configurations'], 'every array of global node ids (one-dimensional, or two-dimensional with one row per partition and padding entries), every number of partitions and every nodal value',
 'The tests exercise a few fixed layouts of at most a few nodes; which ids are shared, in which positions, with how much padding and across how many partitions is unbounded.',
 [G, M], [('exchange index construction', '_get_exchange_indices_unpartitioned / _get_exchange_indices_partitioned'), ('exchange', 'exchange'), ('mesh wrapper', 'Mesh.exchange')],
 ['return value of exchange / Mesh.exchange applied with the indices of get_exchange_indices'])
prop('C03', 'Periodic links identify exactly the linked nodes, with one representative',
 'With periodic links given, two nodes receive the same global id exactly when they are equal or connected by a chain of links, and that id is the smallest node id in the chain; padding entries stay padding and nodes not mentioned in any link keep their id. Without links (none, or an empty array) the ids are returned unchanged.',
 ['inputs'], 'every array of node ids of one or two dimensions and every array of links: chains, cycles, self links, repeated and contradictory-looking links, corner nodes linked along several axes',
 'The tests cover fixed square/cube layouts; transitive chains of links of arbitrary length and order are a property of the whole link graph.',
 [G], [('linked components', '_get_periodic_mapping'), ('renumbering', 'get_unique_node_indices')],
 ['return value of get_unique_node_indices'])
prop('C04', 'Partitioning a mesh loses, duplicates and re-wires nothing',
 'Grouping by partition lists every index exactly once, in the row of its partition, with only padding elsewhere. Partition-local renumbering is lossless: each partition lists each of its nodes once, and mapping local element entries back through that list gives the original global elements with padding preserved. A finalized partitioned mesh therefore has, on its partitions, exactly the elements of the original mesh with the original coordinates at every element node and the same physical-group membership, periodic meshes included.',
 ['inputs', 'configurations'], 'every partition assignment (uneven and empty partitions included), every element connectivity, any number of partitions up to the available devices, periodic links between partitions and physical groups',
 'The tests use a few even partitions of regular meshes; the guarantee quantifies over all assignments and connectivities, and coordinates of periodic partitioned meshes are never compared.',
 [G, PM], [('grouping', 'group_by_partitions / _pad_evenly'), ('renumbering', 'get_local_elements'), ('assembly', 'Premesh.finalize'), ('masks', '_mask')],
 ['return values of group_by_partitions, get_local_elements, Premesh.finalize'])
prop('C05', 'Facet enumeration covers the reference cube; orderings match orientations',
 'The facets of the n-dimensional reference element are enumerated without repetition (3^n in total, C(n,k)2^(n-k) of dimension k), and the interior-node selections of all facets together select every node of a tensor-product element exactly once. For every orientation of a facet (axis permutation and flips) the ordering table has exactly one entry, keyed by the corner ordering of that orientation, whose value is the ordering of all facet nodes under the same orientation.',
 ['inputs', 'configurations'], 'every element dimension used by the library (1 to 3; facets 0 to 3), every number of points per axis (at least 2 for elements, at least 0 for interior grids)',
 'Tests list the expected tables for a few small sizes; the correspondence has to hold for every size and all 2^d d! orientations, which is what makes neighbouring elements agree.',
 [FU], [('facet enumeration', 'get_facet_types'), ('selection', 'slice_from_facet_type'), ('orientation table', 'get_orderings_mapping')],
 ['return values'])
prop('C06', 'Unit-cube meshes are a conforming grid with exact boundary and periodicity',
 'A cube mesh with N elements per axis has the (N+1)^ndim grid nodes equally spaced from a to b in every axis, and exactly the N^ndim grid cells as elements in tensor-product node order, with partitions assigned blockwise when requested. The boundary group contains exactly the facets on the non-periodic sides, each once, and is absent when every axis is periodic. The periodic links pair every facet on the first side of each periodic axis with the facet exactly opposite, node by node, and link nothing else.',
 ['inputs', 'configurations'], 'every N >= 1, ndim in 1..3, any interval a < b, every subset of periodic axes, every partition array whose shape divides N',
 'Tests compare a few literal meshes with N <= 4; index arithmetic has to be right for all N and all axis combinations.',
 [PC], [('facet elements', '_unit_cube_facet_elements'), ('assembly', 'unit_cube_mesh')], ['the returned Premesh'])
prop('C07', 'Refinement yields a conforming mesh whose shared facets share nodes',
 'Refining a first-order mesh places the nodes of every element at the tensor-product reference positions mapped by the element, and for node families that include the element ends, two elements share a refined node exactly when it lies on a facet whose corner nodes they share - with coordinates agreeing whatever the relative orientation of the elements - while no node is duplicated and every node is used. For families without end nodes every element gets its own nodes. Physical groups refine to exactly the nodes of the refined facets, periodic links pair refined nodes at corresponding positions, and partitions are carried over unchanged.',
 ['inputs', 'configurations'], 'every conforming first-order mesh in 1 to 3 dimensions with any relative orientation and numbering of its elements, every target node count and node family, with or without physical groups, periodic links and partitions',
 'Tests refine a few regular meshes and one or two twisted pairs; consistency must hold for every relative orientation of neighbours and every traversal order.',
 [R, FU], [('facet deduplication', '_MeshRefiner._refine_facets'), ('orientation tables', 'facet_util.get_orderings_mapping'), ('coordinates', '_refine_elements'), ('groups/links', 'refine')],
 ['refine_premesh result'])
prop('C08', 'Interpolation reproduces polynomials; differentiation is exact on them',
 'Interpolating from n grid points per axis to any evaluation points reproduces every polynomial of degree below n in each variable, the weights of each evaluation point sum to one, and an evaluation point that coincides with a grid point returns that grid value exactly. The gradient operator returns the exact partial derivatives of every such polynomial, in coordinate order. Values are ordered tensor-product wise, last axis fastest.',
 ['inputs', 'configurations'], 'every node family (equispaced, Gauss-Legendre, Gauss-Lobatto-Legendre), every point count for which the family exists, every evaluation point set (coincident points included), dimensions 1 to 3',
 'Tests evaluate a few monomials for a few sizes; exactness is an algebraic identity in the node positions, needed for all sizes and all evaluation points.',
 [I], [('barycentric weights', 'BarycentricInterpolator._barycentric_weights'), ('interpolation', '_interpolation_matrix_1d / interpolation_matrix / interpolate'), ('differentiation', '_differentiation_matrix_1d / interpolation_matrix_grad / interpolate_grad')],
 ['interpolation_matrix, interpolation_matrix_grad, interpolate, interpolate_grad'])
prop('C09', 'Quadrature rules integrate polynomials exactly up to their stated degree',
 'Nodes are strictly increasing in [-1, 1] and symmetric, with positive symmetric weights summing to 2; families with end nodes contain exactly -1 and 1. Gauss-Legendre rules with n points integrate polynomials up to degree 2n-1 exactly, Gauss-Lobatto-Legendre up to 2n-3, and the equispaced rule is the composite trapezoidal rule. Multi-dimensional weights are the tensor products of the one-dimensional ones in tensor-product order.',
 ['inputs', 'configurations'], 'every point count for which the family exists and every dimension 1 to 3',
 'Tests check a few sizes; the exactness degree and weight formulas hold for all n.',
 [I], [('nodes', 'Nodes1D.create'), ('weights', 'Quadrature1D.create_from_nodes_1d'), ('tensor weights', 'Quadrature1D.weights_nd')],
 ['Nodes1D, Quadrature1D attributes and weights_nd'])
prop('C10', 'Finite-element integrals and gradients are those of the mapped elements',
 'On each element the geometry factors are those of the element map defined by its node coordinates: quadrature coordinates are the images of the reference quadrature points, and Jacobian determinants and inverses belong to the derivative of that map. Gradients of nodal functions are physical-space gradients (chain rule with the inverse Jacobian, derivative index first for vector fields), and divergence is the trace of that gradient. The integral of a function is the sum over elements and quadrature points of its value times determinant times weight, hence linear in the function and additive over elements; elements that only pad an unevenly partitioned mesh contribute nothing.',
 ['inputs'], 'every mesh (curved, sheared, unstructured; 1 to 3 dimensions), every nodal function and every analytic function, every quadrature rule',
 'Tests integrate a few functions over regular meshes; index conventions (transposed Jacobians) are invisible on axis-aligned meshes and must be right on every element shape.',
 [F], [('geometry', 'FiniteElementSpace.create'), ('gradients', 'ScalarNodalQFunctionGrad / VectorNodalQFunctionGrad'), ('integration', 'FiniteElementSpace.integrate'), ('div', 'div')],
 ['FiniteElementSpace.create attributes, integrate, grad, div'])
prop('C11', 'The local covector of a form is its exact dual vector',
 'For every form that is linear in its placeholder argument, the element-local covector, contracted with any element-local values of that argument, equals the integral of the form evaluated with those values; this holds for scalar and vector placeholders and for forms using values and gradients of the placeholder. Calls without exactly one placeholder are rejected.',
 ['inputs', 'programs'], 'every mesh, every form linear in the placeholder with arbitrary coefficient functions, every element-local value',
 'Tests use a few concrete forms on regular meshes; the duality must hold for every form and mesh because every operator of the solvers is obtained through it.',
 [F], [('transpose', 'FiniteElementSpace.local_covector'), ('batched evaluation', 'NodalQFunction.__call__')], ['local_covector result vs integrate'])
prop('C12', 'The Poisson solver solves the symmetric Galerkin system with zero boundary',
 'The solution of the Poisson solver is zero at every node of every Dirichlet group, and satisfies the Galerkin equations (integral of grad u . grad v = integral of f v) for all test functions vanishing there, to the requested tolerance. The operator it inverts is symmetric and positive semi-definite on functions vanishing on the boundary. Boundary values other than the scalar zero are rejected.',
 ['inputs', 'configurations'], 'every finalized non-periodic unpartitioned mesh with at least one Dirichlet group, every forcing and tolerance',
 'Tests solve two manufactured problems on regular meshes; symmetry, masking and the weak form must hold for every mesh and right-hand side.',
 [PO], [('operators and mask', 'solve_poisson')], ['solve_poisson return value and raised errors'])
prop('C13', 'Conjugate gradients: exact steps, true residual and honest stopping report',
 'The returned solution, reported residual and iteration count are consistent at every stop: the reported residual is the preconditioned squared residual norm of the returned solution as measured by the supplied dot product, and iteration stopped either because it is at most max((tol)^2 (b,b), atol^2) or because the iteration limit was reached, and not before. Every iteration is the preconditioned conjugate-gradient step (step length minimising along the current direction, new direction conjugate to the previous one), starting from the supplied guess or zero. Zero iterations return the initial guess unchanged.',
 ['inputs', 'histories'], 'every symmetric positive definite operator and preconditioner, right-hand side, initial guess, tolerances, iteration limit and dot product, over pytrees of any structure, at every iteration',
 'Tests solve three small systems; the invariants quantify over every iteration of every solve.',
 [CG], [('iteration', 'cg.body_fun / cond_fun'), ('dot product over trees', '_vdot')], ['(x, info) returned by cg'],
 [('(x, r, gamma, p, k)', 'iterate, residual, preconditioned residual norm, direction, count', 'cg')])
prop('C14', 'The SDE integrator applies exactly the Euler-Heun scheme on every segment',
 'Each step advances the state by drift times the step size plus the average of the diffusion increment at the current state and at the state predicted by the diffusion increment one step later, using the Brownian increments in time order, each exactly once. The state returned for each output time is the state after exactly the steps of its segment, so integrating over several segments equals integrating each in turn from the previous result; the step size of a segment is its length divided by its number of increments. The sample path generator returns n independent increments of variance 1/n.',
 ['inputs', 'histories'], 'every drift and diffusion function and extra arguments, every state structure, every increasing output time grid dividing the increments evenly, every increment array',
 'Tests check strong convergence for two scalar SDEs with tolerance; a wrong evaluation time or reordered increment within a step stays inside those tolerances.',
 [SD, FS], [('step', '_sdeint.step_fn'), ('segments', 'sdeint.scan_fun'), ('lifting to flax', 'core_sdeint'), ('path', 'brownian_path')], ['sdeint result'])
prop('C15', 'The crystal router delivers every message exactly once to its target',
 'After routing, every device holds exactly the multiset of items addressed to it by all devices (all leaves of an item travel together, bit for bit), its reported count is the number of those items, and items beyond a device\'s input count are never sent. With sources requested, each delivered item carries the device it came from, so routing back returns every item to its origin. This holds whatever the buffer sizes along the way, including when many items concentrate on one device.',
 ['inputs', 'schedules'], 'every number of devices (one, and numbers that are not powers of two, included), every count, target assignment and payload structure',
 'The single test routes random data on one device count; the routing has a different schedule for every device count and resumes whenever a buffer overflows.',
 [CR], [('stage', '_crystal_router_stage'), ('loop and schedule', '_crystal_router_loop'), ('buffer growth', '_crystal_router_flat.crystal'), ('select/append', 'CrystalData')], ['(n, data, source) returned by crystal_router'])
prop('C16', 'Parallel prefix scan and reduction equal the sequential fold',
 'Over a mapped axis, the scan gives device i the left-to-right fold of the values of devices 0..i-1 (the unit of the operation for device 0, also for values at the ends of the type\'s range), and the reduction gives every device the fold of all devices; each is the same whether requested together or alone, and pytrees are handled leaf by leaf. No commutativity of the operation is relied on.',
 ['inputs', 'configurations'], 'every axis size, every supported operation and element type (booleans, integers, floats with infinities), every value and pytree',
 'Tests run two axis layouts with random data; the communication tree is different for every axis size.',
 [PS], [('fan-in/fan-out', '_fanin_fanout_flat'), ('units', 'unit_table / _dtype_range'), ('API', 'pscan / preduce')], ['pscan / preduce results'])
prop('C17', 'Scalars with local and global views keep the two views in agreement',
 'For any expression built from the axis index, axis size and constants with the arithmetic, comparison, bitwise and selection operations (scalars on either side, reflected operations with their operands in the right order), the local value on the device at index i equals entry i of the global array, and the global array has one entry per index.',
 ['programs', 'configurations'], 'every expression over the supported operations (within machine-integer range and defined operations) and every axis size',
 'No test exercises this class directly; the property is over all expressions.',
 [ST], [('lifted operations', '_lift_op / _lift_ops'), ('leaves', 'axis_index / axis_size / constant / where')], ['local and global_ attributes'])
prop('C18', 'Distributed compilation equals applying the function shard by shard',
 'Calling the distributed version of a function returns, for every index along the leading axis, the result of the original function on that index\'s slice of every array argument, stacked along the leading axis, with collective operations over the named axis seeing all indices in order. Keyword-only (or explicitly named) static arguments, including their defaults, reach the function unsharded and unchanged.',
 ['programs', 'inputs'], 'every function with positional, keyword and keyword-only arguments in any calling style, pytrees of arguments and results, any number of devices; functions without array arguments included',
 'Tests cover three signatures; the binding of positional and keyword arguments to sharded and static sets must be right for all signatures and call styles.',
 [JD], [('argument binding', 'jit_distributed.bind / pmapped')], ['return value of the compiled function'])
prop('C19', 'Time-stepping coefficients are exact to their order',
 'The order-k backward-difference coefficients, applied to the samples of any polynomial of degree at most k at k+1 equally spaced times (oldest first), give step size times its exact derivative at the last time; the order-k extrapolation coefficients, applied to the samples of any polynomial of degree at most k at the k+1 last times, give its exact value one step after the last.',
 ['inputs', 'configurations'], 'every order k >= 1 (up to floating-point accuracy) and every polynomial',
 'Tests compare literal coefficients for a few k.',
 [NS, I], [('BDF', 'bdfk_coeffs'), ('EXT', 'extk_coeffs')], ['returned coefficient arrays'])
prop('C20', 'One Stokes step solves the discrete momentum and incompressibility equations',
 'Given exact inner solves, the step returns a velocity whose discrete divergence vanishes, equal to the filtered tentative velocity plus the mass-inverse-weighted pressure-gradient correction, and a pressure equal to the extrapolated previous pressure plus the same correction. The tentative velocity satisfies the discrete momentum balance: backward-difference time derivative over the given history, viscosity, forcing and gradient of the linearly extrapolated pressure (constant extrapolation when the history has a single pressure), taking the prescribed boundary values where given and zero on other Dirichlet nodes. The diagnostics returned are those of the two inner solves.',
 ['inputs', 'histories'], 'every mesh, viscosity, step size, time order, filter strength, velocity and pressure history, forcing and boundary data',
 'Tests integrate a few manufactured flows with loose tolerances at fixed settings; sign or ordering errors in history terms show up as reduced accuracy only.',
 [NS], [('step', 'StokesSEM.stokes_one_step'), ('pressure nullspace', '_pressure_project_out_nullspace')], ['(u, p, aux) returned by stokes_one_step'])
prop('C21', 'Stokes operators: symmetric, dual divergence/gradient, right boundary masks',
 'The velocity stiffness operator is the symmetric positive semi-definite form of full gradients, the mass operator is the diagonal form of the velocity product, the pressure gradient operator is the exact transpose of the divergence operator, and inverse mass composed with summed mass is the identity on single-valued fields. All velocity covectors vanish on exactly the nodes of the Dirichlet groups (and no others), and the convection operator is the covector of (u . grad) u. The pressure projection removes exactly the mean component.',
 ['inputs', 'configurations'], 'every mesh, order and set of boundary conditions (several groups, Dirichlet or Neumann), every velocity and pressure field, periodic meshes included',
 'Tests check a few integrals; symmetry and duality are identities over all fields and meshes, and CG correctness depends on them.',
 [NS, F], [('operators', 'StokesSEM.A/B/Bi/D/Dt/E, StokesVelocity.*_local, StokesPressure.B'), ('mask', 'dirichlet_bc')], ['operator results'])
prop('C22', 'Stabilisation filter and vorticity: consistent, single-valued nodal fields',
 'With zero strength the filter is the identity, and at any strength it depends linearly on the field and leaves unchanged every field that is, on each element, a tensor-product polynomial of degree one less than the element order. Each node of the filtered field receives the average, over the elements meeting there, of (1 - strength) times the field plus strength times its element-wise interpolation down to one degree less and back, and a field that agrees at periodic images keeps agreeing there. Vorticity is d(u_y)/dx - d(u_x)/dy averaged over all elements meeting at the node, through periodic identification included, so it is single-valued.',
 ['inputs', 'configurations'], 'every mesh (periodic included), order at least 2, filter strength and velocity field',
 'Tests check that the filter damps one field; reproduction and single-valuedness quantify over all fields and meshes.',
 [NS], [('filter', 'StokesSEM.filter'), ('vorticity', 'StokesSEM.vorticity'), ('multiplicity', 'StokesVelocity.diag_qqt')], ['filter / vorticity results'])
prop('C23', 'Reading a mesh file preserves geometry, orientation and periodicity',
 'Reading a mesh file returns the file\'s node coordinates in the first ndim components and one element per file cell of the full dimension, its corners reordered to tensor-product order so that a correctly oriented cell has a positive Jacobian. When the file declares periodic entities, the links pair exactly the boundary facets all of whose nodes are declared by one such entity of facet dimension, each in tensor-product order with the partner nodes declared by that same entity in the same order; without such facets there are no links. Other dimensions, or files without cells of the requested dimension, are rejected.',
 ['inputs'], 'every mesh file with cells of the requested dimension (1 to 3), any node numbering, with or without periodic sections',
 'Tests read a few small files; ordering and pairing must hold for any file content.',
 [RD], [('corner order', '_NODE_ORDERING_PERMUTATIONS / read'), ('links', '_get_periodic_links')], ['Premesh returned by read'])
prop('C24', 'Mesh partitioning assigns every element one valid partition and nothing else',
 'Partitioning returns the same mesh with every element assigned one partition number between 0 and the requested number minus one, in a form the mesh finalization accepts; coordinates, elements, groups and links are unchanged. The graph handed to the partitioner joins exactly the pairs of distinct elements that share at least one node.',
 ['inputs', 'configurations'], 'every mesh and every requested number of partitions',
 'Tests check balance on regular meshes; the adjacency contract concerns every connectivity.',
 [PT], [('adjacency', 'partition')], ['Premesh returned by partition and the adjacency passed to the partitioner'])
prop('C25', 'SDE gradients integrate the adjoint Stratonovich system exactly as specified',
 'The reverse pass integrates, backwards over the same increments, the negated system for the state together with the vector-Jacobian products of drift and diffusion for the cotangents of the state and of every extra argument, starting from the final state, the incoming cotangent and zero argument cotangents. The returned cotangents have the structure of their arguments, are linear in the incoming cotangent, and vanish for times and increments.',
 ['inputs', 'programs'], 'every drift and diffusion function, state, extra arguments, increments and incoming cotangent',
 'Tests compare gradients within convergence tolerance for two SDEs; a wrong sign, time argument or increment order changes results only at the discretisation-error level for smooth problems.',
 [SD], [('adjoint', '_sdeint_rev / aug_f'), ('forward residuals', '_sdeint_fwd')], ['jax.vjp / jax.grad of sdeint'])
prop('C26', 'Flow-data generation advances and records the simulation history in order',
 'Each simulation cycle advances velocity, pressure and convection histories by exactly the requested number of steps, in every step dropping the oldest entry and appending the newest so that each step sees its predecessors oldest first, with the convection extrapolation evaluated on the matching history entries. The recorded data set holds the initial state and every tenth new state together with its own time. Successive cycles of a run start from the histories and the step number the previous cycle ended with.',
 ['histories', 'configurations'], 'every number of steps per cycle, history length (at least the time order) and initial history',
 'There are no tests for data generation; the ordering is a property of the whole history.',
 [DG], [('cycle', 'one_cycle / _solve_one_step')], ['returned histories'])
if __name__ == '__main__':
  out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
  with open(out, 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
  print(len(P))
