prop('P01', 'Element shape functions interpolate, and report their true derivatives',
     'For every element type, each shape function is 1 at its own node and 0 at every other node, the functions sum to 1 and reproduce every linear field at every parametric point, and second-order elements other than the pyramid reproduce every quadratic field. The reported first, second and third parametric derivatives are the exact derivatives of the reported shape functions at every point where they are defined.',
     ['inputs', 'configurations'], 'all element types, all nodes, all parametric points in the element',
     'Tests sample a few points per element; a wrong coefficient in one derivative of one node of a high-order element agrees at special points (nodes, centres, symmetric points).',
     ['src/Geom/Elements.hpp'],
     [('shape function and derivative tables', 'src/Geom/Elements.hpp: ShapeFunc_*, Get*ShapeFunc*'), ('element dispatch', 'src/Geom/Elements.hpp: struct Element')])
prop('P13', 'Conserved and primitive gas states convert into each other without loss',
     'Converting any physical conserved state (positive density and pressure) to primitive variables and back returns the same state, and vice versa, in 2-D and 3-D and with any transported scalars. Pressure, sound speed, enthalpy and stagnation quantities satisfy the ideal-gas relations for every such state, and a state with non-positive density is rejected rather than converted.',
     ['inputs'], 'all densities > 0, velocities, pressures > 0, ratios of specific heats > 1 and transported scalars',
     'Only a few states are sampled by the existing tests; the relation must hold for all of them.',
     ['src/Euler/Gas.hpp'],
     [('state conversions', 'src/Euler/Gas.hpp: IdealGasThermalConservative2Primitive, IdealGasThermalPrimitive2Conservative'), ('thermodynamics', 'src/Euler/Gas.hpp: IdealGasThermal, IdealGasThermalPrimitiveGetP0T0')])
prop('P14', 'Characteristic decomposition and linearisation of the Euler flux are exact',
     'For every physical state, unit normal and face velocity, the physical flux is the Euler flux, the left and right eigenvector matrices are inverse to each other, and the right eigenvectors are the eigenvectors of the derivative of that flux. The velocity, pressure and flux increments used by the implicit solver are the exact first derivatives of velocity, pressure and flux along every direction.',
     ['inputs'], 'all physical states, unit normals, face velocities and perturbation directions in 2-D and 3-D',
     'Tests multiply matrices at one or two states; a wrong entry that vanishes for special velocities or normals survives.',
     ['src/Euler/Gas.hpp'],
     [('flux', 'src/Euler/Gas.hpp: GasInviscidFlux, GasInviscidFlux_XY, GasInviscidFlux_Batch'), ('eigenvectors', 'src/Euler/Gas.hpp: EulerGasRightEigenVector, EulerGasLeftEigenVector'), ('increments', 'src/Euler/Gas.hpp: IdealGasUIncrement, GasInviscidFluxFacialIncrement')])
prop('P15', 'Numerical fluxes are consistent, orientation-symmetric, upwind and conservative',
     'Every Riemann solver returns the exact physical flux when both sides agree (on fixed and moving faces), returns the negative flux when the two sides and the normal are exchanged, and in supersonic flow takes the flux of the upwind side. The Roe linearisation satisfies the Roe jump property, the flux equals the central flux minus half the dissipation of the reported non-negative wave speeds, and evaluating a batch of face points equals evaluating each point alone.',
     ['inputs', 'configurations'], 'all pairs of physical states, unit normals, face velocities, entropy-fix parameters, and all solver variants in 2-D and 3-D (HLLC symmetry while the closing speed is below the sum of the sound speeds)',
     'The existing test evaluates the solvers at a handful of states; conservation across a face relies on antisymmetry for every pair of states and every normal.',
     ['src/Euler/Gas.hpp'],
     [('Roe family', 'src/Euler/Gas.hpp: RoeFlux_IdealGas_HartenYee, RoeFlux_IdealGas_HartenYee_Batch, RoeFluxIncFDiff, GetRoeAverage'), ('HLLC / HLLEP', 'src/Euler/Gas.hpp: HLLCFlux_IdealGas_HartenYee, HLLEPFlux_IdealGas'), ('dispatch', 'src/Euler/Gas.hpp: InviscidFlux_IdealGas_Dispatcher, InviscidFlux_IdealGas_Batch_Dispatcher')])
prop('P16', 'Viscous fluxes are the Newtonian stress and Fourier heat flux',
     'For every state, gradient, viscosity and unit normal, the viscous flux is the Newtonian (Stokes) stress plus the stress work plus the Fourier heat flux of that state: the stress is symmetric with and without the quadratic correction, rigid translation and rotation at uniform temperature give no flux, reversing the normal negates the flux, an adiabatic wall carries no heat, and dissipation is never negative. The velocity and primitive gradients it is built from are the exact chain-rule gradients of the conserved gradients.',
     ['inputs'], 'all states with positive density, all conserved gradients, viscosities, conductivities, unit normals, in 2-D and 3-D, with and without transported scalars',
     'No existing test evaluates the viscous flux; a wrong term cancels for shear flows aligned with an axis.',
     ['src/Euler/Gas.hpp'],
     [('viscous flux', 'src/Euler/Gas.hpp: ViscousFlux_IdealGas'), ('gradients', 'src/Euler/Gas.hpp: GradientCons2Prim_IdealGas, GetGradVelo')])
prop('P18', 'Slope limiters pick an admissible blend of the candidate slopes',
     'For arbitrary candidate slopes, the component limiters return zero when a candidate is zero (and, for minmod, van Leer and the cut-off WBAP, when the candidates have opposite signs), keep equal slopes unchanged, and otherwise return the minmod, the harmonic mean or the WBAP weighted mean of the candidates. The tensor limiters return the WBAP convex combination of the candidate tensors weighted by the true (multiplicity-weighted) tensor length, and the MEMM limiters return the shortest candidate tensor; the result never depends on the scale of the data.',
     ['inputs', 'configurations'], 'all slopes and derivative tensors (orders 1 to 3, 2-D and 3-D), all weights n > 0, two to four candidates (neighbour counts beyond that repeat the same loop body)',
     'No test covers the limiters; a wrong multiplicity weight or a swapped weight changes nothing when the candidates are equal or symmetric.',
     ['src/CFV/Limiters.hpp'],
     [('component limiters', 'src/CFV/Limiters.hpp: FWBAP_L2_Biway, FWBAP_L2_Cut_Biway, FMINMOD_Biway, FVanLeer_Biway, FWBAP_L2_Multiway'), ('tensor limiters', 'src/CFV/Limiters.hpp: FWBAP_L2_Biway_PolynomialNorm, FMEMM_Biway_PolynomialNorm, FWBAP_L2_Biway_PolynomialOrth, FWBAP_L2_Multiway_Polynomial2D, FWBAP_L2_Multiway_PolynomialOrth, FMEMM_Multiway_Polynomial2D')])
prop('P04', 'The reconstruction basis tabulates monomials and their exact derivatives',
     'For every point and every length scale, each entry of the reconstruction basis table is exactly the stated derivative of the stated monomial, whichever number of derivatives and basis functions is requested, in 2-D and 3-D. The derivative index tables list every derivative up to third order exactly once, sorted by order, and the direction lists, multiplicities, inverse indices and counts agree with them.',
     ['inputs', 'configurations'], 'all points, all positive length scales, all supported combinations of derivative and basis counts',
     'The hand-expanded tables have a separate branch per size; a wrong coefficient in one branch is only visible at that order and at points off the axes.',
     ['src/Geom/BaseFunction.hpp'],
     [('basis', 'src/Geom/BaseFunction.hpp: FPolynomialFill2D, FPolynomialFill3D, FPolynomial3D, iPow'), ('tables', 'src/Geom/BaseFunction.hpp: diffOperatorOrderList, diffOperatorDimList, diffOperatorIJK2I, diffNCombs, ndiffSizS, ndiff2order, GetNDof')])
prop('P05', 'Derivatives transform by the exact chain rule under coordinate maps',
     'Converting all derivatives up to third order of any function through a linear or a curved coordinate map gives exactly the derivatives of the composed function; derivative tensors transform and contract as full symmetric tensors; and the derivatives computed for an inverse map are those of the true inverse (composition with the map is the identity to third order). The input derivatives are never mixed with already converted ones.',
     ['inputs'], 'all functions, linear maps and curved maps (derivatives up to third order), in 2-D and 3-D; inverse maps with arbitrary higher derivatives and Jacobians of every pivot order',
     'The test only prints a round-trip error for two maps; a missing cross term vanishes for affine maps.',
     ['src/Geom/DiffTensors.hpp', 'src/Geom/EigenTensor.hpp'],
     [('chain rule', 'src/Geom/DiffTensors.hpp: ConvertDiffsLinMap, ConvertDiffsFullMap, DxDxi2DxiDx'), ('tensors', 'src/Geom/DiffTensors.hpp: NormSymDiffOrderTensorV, TransSymDiffOrderTensorV; src/Geom/EigenTensor.hpp: ETensorR3')])
prop('P06', 'Rotations, frames and periodic images are rigid motions with exact inverses',
     'Every rotation the code builds is a proper rotation by the stated angle about the stated axis, and every local face frame is orthonormal, right-handed and led by the face normal. Mapping a point through a periodic boundary preserves distances, mapping back restores it exactly for main and donor faces in all three directions and any combination of periodic bits, and vectors, matrices and derivatives transform consistently with points. Identifiers that are not periodic are rejected.',
     ['inputs', 'configurations'], 'all angles, axes, unit normals, rotation centres, translations, points, and all periodic identifiers and bit combinations',
     'No test exercises the periodic transforms; a transposed or swapped rotation is invisible for pure translations.',
     ['src/Geom/Geometric.hpp', 'src/Geom/PeriodicInfo.hpp', 'src/Geom/BoundaryCondition.hpp'],
     [('frames', 'src/Geom/Geometric.hpp: NormBuildLocalBaseV, RotateAxis, RotX, RotY, RotZ, FacialJacobianToNormVec'), ('periodic', 'src/Geom/PeriodicInfo.hpp: Periodicity; src/Geom/DiffTensors.hpp: CFVPeriodicity'), ('ids', 'src/Geom/BoundaryCondition.hpp: FaceIDIs*')])
prop('P02', 'Quadrature rules integrate polynomials of the stated order exactly',
     'For every element type and every requested order up to the maximum, the quadrature rule integrates every polynomial of that total degree exactly over the reference element, all its points lie inside the element, its weights sum to the reference volume, and every point is visited once, in order. The shape functions and gradients handed to the integrand are those of the element at that point, with or without cached buffers, and asking for a point beyond the rule is rejected.',
     ['inputs', 'configurations'], 'all element types, all integration orders up to INT_ORDER_MAX, all polynomials of the stated degree (symbolic coefficients); tabulated abscissae compared at 1e-12',
     'Tests integrate a constant or a geometry-specific field; a swapped abscissa or a mistyped digit only shows for particular monomials.',
     ['src/Geom/Quadrature.hpp', 'src/Geom/Elements.hpp'],
     [('rules', 'src/Geom/Quadrature.hpp: GetQuadratureScheme, GetQuadraturePoint, Quadrature::Integration, Quadrature::IntegrationSimple'), ('reference volume', 'src/Geom/Elements.hpp: ParamSpaceVol, ParamSpaceO1Elem')])
prop('P03', 'Element faces, elevation and subdivision tables describe one consistent geometry',
     'For every element type, the listed faces are exactly its sides, oriented outward, and close up around the element for arbitrary (also curved) node positions; node, face and dimension counts agree. Raising the order puts each new node at the centre of the sub-entity it is listed for, and bisecting a second-order element tiles it with positively oriented, conforming sub-elements in every variant, splitting along the shortest inner diagonal. VTK output keeps the node order of the VTK convention, two cells count as face-connected exactly when they share all vertices of a face, and indices beyond the tables are rejected.',
     ['inputs', 'configurations'], 'all element types, faces, elevated nodes, subdivision variants, arbitrary node coordinates for closure and diagonal choice, all vertex-sharing patterns for connectivity',
     'Tests touch a few element types through mesh files; a swapped node in one face of one element only shows on meshes with that element.',
     ['src/Geom/Elements.hpp', 'src/Geom/Elements.cpp'],
     [('faces', 'src/Geom/Elements.hpp: __Get_FaceNodeList, GetFaceType, Element::ExtractFaceNodes, cellsAreFaceConnected'), ('elevation', 'src/Geom/Elements.hpp: __Get_ElemElevationSpan_O1O2List, Element::ExtractElevNodeSpanNodes'), ('bisection', 'src/Geom/Elements.hpp: __Get_ElemO2BisectElementList, GetO2ElemBisectVariant'), ('output', 'src/Geom/Elements.hpp: ToVTKVertsAndData'), ('reference coordinates', 'src/Geom/Elements.cpp: GetStandardCoord')])
prop('P19', 'Time integrators reach their design order on every system of equations',
     'With a converged inner solver, each step of the implicit Euler, SDIRK4, ESDIRK4, SSPRK3, BDF1-4, variable-step BDF and Hermite integrators satisfies the order conditions of its stated order (to the digits of its published coefficients) for every system, time and step size, including start-up steps, reuse of the previous step and stage times for time-dependent systems. The residual handed to the inner solver always equals its constant part minus the state over the step plus the stated diagonal coefficient times the right-hand side, the positivity-preserving variants solve the same equation, and the step limiter never returns a longer step or a larger extrapolation than allowed.',
     ['inputs', 'histories'], 'all right-hand sides (through the extracted tableau), all times and step sizes, histories from the first step until the history buffer has wrapped around',
     'No test runs an integrator; a wrong coefficient or stale history buffer only lowers the observed order, which a single-resolution run cannot see.',
     ['src/Solver/ODE.hpp', 'src/Solver/Scalar.hpp'],
     [('Runge-Kutta', 'src/Solver/ODE.hpp: ImplicitSDIRK4DualTimeStep, ExplicitSSPRK3TimeStepAsImplicitDualTimeStep, ImplicitEulerDualTimeStep'), ('multistep', 'src/Solver/ODE.hpp: ImplicitBDFDualTimeStep, ImplicitVBDFDualTimeStep'), ('Hermite', 'src/Solver/ODE.hpp: ImplicitHermite3SimpleJacobianDualStep'), ('step limiter', 'src/Solver/ODE.hpp: LimitDt_StepPPV2; src/Solver/Scalar.hpp: BisectSolveLower')])

prop('P20', 'The local sparse direct solver solves the system it was given',
     'For every symmetric sparsity pattern, fill ordering and fill level, the symbolic factorization yields exactly the elimination pattern of that level with consistent row positions, and the block LU and LDL^T factorizations (both LU variants) reproduce the matrix on that pattern, exactly everywhere for the complete mode. Solving with the stored factors returns the vector whose product with the factors is the right-hand side, which is left unchanged; solving before factorizing and multiplying after it are rejected.',
     ['inputs', 'configurations'], 'all matrices and right-hand sides with invertible pivots; all symmetric patterns on up to 4 block rows, all orderings (structure: 24 orderings of 4; numerics: 6 orderings of 3 with 2x2 blocks, 3 orderings of 4), fill levels complete, 0, 1, 2',
     'No test factorizes a matrix; an index slip in the fill pattern or a transposed block only degrades a preconditioner, which an outer iteration hides.',
     ['src/Solver/Direct.hpp', 'src/DNDS/Defines.hpp'],
     [('symbolic factorization', 'src/Solver/Direct.hpp: SerialSymLUStructure::ObtainSymmetricSymbolicFactorization'), ('LU', 'src/Solver/Direct.hpp: LocalLUBase'), ('LDLT', 'src/Solver/Direct.hpp: LocalLDLTBase'), ('sparse row intersection', 'src/DNDS/Defines.hpp: iterateIdentical')],
     note='every obligation generated from the current source is discharged for all matrix entries and right-hand sides over exact real arithmetic; BOUNDED in the number of block rows (at most 4) and the block size (1 and 2): all patterns of that size are enumerated, larger matrices are not proved')
prop('P21', 'Krylov solvers return the optimal iterate of their search space',
     'Each GMRES cycle returns the vector minimizing the preconditioned residual over the initial guess plus the Krylov space, also when that space becomes invariant early (the solution is then exact) and when cycles are restarted. Preconditioned conjugate gradients produce conjugate directions and the energy-optimal iterate, reach the exact solution of an n-dimensional problem after n steps, and continue across calls until reset. The stop criterion is polled with the true residual norms once per cycle or step, stops the iteration when it says so, and an already converged guess is left untouched.',
     ['inputs', 'histories'], 'all operators, preconditioners, guesses and right-hand sides (in the Krylov/eigen basis), subspace sizes 1 and 2 on up to 3 unknowns, all stop positions and iteration limits up to 3',
     'No test runs the linear solvers; a non-optimal iterate still reduces the residual, so runs merely need more iterations.',
     ['src/Solver/Linear.hpp'],
     [('GMRES', 'src/Solver/Linear.hpp: GMRES_LeftPreconditioned::solve'), ('PCG', 'src/Solver/Linear.hpp: PCG_PreconditionedRes::solve')],
     note='every obligation generated from the current source is discharged for all operators and vectors of the stated dimensions over exact real arithmetic; BOUNDED in subspace size (<= 2) and dimension (<= 3); the dense least-squares solve is an assumed contract (normal equations)')
prop('P12', 'Size and index arithmetic is exact or rejected, never silently wrong',
     'Adding, narrowing and accumulating sizes and indices either returns the mathematical result or is rejected; a sum that does not fit is never returned wrapped. Converting an unsigned size or a 64-bit index to a narrower signed type is accepted exactly when the value fits, and accumulating row sizes yields the running sums starting at 0. Ceiling division, modulus (also of negative and real arguments), sign functions and the uniformity test return their mathematical values, and the intersection walk over two sorted lists visits exactly the common entries, each once, with its position in both lists, and stops when told to.',
     ['inputs'], 'all machine integers of the instantiated widths (bit-vector arithmetic); row-size lists up to 4 entries; ceiling division and modulus with both arguments free at 8 bits and fixed divisors at 32/64 bits; sorted lists up to 3 entries each',
     'Overflow needs values near the integer limits that no test mesh reaches.',
     ['src/DNDS/Defines.hpp'],
     [('checked arithmetic', 'src/DNDS/Defines.hpp: signedIntWillAddOverflow, signedIntSafeAdd, size_t_to_signed, checkedIndexTo32'), ('row starts', 'src/DNDS/Defines.hpp: AccumulateRowSize, checkUniformVector'), ('division', 'src/DNDS/Defines.hpp: divCeil, divide_ceil, mod, float_mod'), ('sorted intersection', 'src/DNDS/Defines.hpp: iterateIdentical')],
     note='every obligation generated from the current source is discharged over machine bit-vectors of the real width; BOUNDED in list lengths (<= 4) and, for ceiling division with two free arguments, in width (8 bits)')
prop('P08', 'Global numbering: every global index has exactly one owner and local index',
     'After all ranks state their local sizes, every rank holds the same offsets, which are the running sums of the sizes in rank order. Searching any global index finds the unique rank and local index that map back to it, and fails exactly when the index is negative or at least the global size, also with empty ranks anywhere; asking for a rank or local index outside the stated sizes is rejected.',
     ['inputs', 'configurations'], 'all local sizes and queried indices up to 2^40, empty ranks anywhere; 0 to 4 ranks',
     'Tests run with one size per rank count; empty ranks and indices on the boundary between ranks are never searched.',
     ['src/DNDS/IndexMapping.hpp', 'src/DNDS/MPI.hpp', 'src/DNDS/MPI.cpp'],
     [('offsets', 'src/DNDS/IndexMapping.hpp: GlobalOffsetsMapping::setMPIAlignBcast, search, operator()'), ('communicator', 'src/DNDS/MPI.cpp: MPI::Bcast; src/DNDS/MPI.hpp: MPIInfo')],
     note='every obligation generated from the current source is discharged for all sizes and indices (integer arithmetic with proved absence of overflow); BOUNDED in the number of ranks (<= 4); MPI itself is an assumed contract (include/vmpi.hpp)')
prop('P09', 'Ghost mapping: every requested entry gets one local slot and the right owner',
     'Whatever global indices the ranks ask for (in any order, repeated, local or foreign), the ghost list of each rank is exactly the set of requested indices sorted by owner and index, the push lists of the owners name exactly those entries in the matching order, and the counts and starts of both sides agree. Global-to-local search finds own entries and ghosts, local-to-global inverts it, anything else is reported as not found or rejected. In a mapping built from what owners push, the lists, counts and starts of both sides agree in the same way. No rank is left waiting.',
     ['inputs', 'configurations', 'histories'], 'all index values up to 2^40; 1 to 3 ranks; up to 3 requests or 2 pushes per pair; all interleavings of ranks (every matching is deterministic under the MPI contract)',
     'A mesh test only sees sorted requests without repeats and never a rank with nothing to ask.',
     ['src/DNDS/IndexMapping.hpp', 'src/DNDS/MPI.cpp'],
     [('pull mapping', 'src/DNDS/IndexMapping.hpp: OffsetAscendIndexMapping(pull), sort, search, search_indexAppend, searchInMain, operator()'), ('push mapping', 'src/DNDS/IndexMapping.hpp: OffsetAscendIndexMapping(push)')],
     note='every obligation generated from the current source is discharged for all index values; BOUNDED in ranks (<= 3) and requests per rank (<= 3); MPI itself is an assumed contract (include/vmpi.hpp)')
prop('P10', 'Row containers behave like a list of rows in every storage layout',
     'In each of the five storage layouts, after any sequence of resizing, row resizing, compressing, decompressing, copying and swapping, the container holds exactly the rows and values a plain list of rows would hold; copies and originals are independent afterwards. Access outside a row, resizing a row where the layout forbids it and resizing a compressed array are rejected, and row addresses are contiguous in row order. A father/son pair presents both parts as one index range.',
     ['inputs', 'histories', 'configurations'], 'all stored values; five layouts; up to 3 rows of up to 3 entries; histories of two rounds of reshaping and three operations',
     'Tests fill one array once; stale row tables after emptying, compressing and growing again need a history of operations.',
     ['src/DNDS/Array.hpp', 'src/DNDS/ArrayTransformer.hpp', 'src/DNDS/ArrayPair.hpp'],
     [('container', 'src/DNDS/Array.hpp: Array::Resize, ResizeRow, Compress, Decompress, CopyData, SwapData, operator(), operator[]'), ('pair', 'src/DNDS/ArrayPair.hpp: ArrayPair')],
     note='every obligation generated from the current source is discharged for all stored values; BOUNDED in rows (<= 3), row width (<= 3) and history length')
prop('P11', 'Ghost exchange copies exactly the owner data, in every layout and strategy',
     'After a pull every ghost row equals the row of its owner and owner data is untouched; after a push every owner row holds the data of a ghost row that names it and rows nobody pushes are untouched. This holds for all five storage layouts, for derived-type, in-situ-packed and one-by-one strategies, persistent or one-shot, repeated after the data changed, and for mappings built by pulling or pushing. Messages always fit, no rank waits forever, no entry outside the arrays is touched, and no request or datatype is leaked.',
     ['inputs', 'configurations', 'histories', 'schedules'], 'all stored values; 2 ranks with every pull pattern of two rows each, 3 ranks with seven patterns and three shapes incl. empty rows and empty ranks; all strategies',
     'The existing tests use one layout with the default strategy on one rank; pushes, empty rows and in-situ packing are never run.',
     ['src/DNDS/ArrayTransformer.hpp', 'src/DNDS/Array.hpp', 'src/DNDS/IndexMapping.hpp', 'src/DNDS/MPI.cpp', 'src/DNDS/MPI.hpp'],
     [('transformer', 'src/DNDS/ArrayTransformer.hpp: ArrayTransformer::createFatherGlobalMapping, createGhostMapping, createMPITypes, initPersistentPull, initPersistentPush, startPersistentPull, waitPersistentPull, pullOnce, pushOnce'), ('requests', 'src/DNDS/MPI.hpp: MPIReqHolder, MPITypePairHolder; src/DNDS/MPI.cpp: WaitallAuto')],
     note='every obligation generated from the current source is discharged for all stored values; BOUNDED in ranks (<= 3), rows and listed pull patterns; MPI itself is an assumed contract (include/vmpi.hpp: rendezvous completion, non-overtaking matching, collectives by call order)')
prop('P07', 'Typed rows (matrices, batches, adjacency) are faithful views of the raw rows',
     'Arrays of matrices (fixed, dynamic, per-row shapes), batches of matrices, vectors, adjacency lists and index arrays return exactly what was stored through them, with the stated row and column counts, after resizing, compressing and copying, and writing one matrix leaves every other one and every copy of the array unchanged. Shape mismatches are rejected, and the header packing of matrix sizes in a batch is exact or rejected.',
     ['inputs', 'configurations', 'histories'], 'all stored values and, for the packed header, all sizes; every combination of fixed/dynamic/per-row shapes the code instantiates; up to 3 rows of up to 3x3 matrices',
     'Tests store into one fixed-shape array; views with dynamic columns or shared row counts between copies are never read back.',
     ['src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp', 'src/DNDS/ArrayDerived/ArrayEigenMatrixBatch.hpp', 'src/DNDS/ArrayDerived/ArrayEigenUniMatrixBatch.hpp', 'src/DNDS/ArrayDerived/ArrayEigenVector.hpp', 'src/DNDS/ArrayDerived/ArrayAdjacency.hpp', 'src/DNDS/Array.hpp'],
     [('matrices', 'src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp: ArrayEigenMatrix'), ('batches', 'src/DNDS/ArrayDerived/ArrayEigenMatrixBatch.hpp: ArrayEigenMatrixBatch; ArrayEigenUniMatrixBatch.hpp'), ('vectors and adjacency', 'src/DNDS/ArrayDerived/ArrayEigenVector.hpp, ArrayAdjacency.hpp: AdjacencyRow')],
     note='every obligation generated from the current source is discharged for all stored values; BOUNDED in rows (<= 3) and matrix sizes (<= 3 x 3)')
prop('P22', 'Distributed solution vectors form a vector space with exact global reductions',
     'Assignment, scaling, addition, axpy, elementwise product and quotient, and per-component and per-cell scaling of mean-value, coefficient and gradient fields act on every owned and ghost entry as on one long vector. Norms, dot products, sums and minima are those of the whole distributed vector, each owned entry counted once and ghosts not at all, with the same result on every rank, also with empty ranks; mismatched sizes are rejected. Diagonal-block and LU/LDLT Jacobians multiply by what was stored and invert exactly what is stored now, after clearing, refilling and re-initialising in either mode.',
     ['inputs', 'configurations', 'histories'], 'all field values and scalars; 1 and 2 ranks in three size patterns incl. empty owners and no ghosts; diagonally dominant 2x2 blocks and all sparsity patterns on 3 rows for the Jacobians',
     'Tests never combine distributed vectors; counting ghosts in a norm or reusing an old inverse only changes convergence.',
     ['src/Euler/Euler.hpp', 'src/Euler/EulerJacobian.hpp', 'src/DNDS/MPI.hpp', 'src/DNDS/MPI.cpp', 'src/DNDS/ArrayPair.hpp', 'src/Solver/Direct.hpp'],
     [('vectors', 'src/Euler/Euler.hpp: ArrayDOFV, ArrayRECV, ArrayGRADV'), ('Jacobian blocks', 'src/Euler/EulerJacobian.hpp: JacobianDiagBlock'), ('factored Jacobians', 'src/Euler/EulerJacobian.hpp: JacobianLocalLU, JacobianLocalLDLT')],
     note='every obligation generated from the current source is discharged for all field values; BOUNDED in ranks (<= 2), rows per rank (<= 3), row shape (2x1, 2x2, 3x1) and block size (<= 2); MPI is an assumed contract (include/vmpi.hpp)')
prop('P23', 'What is written to a restart file is read back, on every rank and layout',
     'Scalars, strings, vectors (one part per rank, one for all, explicitly distributed, shared between arrays), arrays in all five layouts, arrays of matrices and batches, and owner/ghost pairs are read back from an HDF5 restart file with exactly the sizes, shapes and values each rank wrote, whatever the reader held before; shared vectors are shared again, and ghosts follow their owners again. Every rank makes the same sequence of collective calls, so no combination of empty ranks, chunking, compression or collective mode hangs. Sizes fixed at compile time on one side and at run time on the other convert when they agree and are rejected when they do not.',
     ['inputs', 'configurations', 'histories'], 'all stored values; 1 and 2 ranks with four size patterns incl. empty ranks; independent, collective and chunked/compressed I/O; every layout and the shapes the solver writes; readers fresh or holding other contents',
     'The serializer test writes a few full vectors in one mode; ranks with nothing to read, vectors freed while still referenced, and converted or per-row shapes are never written and read.',
     ['src/DNDS/SerializerH5.cpp', 'src/DNDS/SerializerH5.hpp', 'src/DNDS/SerializerBase.hpp', 'src/DNDS/Array.hpp', 'src/DNDS/ArrayPair.hpp', 'src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp', 'src/DNDS/ArrayDerived/ArrayEigenUniMatrixBatch.hpp', 'src/DNDS/ArrayDerived/ArrayEigenMatrixBatch.hpp', 'src/DNDS/ArrayTransformer.hpp'],
     [('back end', 'src/DNDS/SerializerH5.cpp: SerializerH5, WriteDataVector, ReadDataVector, H5_ReadDataset, H5_WriteDataset'), ('arrays', 'src/DNDS/Array.hpp: Array::WriteSerializer, ReadSerializer, ParseArraySignatureTuple, ArraySignatureIsCompatible'), ('typed arrays', 'src/DNDS/ArrayDerived/ArrayEigenMatirx.hpp: ArrayEigenMatrix::WriteSerializer, ReadSerializer; ArrayEigenUniMatrixBatch.hpp'), ('pairs', 'src/DNDS/ArrayPair.hpp: ArrayPair::WriteSerialize, ReadSerialize')],
     note='every obligation generated from the current source is discharged for all stored values; BOUNDED in ranks (<= 2), rows per rank (<= 3) and row width (<= 3); HDF5 and MPI are assumed contracts (include/vh5.hpp, include/vmpi.hpp); the JSON back end is only compiled, not under contract (its base64 dependency is not installed here)')

prop('P17', 'Face flux and source of the flow solver: exact for equal states, exact Jacobian',
     'For equal states on both sides of a face the solver puts through it exactly the physical flux: convection relative to the moving face, pressure, Newtonian stress, Fourier heat flux (none at an adiabatic wall), with the eddy viscosity, the isotropic turbulent stress and the diffusion of the turbulence variables of the chosen model. For different states it is the flux of the selected Riemann solver plus upwinded turbulence variables; the rotated scheme is the non-negatively weighted sum of the fluxes along and across the velocity jump. The Jacobians used by the implicit solver are the derivative of the exact flux plus the requested dissipation, and body force and frame rotation act as force, work and -Omega x rho v with matching Jacobian.',
     ['inputs', 'configurations'], 'all states, gradients, normals and face velocities; 2-D and 3-D, laminar, SA, Wilcox, SST, realizable k-epsilon; three viscosity laws; Roe variants and HLLC; up to 2 quadrature points; the rotated scheme at one angle per quadrant',
     'No test evaluates a face flux; a wrong component only shifts a solution slightly, in one model or scheme.',
     ['src/Euler/EulerEvaluator_EvaluateDt.hxx', 'src/Euler/EulerEvaluator.hpp', 'src/Euler/Gas.hpp', 'src/Euler/RANS_ke.hpp', 'src/Euler/EulerEvaluatorSettings.hpp'],
     [('flux', 'src/Euler/EulerEvaluator_EvaluateDt.hxx: EulerEvaluator::fluxFace'), ('source', 'src/Euler/EulerEvaluator_EvaluateDt.hxx: EulerEvaluator::source'), ('Jacobians', 'src/Euler/EulerEvaluator.hpp: fluxJacobian0_Right, fluxJacobian0_Right_Times_du, fluxJacobian0_Right_Times_du_AsMatrix, fluxJacobianC_Right_Times_du'), ('viscosity', 'src/Euler/EulerEvaluator.hpp: muEff, getMuTur, visFluxTurVariable')],
     note='every obligation generated from the current source is discharged over the reals; BOUNDED in quadrature points per face (<= 2) and, for the rotated scheme, in the angle between normal and velocity jump (one per quadrant); Riemann solvers and turbulence closures are used by their contracts P15 and P25 where the states differ')
prop('P25', 'Turbulence closures are the published functions, for every observer',
     'Eddy viscosity, diffusion of the turbulence variables, production, destruction, cross-diffusion and the diagonal of the source Jacobian of the Spalart-Allmaras (with its negative branch and rotation correction), Wilcox k-omega, Menter SST and realizable k-epsilon models equal the published functions of density, turbulence variables, wall distance and primitive gradients, in two and three dimensions. Hence they do not depend on the velocity of the observer nor, through the conserved variables, on density gradients.',
     ['inputs', 'configurations'], 'all densities, velocities, gradients, wall distances and positive turbulence variables (negative ones for SA)',
     'No test evaluates a turbulence model; a wrong coefficient or a missing density still converges.',
     ['src/Euler/RANS_ke.hpp'],
     [('k-omega', 'src/Euler/RANS_ke.hpp: GetMut_KOWilcox, GetVisFlux_KOWilcox, GetSource_KOWilcox'), ('SST', 'src/Euler/RANS_ke.hpp: GetMut_SST, GetVisFlux_SST, GetSource_SST'), ('k-epsilon', 'src/Euler/RANS_ke.hpp: GetMut_RealizableKe, GetVisFlux_RealizableKe, GetSource_RealizableKe'), ('SA', 'src/Euler/RANS_ke.hpp: GetSource_SA')],
     note='every obligation generated from the current source is discharged over the reals; exp, tanh and non-integer powers are uninterpreted functions; the published constants, limiters and floors selected by the macros of RANS_ke.hpp are part of the contract')

prop('P24', 'Boundary conditions put the right state outside every boundary face',
     'Slip walls and symmetry planes mirror the velocity relative to the wall and change nothing else; at no-slip walls the mean of both sides moves with the wall (with the frame or at rest, as configured) with the same density and pressure, the turbulence variables take their wall values in the mean, and the inner state changes only where documented. Far field and pressure outlet take the inner state, the outer pressure, the inner pressure or the far state according to the relative normal Mach number, also in a rotating frame, with anchored pressure and with a turning far field; inflow by total pressure and temperature has exactly those. The lift control turns the inflow by the angle of attack, moves it only when the lift settled, by the relaxed secant step, and reports convergence iff the lift stayed within tolerance over the window. Recorded integrals and profiles keep every amount.',
     ['inputs', 'configurations', 'histories'], 'all states, normals, points, times, rotation rates and axes; 2-D and 3-D, laminar, SA and two-equation models; user-defined and default boundaries; lift histories of up to 5 samples; profiles of 3 cells; 2 ranks',
     'No test evaluates a boundary state; most branches need a rotating frame, a subsonic inflow or a settled lift history.',
     ['src/Euler/EulerEvaluator_EvaluateDt.hxx', 'src/Euler/EulerEvaluator.hpp', 'src/Euler/EulerBC.hpp', 'src/Euler/CLDriver.hpp', 'src/Euler/EulerEvaluatorSettings.hpp', 'src/Geom/Geometric.hpp', 'src/Euler/Gas.hpp'],
     [('ghost states', 'src/Euler/EulerEvaluator_EvaluateDt.hxx: EulerEvaluator::generateBoundaryValue'), ('frames', 'src/Euler/EulerEvaluator.hpp: TransformURotatingFrame, TransformURotatingFrame_ABS_VELO, GetFaceVGrid'), ('tables and recorders', 'src/Euler/EulerBC.hpp: BoundaryHandler, IntegrationRecorder, AnchorPointRecorder, OneDimProfile'), ('lift control', 'src/Euler/CLDriver.hpp: CLDriver')],
     note='every obligation generated from the current source is discharged over the reals; BOUNDED for lift histories (<= 5 samples, window 2), profiles (3 cells) and ranks (2); sin, cos, exp and pow are uninterpreted; not covered: realizable k-epsilon wall value (needs the mesh), the special test-case boundaries except the vortex, reading the boundary table from JSON')
