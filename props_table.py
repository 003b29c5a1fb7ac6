prop("P01", "Set algebra, searching and merging on sorted arrays",
 "Searching a sorted array returns a position holding the element, or 'not found' only if it is absent; inserting into or removing from an array changes exactly that entry, shifts the rest and keeps the order; and intersection, difference, simultaneous iteration and k-way merging of sorted arrays visit every index exactly once, in order, and classify it by exactly the inputs that contain it. Reductions of a table's rows (sum, min, max, position of the maximum) return the value of the mathematical definition. Nothing outside the stated output is written.",
 "all lengths (including empty), all sorted contents, all element values, all insertion points, arrays with and without spare capacity",
 "Tests run a handful of meshes in which most neighbour lists are short and never empty or disjoint; the statement is about every pair of sorted lists, including boundary positions, empty operands and reallocation.",
 [A], [("find_in_sorted_array, merge_pos_in_sorted_array, insert_into_sorted_array(_nodups), sorted_insert_unique", A), ("iterate_ABC, iterate_AC, iterate_anotb, iterate_intersection, intersect_sorted_arrays, setMinus", A), ("merge_arrays, merge_arrays_lh, mergeFlatArrays, merge_a_into_b", A)],
 obs=["return values and output arrays"], tech=TECHB,
 note="Proved for every input up to length 2^30 for the functions listed under functions_under_contract; the row-wise k-way merges and table reductions (bounded_contracts) are only checked on enumerated and random inputs. Trusted: the VC generator, clang/opt, the solvers; termination is not proved.")
prop("P02", "Applying and inverting permutations loses and duplicates nothing",
 "Reordering an array by a permutation moves entry i to the place the permutation names, in place or through a buffer, and leaves the array a rearrangement of the same entries; the form that keeps the permutation leaves it as it was, and the inverse permutation undoes the permutation. Nothing else is written.",
 "all lengths, all permutations (all cycle structures), all array contents",
 "The in-place forms follow cycles and mark visited entries, so their behaviour depends on the cycle structure; tests exercise the few permutations their meshes produce.",
 [A], [("ApplyPermutation (in place / with buffer), ApplyAndKeepPermutation, InvertPermutation", A)], obs=["array and permutation after the call"],
 note="Proved for every permutation of up to 2^30 entries; the permutation property of the argument is a precondition.")
prop("P03", "Rigid-body transformations act exactly as their matrix says",
 "Transporting degrees of freedom between two points is the exact affine rigid-body transport: identity on displacements, lever arm for rotations, rotation scaling applied to the rotational part; transports compose along any three points, and the two directions between a pair are mutually inverse and meet in one common mid point. Every specialised product with a transport (from the left, from the right, two-sided, scaled or accumulated, for 2D and 3D elasticity and for scalar problems with any number of components) equals the dense matrix product it stands for.",
 "all point positions, all positive rotation scalings, all matrices (symmetric for the two-sided products), all scale factors, dimensions 2 and 3",
 "Tests only observe convergence of whole solves, and preconditioned solves still converge with a slightly wrong transport; most of the specialised products are not reached with scalings different from one.",
 [EL, "src/elasticity/elasticity_energy_impl.hpp", H1, "src/h1/h1_energy_impl.hpp"],
 [("TQ::MQ, QTM, QTMQ, QMQT, SetQ and their scaled/returning forms", EL), ("GetQiToj, GetQijQji, CalcQ*, ModQ*, CalcInvQs, CalcMPData(WW)", "src/elasticity/elasticity_energy_impl.hpp"), ("QtMQ, AddQtMQ, SetQtMQ, CalcMQ, AddMQ, CalcQTM, AddQTM", EL)],
 state=[("relative rotation scaling, scaled tangent", "the two numbers a transport is stored as", EL)], obs=["the matrices returned or updated"],
 note="Proved for all real inputs by polynomial/rational normal forms (Positivstellensatz-free: identities only); doubles are treated as exact reals, replay compares with relative tolerance.")
prop("P04", "Edge energy blocks are symmetric and vanish on rigid-body motions",
 "The contribution of an edge to the replacement operator is a symmetric 2x2 block matrix that maps every rigid-body motion of the vertex pair (every constant, for scalar problems) to zero; its blocks are exactly the edge weight transported to the two ends from the common mid point, for every way of requesting them (call-back, row only, matrix). Weights written into vertex and edge data are read back unchanged.",
 "all vertex positions and rotation scalings, all symmetric edge weights, dimensions 2 and 3, scalar problems with 1, 2, 3 components",
 "The kernel of the edge block is a statement over all positions and weights; tests only see that solves converge, which a small kernel defect does not prevent.",
 [EL, "src/elasticity/elasticity_energy_impl.hpp", H1, "src/h1/h1_energy_impl.hpp"],
 [("CalcRMBlock, CalcRMBlockRow, CalcRMBlock2", EL), ("SetEMatrix, GetEMatrix, SetVMatrix, GetVMatrix, GetApproxWeight", EL), ("the scalar counterparts", H1)],
 obs=["the four blocks handed out"], note="Proved for all real inputs by polynomial/rational normal forms; doubles are treated as exact reals.")
prop("P06", "Values packed into communication buffers are recovered unchanged",
 "Packing a value into a buffer and unpacking it gives back exactly the same value, for scalars, vectors, square matrices, tuples and the elasticity vertex data in both dimensions. The number of entries written, the number read and the announced size agree, so that values packed one after the other do not overlap and come back in order.",
 "all values, all sizes used (1 to 6 components, both space dimensions), sequences of two values", "The parallel tests only observe converged solves, and a value that overlaps its neighbour in a buffer is only noticed for particular data; most value types are never packed by the tests.",
 ["src/base/utils/utils_buffering.hpp", "src/elasticity/elasticity_mesh.hpp"], [("PackIntoBuffer / UnpackFromBuffer / SIZE_IN_BUFFER", "src/base/utils/utils_buffering.hpp"), ("ElastVData", "src/elasticity/elasticity_mesh.hpp")],
 obs=["buffer contents and returned sizes"], note="Proved for all real inputs (symbolic execution to identities); sequences of two values, longer ones follow because the position only depends on the returned size.")
prop("P07", "Level-specific options give each level its special value or the default",
 "Asking an option for a level returns that level's special value if one was set and the default otherwise, for every level. Copying, moving and assigning an option keep that answer on every level, and combining two switches with |= is on at a level exactly where one of them is on. An option configured from user flags has the values the flags name: the given default, the listed values on the first levels, unknown enumeration names and absent flags leave the old values.",
 "all levels, all numbers of special values (fewer, equal or more than the other operand), all values; for flags: enumerated combinations of present/absent default and list",
 "Tests set a few options once; whether a copied or combined option still answers correctly on every level is never looked at.",
 ["src/base/utils/SpecOpt.hpp"], [("SpecOpt::GetOpt, constructors, operator=, operator|=", "src/base/utils/SpecOpt.hpp"), ("SpecOpt::SetFromFlags, SetFromFlagsEnum, SetEnumOpt", "src/base/utils/SpecOpt.hpp")],
 obs=["GetOpt on every level"], tech=TECHB, note="Value semantics proved for every number of special values up to 2^20 and every level; configuration from Flags (NGSolve's parser and symbol tables are outside the verifier's reach) is bounded.")
prop("P17", "Tuples are totally ordered lexicographically",
 "The order on integer tuples of length two to five is the lexicographic one, hence a strict total order: sorting and searching faces, edges and cells by their vertex tuples is well defined. Adding tuples is component-wise.",
 "all integer values", "Only small meshes with few coinciding leading components are sorted by the tests; a comparison that is no order shows for particular tuples only.",
 ["src/base/utils/utils.hpp"], [("operator<, operator+= on IVec", "src/base/utils/utils.hpp")], obs=["result of the comparison"], tech=TECHB, note="Proved for all 32-bit values.")
prop("P09", "Smoothers perform exactly their iteration and keep the residual true",
 "A Gauss-Seidel sweep, forward or backward, over all rows, a range or a subset, replaces the entries in that order by the value that solves their (block) row with the current other entries, leaves all other entries alone, and in residual form leaves exactly the residual of the new iterate. For Gauss-Seidel (plain and compressed, with own or replaced diagonal), Jacobi, Richardson, repeated/symmetrised and Hiptmair smoothers, the new iterate does not depend on whether the residual was handed in, is wanted back or the start vector is announced as zero, and a residual that is wanted back is b - A x for the new x. The Gauss-Seidel smoothers' MultAdd adds the scaled diagonal correction on the smoothed entries.",
 "all sizes, sparsity patterns, block sizes 1, 2, 3, subsets, ranges and real values for the sweeps; for the public interfaces enumerated and random symmetric systems of up to 5 block rows with all flag combinations and up to three repetitions",
 "Tests only look at the convergence of whole solves; a sweep that skips an entry, uses a stale one or leaves a slightly wrong residual still converges, and most flag combinations are never used.",
 ["src/base/smoothers/gssmoother.cpp", "src/base/smoothers/base_smoother.cpp", "src/base/smoothers/base_smoother.hpp"],
 [("GSS3::SmoothRHSInternal, SmoothRESInternal, Smooth, SmoothBack, SetUp, CalcDiags, MultAdd", "src/base/smoothers/gssmoother.cpp"), ("GSS4 (same)", "src/base/smoothers/gssmoother.cpp"), ("RichardsonSmoother, JacobiSmoother, HiptMairSmoother", "src/base/smoothers/base_smoother.cpp"), ("BaseSmoother::SmoothSymm(K), SmoothK, SmoothBackK, ProxySmoother", "src/base/smoothers/base_smoother.hpp")],
 obs=["iterate, residual"], tech=TECHB, note="The sweeps (functions_under_contract) are proved for every matrix, subset and vector, doubles treated as exact reals; set-up, flags and the remaining smoothers (bounded_contracts) are checked on enumerated and random small systems with tolerance 1e-8.")
prop("P05", "Dense block algebra computes what it is named after",
 "Products, congruences and their scaled accumulation, traces, identities, embedding, extraction and accumulation of blocks, conversion between block and scalar storage compute exactly the named expression and touch nothing else. The pseudo-inverses return the Moore-Penrose inverse of a symmetric positive semi-definite matrix (those that try a direct inversion first: of a non-singular matrix or one whose kernel is spanned by coordinate directions; the zero matrix stays zero), direct inversions return the inverse or report failure and leave the matrix alone, the definiteness checks decide definiteness, regularisation lifts exactly the kernel of the block, and the generalised eigenvalue and spectral-equivalence measures return the stated eigenvalue.",
 "block sizes 1, 2, 3 and 6: all real entries (products, traces, transfers, identities, conversions); decompositions: symmetric matrices up to 9 (55 for the direct inverses) rows of any rank, scales 1e-4 to 1e5", "Tests see only preconditioners on a few meshes, where a wrong pseudo-inverse or definiteness decision is absorbed by the outer CG iteration and a scale factor is mostly 1.",
 ["src/base/utils/utils_denseLA.hpp", "src/base/utils/utils_denseLA.cpp", "src/base/utils/utils.hpp"],
 [("TripleProd, AddTripleProd, AT_B_A, Add_AT_B_A, addTM, setFromTM, mat_to_scal, ToFlat, CalcPseudoInverse*, MEV, MIN_EV_*, RegTM, DenseEquivTestAAA", "src/base/utils/utils_denseLA.hpp"), ("CheckForSPD, CheckForSSPD, TryDirectInverse*, CalcPseudoInverseNew, CPI_TN", "src/base/utils/utils_denseLA.cpp"), ("SetIdentity, SetScalIdentity, calc_trace", "src/base/utils/utils.hpp")],
 obs=["the matrix written and the value returned"], tech=TECH + "; the functions that call LAPACK have bounded contracts (checked on generated inputs against a spectral oracle, not proved)", note="LAPACK is external: pseudo-inverses, definiteness checks and eigenvalue measures are bounded; doubles compared with tolerances 1e-5 to 1e-8 (single precision 2e-2).")
prop("P08", "Sparse matrix kernels compute the dense operation",
 "Transposes, sums with scale factors, products (also with the values updated on a kept pattern), Galerkin products and their factors, compression, restriction to blocks, permutation matrices, and the conversion of transposed, summed, multiplied, scaled, embedded, identity and block expressions to one sparse matrix have exactly the entries of the dense operation: dimensions, pattern (structural, or the entries above the threshold for compression), sorted rows and values.",
 "enumerated and random matrices of up to 7 block rows (products: up to 9000 columns, including columns that collide in the hash table), entry sizes up to 6x6, all listed operations", "Tests assemble a handful of grids; a dropped sign, a hash collision, a rectangular or identity operand, or a threshold that only looks at signs does not show in convergence.",
 ["src/base/linalg/utils_sparseLA.cpp", "src/base/linalg/utils_sparseLA.hpp", "src/base/linalg/utils_sparseMM.cpp"],
 [("TransposeSPM, TransposeAGeneric, AddABGeneric, CompressAGeneric, restrictMatrixToBlocks, BaseMatrixToSparse, BuildPermutationMatrix", "src/base/linalg/utils_sparseLA.cpp"), ("MatMultAB, MatMultABUpdateVals, RestrictMatrix(KeepFactor)", "src/base/linalg/utils_sparseMM.cpp")],
 obs=["the resulting sparse matrix"], tech="contracts on the real functions over NGSolve matrices, each checked on bounded inputs against the dense definition (bounded, not proved: the functions build NGSolve objects, which the verification-condition generator does not reach)", note="Bounded: matrices of at most 7 block rows, enumerated and random; doubles compared with tolerance 1e-11.")
SM = "src/base/smoothers/"; DB = "src/base/linalg/dyn_block"
prop("P10", "Block smoothers and the dynamically blocked sparse matrix",
 "Block Gauss-Seidel (BSmoother; BSmoother2 with overlapping, grouped or disjoint covering blocks; DynBlockSmoother with free dofs and relaxation) performs in each sweep, in the promised block order, exactly the successive corrections x_B += omega inv(D_B) (b - A x)_B, with the (pseudo-)inverse of the diagonal block or its replacement; backward sweeps reverse the order, symmetric ones append it; all flags (residual up to date, update residual, zero start) give the same iterate and a requested residual is b - A x; MultAdd adds the scaled block corrections. The dynamically blocked matrix stores every entry of the original exactly once, in blocks of rows with equal columns, and its Mult/MultAdd are those of the original.",
 "random symmetric systems of 1-6 block rows (entries 1x1, 2x2, 3x3) with up to 5 blocks of up to 3 vertices, all flag combinations, 1-3 steps, singular blocks with pseudo-inverse; blocked matrices up to 9x9 with every kind of blocking, empty rows, free-dof masks", "Block smoothing in the wrong order, with a stale residual or a block that is inverted wrongly still converges on the test problems; only the iteration count or the final residual check of another component suffers.",
 [SM + "block_gssmoother.cpp", SM + "loc_block_gssmoother.cpp", SM + "loc_block_gssmoother_impl.hpp", SM + "dyn_block_smoother.cpp", DB + ".hpp", DB + ".cpp", DB + "_impl.hpp"],
 [("BSmoother", SM + "block_gssmoother.cpp"), ("BSmoother2", SM + "loc_block_gssmoother_impl.hpp"), ("DynBlockSmoother", SM + "dyn_block_smoother.cpp"), ("DynBlockSparseMatrix, ConvertToDynSPM", DB + ".cpp")],
 obs=["the iterate and the residual after a sweep", "the vector added to by MultAdd", "entries and products of the blocked matrix"], tech="contracts on the real classes over NGSolve matrices and vectors, each checked on bounded inputs against the dense definition of the sweep (bounded, not proved: the classes build NGSolve objects, which the verification-condition generator does not reach)", note="Bounded: systems of at most 6 block rows / 9 scalar rows; one thread; doubles compared with tolerance 1e-8. The disjoint variant is checked with regular blocks that cover all rows.")
AU, AI = "src/base/coarsening/agglomerator_utils.hpp", "src/base/coarsening/spw_agg_impl.hpp"
prop("P20", "Strength-of-connection measures used for pairing and agglomeration",
 "The measures by which vertices are paired and agglomerates joined have their defining value: the pair and aggregate-wide stability checks accept exactly when edge energy minus rho times (harmonic mean of the diagonals / diagonal off the rigid-body modes) is semi-definite; the robust strength is the smallest generalised eigenvalue off the kernel; the neighbour boost adds transported parallel sums over common neighbours; the block matrix of an agglomerate is the sum of its edge contributions; the scalar measures, means and vertex dominance test are the stated quotients. The three-step neighbour choice returns an admissible neighbour over all thresholds whose weight no other such neighbour exceeds, and none only if there is none.",
 "random configurations of 1-7 vertices with positions, rotation scalings, edge and diagonal matrices (dimensions 2 and 3 and scalar), all operations; neighbour choice: all admissibility patterns and weights on a grid, up to 6 neighbours", "A wrong transport, eigenvalue problem or threshold changes which vertices are merged; the tests only see iteration counts of a few problems that tolerate another agglomeration.",
 [AU, AI], [("MinGEV, PairStabilityCheck(WInv), CalcRobustPairSOC(ViaInvs), AssembleAhatBlock, AggregateWideStabilityCheck, AddNeibBoost, AddL2Boost, PrepRobSOC, CheckRobSOC, CalcRobSOC, CheckRobJoinSOC, CalcRobJoinSOC, CalcApproxSOC, CalcApproxJoinSOC, CheckVertexWeight, Average, HalfHarmonicAvg", AU), ("FindNeib3Step", AI)],
 obs=["the value or decision returned, the matrix written, the neighbour chosen"], tech="contracts on the real functions, each checked on bounded inputs against a spectral oracle (scalar, query or copy functions: proved; the rest bounded, not proved: the functions solve eigenvalue problems with LAPACK, which the verification-condition generator does not reach)", note="The scalar means and strengths are proved for all positive inputs; the rest is bounded: configurations of at most 7 vertices, random; decisions are only checked where the deciding eigenvalue is away from rounding (1e-4 relative, non-zero eigenvalues positive beyond 1e-2).")
DOFM, AMGM = "src/base/coarsening/dof_map.cpp", "src/base/solve/amg_matrix.cpp"
prop("P18", "Transfers between levels compose to the product of the prolongations",
 "Every step of a DOF map (prolongation, several maps in one step, concatenated steps, blocked prolongation with its transposed) restricts with the transposed of its prolongation and prolongates with the prolongation; the Add variants add the scaled result. Going from level a to level b - step by step, with TransferAtoB, a (symbolic or multiplied) concatenation, a sub-map, or steps made into one - applies the product of the prolongations in between or its transposed, however the map was built (appended, prepended, replaced steps, a replaced prolongation). The level matrices are the Galerkin products P^T A P, one after the other. Inputs are left alone.",
 "random maps with 2-5 levels of at most 7 (decreasing) block rows, block sizes 1, 2, 3, 6 changing between levels, kinds of steps mixed at random, empty rows and columns, symmetric and unsymmetric fine matrices", "A transfer with the wrong factor, order or transposed gives a weaker preconditioner that still converges; the composed forms are not used by the tests at all.",
 [DOFM, "src/base/coarsening/dof_map.hpp"], [("ProlMap, BaseProlMap, DynBlockProlMap, MultiDofMapStep, ConcDMS: TransferF2C, AddF2C, TransferC2F, AddC2F, AssembleMatrix, Concatenate, ConcatenateFromLeft, CanConcatenate", DOFM), ("DOFMap::TransferAtoB, ConcStep, SubMap, ReplaceStep, PrependStep, AssembleMatrices, MakeSingleStep2, MakeSingleStep3", DOFM)],
 obs=["the vector a transfer writes", "the level matrices"], tech="contracts on the real classes, each checked on bounded inputs against dense products (bounded, not proved: virtual steps over NGSolve matrices and vectors are outside what the verification-condition generator reaches)", note="Bounded: at most 5 levels of 7 block rows; one process, so vectors carry no parallel status.")
prop("P15", "A multigrid cycle is the textbook recursion",
 "AMGMatrix applies, for the selected cycle, exactly: V: pre-smooth from zero, restrict the residual, recurse, add the prolongated correction, post-smooth backward; W: two coarse corrections with a backward and a forward sweep in between; BS: a V-cycle as the smoother on every level; on the coarsest level the coarse inverse (zero if there is none). SmoothVFromLevel and AMGSmoother (also with a single smoothing step: coarse correction then forward sweep, backward sweep then coarse correction) give the same iterate for all flags, and a requested residual is b - A x. EmbeddedAMGMatrix wraps the cycle between embedding and finest-level smoother. MultAdd adds the scaled result; repeated calls are independent. CINV is P C P^T, GetBF the prolongated unit vector and nothing for an index that does not exist.",
 "random hierarchies of 2-5 levels (at most 7 block rows, entries 1x1, 2x2, 3x3) with Galerkin matrices, Gauss-Seidel, Jacobi, repeated and symmetric smoothers, free-dof masks, with coarse inverse, without, or with none set; all cycles, flags and start levels", "A cycle with stale residuals, a forgotten correction or a forward instead of a backward post-smoothing still converges in the tests, only slower or unsymmetrically.",
 [AMGM, "src/base/solve/amg_matrix.hpp", "src/base/smoothers/base_smoother.hpp"], [("AMGMatrix: SmoothV, SmoothW, SmoothBS, SmoothVFromLevel, Mult, MultTrans, MultAdd, MultTransAdd, CINV, GetBF", AMGM), ("EmbeddedAMGMatrix: Mult, MultTrans, MultAdd, MultTransAdd, CINV, GetBF", AMGM), ("AMGSmoother::Smooth, SmoothBack", AMGM)],
 obs=["the vector a cycle returns", "the residual vector", "base functions"], tech="contracts on the real classes, each checked on bounded inputs against the recursion on dense matrices (bounded, not proved: virtual smoothers and maps over NGSolve matrices and vectors are outside what the verification-condition generator reaches)", note="Bounded: at most 5 levels of 7 block rows; one process; hierarchies whose level matrices have condition below 1e4; doubles compared with a tolerance relative to the largest intermediate value.")
D = "src/base/distributed/"
prop("P16", "Equivalence classes and table exchange agree on all ranks",
 "An EQCHierarchy (built from the DOF exchange pattern, a table of neighbours, or sets known to only some of their members) has on every rank exactly one class per set of ranks that share something, ordered by size, the local one first; a class exists on all its members under one identifier unique to it; master, neighbours, merged and common class and the order are those of the sets; with cut/union the classes are closed under intersection and under unions inside a class. ReduceTable, ScatterEqcData, ScatterEQCData/Array, GatherEQCData, PartitionData and the table, sparse matrix and DOF exchanges deliver every row complete, in the order of the ranks and once, for any message schedule; nobody waits for ever and no message is left over.",
 "1-5 ranks, up to 6 random sets of ranks, rows of varying and zero length, all operations; seeded schedules of the ranks, sends eager, rendezvous or mixed as MPI permits", "The tests run on one process: no message is ever sent there. A class missing on one rank or a send buffer reused too early shows only for some sets, sizes and schedules.",
 [D + "eqchierarchy.cpp", D + "eqchierarchy.hpp", D + "reducetable.hpp", D + "mpiwrap_extension.hpp"],
 [("EQCHierarchy constructors, SetupFromInitialDPs, SetupFromDPs, ScatterEQCData, ScatterEQCArray, PartitionData", D + "eqchierarchy.cpp"), ("ReduceTable, ScatterEqcData, GatherEQCData", D + "reducetable.hpp"), ("NgsAMG_Comm::Send, ISend, Recv, Bcast, Gather, MyAllReduceDofData, ExchangePairWise*", D + "mpiwrap_extension.hpp")],
 obs=["classes, identifiers, masters and lattice on every rank", "the rows every rank ends up with", "deadlock, lost messages"], tech="contracts on the real functions, run on several ranks over an in-process message passing with seeded schedules and checked on bounded inputs against the sets (scalar, query or copy functions: proved; the rest bounded, not proved: the functions communicate, which the verification-condition generator does not reach)", note="The queries of the class hierarchy (master, class with given ranks, union and intersection tables) are proved for all inputs; the rest is bounded: at most 5 ranks and 6 sets. Message passing is fakempi.h behind NGSolve's MPI function table (non-overtaking, eager or rendezvous); it is trusted. The constructor from a MeshAccess is not covered.")
ME, CO = "src/base/mesh/base_mesh.", "src/base/coarsening/"
prop("P12", "Distributed meshes and agglomerate coarsening agree on all ranks",
 "A block mesh set up from nodes and equivalence classes has on all ranks of a node the same node in the same class at the same position there, edges in the smallest class containing both ends, edge-vertex relations and edge connectivity consistent, and iteration (by class, master only) visits every node once; attached data is cumulated, distributed, reduced and mapped to the sum or the copy over the ranks. The coarse mesh of an agglomeration has on all ranks the same vertex for every agglomerate and one edge for every pair of agglomerates joined by an edge; maps and reverse maps agree with it. MIS and pairwise agglomerates hold every free vertex once (only the documented droppings excepted), no fixed one, given ones as given, only vertices the agglomerating rank may take, connected by allowed edges; coarse weights sum up those of the fine level.",
 "1-4 ranks, up to 24 vertices in up to 6 classes with random edges, free, solid, allowed and given sets, weights over 5 decades, all options; given random agglomerates; seeded schedules", "The tests run on one process; a vertex numbered differently on two ranks, an agglomerate crossing the ranks of its center or joined over a forbidden edge appears only for some partitions.",
 [ME + "hpp", ME + "cpp", CO + "base_coarse.cpp", CO + "agglomerate_map.cpp", CO + "mis_agg_impl.hpp", CO + "spw_agg_impl.hpp", "src/h1/h1_impl.hpp"],
 [("BlockTM: SetVs, SetNodes, SetEQOS, Apply*, AllreduceNodalData, ScatterNodalData, GetEQCOfNode, moved", ME + "hpp"), ("AttachedNodeData: Cumulate, Distribute", ME + "hpp"), ("BaseAgglomerateCoarseMap: BuildMappedMesh, MapVerts, MapEdges, GetMap, GetMapC2F", CO + "agglomerate_map.cpp"), ("MISAgglomerator::FormAgglomerates", CO + "mis_agg_impl.hpp"), ("SPWAgglomerator::FormAgglomerates, LocCoarseMap", CO + "spw_agg_impl.hpp"), ("H1VData, H1EData: map_data", "src/h1/h1_impl.hpp")],
 obs=["nodes, classes and data of a mesh on every rank", "agglomerates, coarse mesh, maps", "deadlock, lost messages"], tech="contracts on the real classes, run on several ranks over an in-process message passing with seeded schedules and checked on bounded inputs against the global mesh (scalar, query or copy functions: proved; the rest bounded, not proved: the functions communicate and build NGSolve objects, which the verification-condition generator does not reach)", note="The class and number of every node (GetEqcOf*, Map*) is proved for all meshes; the rest is bounded: at most 4 ranks and 24 vertices; scalar energy for the agglomerators. Message passing is fakempi.h behind NGSolve's MPI function table; it is trusted.")
VF, AX, EI = "src/base/factory/vertex_factory_impl.hpp", "src/base/factory/aux_mat.hpp", "src/elasticity/elasticity_impl.hpp"
prop("P19", "Prolongations keep the near-kernel; coarse energies are the Galerkin energies",
 "For H1 (scalar, vector) and elasticity (2d, 3d), on every rank alike: the coarse mesh's energy (edge matrices at the midpoints, vertex weights, positions, rotation scalings) equals the fine energy restricted to the piecewise prolongation, P^T A P, edges to dropped vertices included; the assembled replacement matrix is the sum of these energies. A row of the piecewise prolongation is the rigid body motion of its coarse vertex; a smoothed row (auxiliary or semi-auxiliary matrix, also improved) reproduces rigid body motions / constants whenever the matrix used for it vanishes on them, equals the piecewise row minus omega times the inverse diagonal times the matrix on it, keeps the entry of the own coarse vertex, respects the limit of entries per row and only uses coarse vertices that live on all ranks of the row. Dropped vertices get empty rows.",
 "1-4 ranks, meshes of up to 24 vertices with random positions, rotation scalings, definite and semi-definite edge matrices, vertex weights, Dirichlet vertices, system matrices with extra couplings, MIS and pairwise agglomerates, all prolongation types, random limits, thresholds, relaxation; seeded schedules", "A lost or misplaced weight or a row that misses the rigid body motions slightly still gives a convergent, slower preconditioner; across ranks the tests never look.",
 [VF, AX, EI, "src/elasticity/elasticity_energy_impl.hpp", "src/h1/h1_impl.hpp", CO + "mis_agg_impl.hpp", CO + "spw_agg_impl.hpp"],
 [("VertexAMGFactory: PWProlMap, AuxSProlMap, SemiAuxSProlMap, BuildCoarseMap, BuildCoarseDOFMap; ImproveSProlRow", VF), ("AssembleAhatSparse", AX), ("AttachedEVD::map_data, AttachedEED::map_data", EI), ("H1VData, H1EData: map_data", "src/h1/h1_impl.hpp")],
 obs=["entries of the prolongations", "weights, positions and edge matrices of the coarse mesh"], tech="contracts on the real factories, run on one or several ranks over an in-process message passing and checked on bounded inputs against dense linear algebra on the global mesh (bounded, not proved: the factories communicate and build NGSolve objects, which the verification-condition generator does not reach)", note="Bounded: at most 4 ranks and 24 vertices; rows whose diagonal block is close to singular are not compared; doubles compared with relative tolerances 1e-6 to 1e-12. The step formula is not checked for improved rows, nor for auxiliary rows with semi-definite edges. The embedded smoothed prolongation (use_emb_sp) is not covered.")
LA, SMO = "src/base/linalg/", "src/base/smoothers/"
prop("P11", "Parallel vector exchange, hybrid matrices and hybrid smoothers are consistent",
 "Exactly one of the ranks of an entry is its master; both ranks of an exchange list the same entries in the same order; concentrating a distributed vector leaves the sum on the master and zeros elsewhere, cumulating it then gives every rank the value, so the value of a vector survives any sequence of exchanges. Splitting a distributed sparse matrix into master and coupling part keeps the sum: the master part is the diagonal block of the matrix, products (plain, transposed, adding, any parallel status of the arguments) are those of the whole matrix. A hybrid smoother (Gauss-Seidel, local inverse, block, dynamic block; forward and backward, with or without overlap, from any iterate, with or without an up-to-date residual): changes free entries only, alike on all ranks, keeps the right hand side, returns the residual of the new iterate if asked, does not increase the energy of the error on positive definite matrices, and stepping backward is the adjoint of stepping forward; its modified diagonal is a multiple (at least one) of the diagonal; Gauss-Seidel and local inverse are the step their definition says.",
 "1-5 ranks, up to 12 block entries (1, 2, 3 components) shared by up to 3 ranks, matrices with parts on any of the ranks, symmetric and not, positive definite for smoothers; free sets, block partitions, one to three local steps; seeded message schedules", "The stable tests run on one or few ranks and only look at iteration counts; an entry sent to the wrong place, a lost off-diagonal or a residual that is wrong for one status still converges.",
 [LA + f for f in ("dcc_map.cpp", "dcc_map.hpp", "hybrid_matrix.cpp", "hybrid_matrix.hpp")] + [SMO + f for f in ("hybrid_base_smoother.cpp", "hybrid_base_smoother.hpp", "hybrid_smoother.cpp", "hybrid_smoother.hpp", "hybrid_smoother_utils.hpp", "gssmoother.cpp", "block_gssmoother.cpp", "dyn_block_smoother.cpp")],
 [("DCCMap, BasicDCCMap, ChunkedDCCMap", LA + "dcc_map.cpp"), ("HybridMatrix, DynamicBlockHybridMatrix, HybridBaseMatrix", LA + "hybrid_matrix.cpp"), ("HybridBaseSmoother::Smooth, SmoothBack", SMO + "hybrid_base_smoother.cpp"), ("HybridGSSmoother", SMO + "gssmoother.cpp"), ("HybridDISmoother, HybridSmoother::CalcModDiag", SMO + "hybrid_smoother.cpp"), ("HybridBS", SMO + "block_gssmoother.cpp"), ("HybridDynBlockSmoother", SMO + "dyn_block_smoother.cpp")],
 obs=["vectors and their parallel status after the call", "entries of the split matrices"], tech="contracts on the real classes, run on one or several ranks over an in-process message passing and checked on bounded inputs against dense linear algebra on the global system (scalar, query or copy functions: proved; the rest bounded, not proved: the classes communicate and run inside NGSolve vectors, which the verification-condition generator does not reach)", note="The copy loops between vectors and exchange buffers are proved for all inputs; the rest is bounded: at most 5 ranks and 12 entries; doubles compared with relative tolerance 1e-8. Communication in the background thread is not covered, nor are transposed products of the dynamic block matrix (it throws). With symmetric local stages each direction is its own adjoint, and that is what is checked.")
prop("P13", "Redistribution to fewer ranks keeps the mesh, the data and the operator",
 "When groups of ranks hand their part of a mesh to the first of them, the result is the same distributed mesh on the communicator of the groups: every vertex and edge is there once, on exactly the groups with a rank that had (or, for an edge, has both ends of) it; class, order and orientation agree on all groups; the maps of all members lead to the node they come from, marking reversed edges. Data attached to nodes keeps its value and status. Transferring a vector to the masters (also added with a factor) and back keeps its value whatever its status, and the assembled matrix of a master is the sum of the matrices of its group, so the redistributed matrix is the matrix.",
 "1-5 ranks, any grouping of them (an idle rank 0 stays alone), meshes of up to 12 vertices and vectors of up to 12 block entries (1, 2, 3 components) on arbitrary sets of up to 3 ranks, cumulated and distributed data and vectors, matrices with parts on any rank; seeded message schedules", "Redistribution needs several ranks and levels; the stable tests run on one. Edges whose set of ranks changes and data given in parts only arise for particular groupings, and a wrong weight or a lost edge still gives a convergent preconditioner.",
 [CO + f for f in ("grid_contract.cpp", "grid_contract.hpp", "dof_contract.cpp", "dof_contract.hpp")] + ["src/base/distributed/mpiwrap_extension.hpp"],
 [("GridContractMap::BuildCEQCH, BuildNodeMaps, MapNodeData; AlgContractMap::FillContractedMesh", CO + "grid_contract.cpp"), ("CtrMap::TransferF2C, AddF2C, TransferC2F, AddC2F, DoAssembleMatrix, SetUpMPIStuff", CO + "dof_contract.cpp"), ("NgsAMG_Comm::CreateSubCommunicatorGlobal, Send/Recv of meshes and matrices", "src/base/distributed/mpiwrap_extension.hpp")],
 obs=["the redistributed mesh, maps and data", "vectors and their status after a transfer", "entries of the assembled matrix"], tech="contracts on the real classes, run on several ranks over an in-process message passing and checked on bounded inputs against the global mesh and dense linear algebra (bounded, not proved: the classes communicate, which the verification-condition generator does not reach)", note="Bounded: at most 5 ranks. The partition of the ranks into groups is an argument (METIS is not covered); CtrMap::PullBack/SwapWithProl (unused) are not covered.")
