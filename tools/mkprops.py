#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts live)."""
import json, os
D='dune/istl/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","BCRSMatrix: every build history yields exactly the declared pattern",
  "For every history of build calls (row-wise creation, random mode with explicit sizes and indices, implicit mode with estimated average and overflow followed by compression), the finished sparse matrix has exactly the declared dimensions and declared (row,column) entries, each row strictly sorted by column, each entry addressable and holding the value written to it, and the reported number of nonzeroes is right. Calls that are illegal in the current build stage are refused with an exception, and never corrupt the matrix; every history returns to the allocator exactly the memory it obtained.",
  ["histories","inputs"],"all sequences of build-interface calls on one matrix (all build modes, any sizes including empty rows/zero rows, any insertion order, any average/overflow estimates)",
  "bcrsbuild/bcrsimplicitbuild run one fixed history per mode; the quantifier is over histories.",
  [D+"bcrsmatrix.hh",D+"basearray.hh"],[("build stage checks, CreateIterator, endrowsizes/endindices, implicit overflow map and compress",D+"bcrsmatrix.hh")],
  ["buildStage(), N/M/nonzeroes, row iteration, exists, compress() statistics, exceptions"],
  [("build stage/mode","which calls are legal",D+"bcrsmatrix.hh BuildStage, BuildMode"),("row windows","rows as (size, column indices, values)",D+"bcrsmatrix.hh r[]")])
p("P02","BCRSMatrix: copies, assignments and moves preserve and isolate values",
  "After any history of copy construction, copy assignment, scalar assignment, entry writes, scaling, addition, re-sizing and destruction over several matrix objects, each object shows exactly the pattern and values its own history implies: copying never changes the source, writing through one object never changes another, and destroying one object never invalidates another; when all objects are gone, all memory is given back exactly once.",
  ["histories"],"all interleavings of copy/assign/write/scale/add/destroy over several matrices built in any mode",
  "bcrsassigntest checks two fixed assignments; sharing bugs need multi-object histories.",
  [D+"bcrsmatrix.hh"],[("copy constructor / operator= sharing of the column index array, copyWindowStructure, deallocate",D+"bcrsmatrix.hh")],
  ["entries of all live objects after each step"])
p("P03","Matrix-vector products equal their algebraic definition on every matrix type",
  "For every matrix type of the library (sparse, dense dynamic, diagonal, tridiagonal, scaled identity, multi-type block; scalar, square, rectangular and nested blocks; real and complex entries) each product-type operation (plain, transposed, conjugate-transposed; set, add, subtract, scaled add) computes exactly the algebraic result and leaves its other operands unchanged. The Frobenius, infinity and simplified matrix norms equal their definitions.",
  ["inputs"],"all patterns, sizes (also 0 and rectangular), values and block structures",
  "tests evaluate a few fixed matrices with ad-hoc tolerances; transposed/hermitian/complex/nested/rectangular combinations are sampled only sparsely.",
  [D+"bcrsmatrix.hh",D+"matrix.hh",D+"scaledidmatrix.hh",D+"multitypeblockmatrix.hh",D+"bdmatrix.hh",D+"btdmatrix.hh"],
  [("mv mtv umv umtv umhv mmv mmtv mmhv usmv usmtv usmhv, frobenius_norm*, infinity_norm*",D+"bcrsmatrix.hh, matrix.hh, multitypeblockmatrix.hh, scaledidmatrix.hh")],["output vectors, norms"])
p("P04","Matrix algebra (sums, scalings, products, transposes, patterns) is exact",
  "Sums, differences, scalings and scaled sums of matrices, the sparse products A*B, A^T*B and A*B^T with their computed patterns, and products and transposes of dense dynamic matrices equal their algebraic definition, with result patterns consisting of exactly the structurally nonzero positions. Operations whose operand sizes do not match the operation are refused where the interface checks for it.",
  ["inputs"],"all patterns (including empty rows and columns), sizes and values",
  "mmtest uses one Laplacian-like matrix; matrixtest a handful of small matrices.",
  [D+"matrixmatrix.hh",D+"matrix.hh",D+"bcrsmatrix.hh",D+"matrixutils.hh"],
  [("matMultMat, transposeMatMultMat, matMultTransposeMat",D+"matrixmatrix.hh"),("operator*,transpose,resize",D+"matrix.hh"),("+=,-=,*=,/=,axpy",D+"bcrsmatrix.hh")],["result matrices"])
p("P05","Vector containers behave as exact block vectors under every history",
  "For every history of construction, copy, move, assignment, resize, block access, and vector arithmetic on the dynamic, variable-block-size and multi-type vectors, the stored blocks equal those of an abstract sequence of blocks; blocks that survive a resize keep their values; dot products, norms and searches equal their definitions, and no history leaves memory behind.",
  ["histories","inputs"],"all operation sequences over several vectors with any sizes (also 0) and block sizes",
  "bvectortest/vbvectortest exercise fixed short sequences; aliasing and capacity effects need histories.",
  [D+"bvector.hh",D+"vbvector.hh",D+"multitypeblockvector.hh",D+"basearray.hh"],
  [("BlockVector reserve/resize/copy",D+"bvector.hh"),("VariableBlockVector resize/createbegin/copy, window placement",D+"vbvector.hh"),("base_array find/iterators",D+"basearray.hh")],["blocks of all vectors, dot/norm values"])
p("P06","MatrixIndexSet collects and exports exactly the added positions",
  "For every sequence of additions, imports from other matrices at an offset, and resizes, the index set contains exactly the positions added, iterated in increasing order per row with correct row sizes, independent of insertion order, duplicates and of crossing the internal switch from vector to set storage; exporting it into a matrix yields a matrix with exactly this pattern. Additions to different rows may run concurrently in several threads with the same result.",
  ["histories","inputs"],"all insertion sequences (dense rows beyond the internal vector/set threshold included)",
  "no test covers storage switching with arbitrary orders, or import at offsets.",
  [D+"matrixindexset.hh"],[("add/exportIdx/import/symmetrize-like use, maxVectorSize switch",D+"matrixindexset.hh")],["columnIndices, rowsize, size, contains, exported matrix"])
p("P07","Iterative solvers honour the solve contract for every residual history",
  "For every history of residual norms (including NaN/Inf and stagnation), tolerance and iteration limit, each iterative solver prepares the preconditioner exactly once before using it and finishes it exactly once, performs no more than the permitted iterations, stops at the first iteration whose defect satisfies the requested reduction or the absolute limit, and reports converged if and only if that happened. The reported iteration count, reduction and convergence rate describe that history; a non-finite defect is reported by an abort exception, never as success; a reduction given to one call applies to this call only; and the verbosity changes none of this: at 0 nothing is printed, at 2 the printed lines are exactly the history of defects.",
  ["histories","inputs"],"all sequences of defect norms, all maxit/reduction settings, all solvers",
  "solvertest runs healthy matrices only; the quantifier is over norm sequences of an adversarial environment.",
  [D+"solver.hh",D+"solvers.hh"],[("IterativeSolver::Iteration step/finalize, apply with reduction",D+"solver.hh"),("apply loops of Loop, Gradient, CG, BiCGSTAB, MINRES, GMRes, FGMRes, GCG, FCG, CFCG",D+"solvers.hh")],["preconditioner/operator/scalar product call order, InverseOperatorResult, exceptions"])
p("P08","Krylov solvers perform exactly their mathematical recurrence",
  "For every matrix, preconditioner, right-hand side and start vector, the iterates of the Richardson-loop, gradient, CG, BiCGSTAB, generalised/flexible CG solvers are those of the published recurrence, the right-hand side handed back holds the true residual b - A x, and with exact arithmetic the CG-type methods terminate at the exact solution within the dimension of the space.",
  ["inputs"],"all linear systems, evaluated in exact finite-field arithmetic",
  "tests only check convergence to a tolerance, which a wrong recurrence (a restarted or mis-scaled direction) still satisfies.",
  [D+"solvers.hh"],[("update formulas",D+"solvers.hh")],["iterate x, residual b after k iterations"])
p("P09","Reported convergence means the system is solved",
  "Whenever a solver reports convergence for a nonsingular system, the true residual of the returned solution, recomputed independently, is reduced by the promised factor up to rounding, for every solver, preconditioner side and start vector; if the requested reduction is not reached within the iteration limit, the solver does not report convergence.",
  ["inputs"],"all nonsingular systems, preconditioners, start vectors and restart lengths",
  "tests use Laplace problems with zero start vectors and check the flag only.",
  [D+"solvers.hh",D+"solver.hh"],[("GMRes/MINRES/FGMRes least-squares residual update, restart",D+"solvers.hh")],["result flag vs. true residual"])
p("P10","Preconditioner and smoother sweeps apply their defining operator",
  "One application of the Jacobi, Gauss-Seidel, SOR, SSOR, Richardson, Jacobi/SOR block sweeps and triangular/diagonal solves, with any relaxation factor, number of sweeps and block-recursion depth, equals the textbook sweep over the block rows in the documented order; preparing and finishing a preconditioner does not alter the system, and repeated application is linear and stateless.",
  ["inputs","histories"],"all matrices with invertible diagonal blocks, relaxations, sweep counts, block levels",
  "preconditionerstest checks that applying does not crash or that residuals fall on one matrix.",
  [D+"preconditioners.hh",D+"gsetc.hh"],[("bltsolve.. bsorf bsorb dbgs dbjac",D+"gsetc.hh"),("SeqSSOR/SOR/GS/Jac/Richardson",D+"preconditioners.hh")],["updated vector v for given defect d"])
p("P12","Incomplete factorisations match their definition and are inverted exactly",
  "ILU(0), ILU(n) and DILU preconditioners and the incomplete LDL factorisation produce on the permitted pattern exactly the factors of their textbook definition, with or without the resorted storage, and applying them solves exactly with those factors times the relaxation factor; where the pattern admits the full factorisation the preconditioner is the exact inverse. A pivot block for which the inversion fails is reported by an exception naming its row and column.",
  ["inputs"],"all sparsity patterns with structurally full diagonal, all fill levels, scalar and block entries",
  "dilutest/iluildltest use few fixed matrices and tolerances.",
  [D+"ilu.hh",D+"dilu.hh",D+"ildl.hh",D+"preconditioners.hh"],[("blockILU0Decomposition, blockILUDecomposition, convertToCRS, blockILUBacksolve",D+"ilu.hh"),("blockDILUDecomposition, blockDILUBacksolve",D+"dilu.hh"),("bildl",D+"ildl.hh")],["factors, applied vectors"])
p("P13","Matrix Market storage round-trips and honours the format",
  "Every sparse matrix and block vector written in Matrix Market format and read back is identical in dimensions, pattern and values (to the stored precision), for real and complex scalars and all block shapes; and reading a conforming file of any supported field and symmetry yields exactly the matrix the format prescribes. Malformed files are refused; a file that does not start with a correct banner is read as the announced default, coordinate (vectors: array) real general.",
  ["inputs"],"all matrices, block shapes, fields and symmetry kinds",
  "matrixmarkettest round-trips a Laplacian.",
  [D+"matrixmarket.hh"],[("storeMatrixMarket, readMatrixMarket, readSparseEntries, mm_multipliers",D+"matrixmarket.hh")],["files written, matrices read"])
p("P14","Owner/overlap/copy communication delivers the owners' values",
  "For every distribution of global indices over processes with owner, overlap and copy attributes, communicating owner values to copies makes each receiving entry equal to the owner's value, the additive variants add exactly the contributions their name says, and all other entries are untouched, independent of message order and of earlier communications.",
  ["inputs","schedules","histories"],"all distributions over several processes and all sequences of communication calls",
  "vectorcommtest uses one decomposition.",
  [D+"owneroverlapcopy.hh"],[("copyOwnerToAll, copyCopyToAll, addOwnerOverlapToAll, addOwnerCopyToOwnerCopy, addOwnerCopyToAll, interface building, IndexSet rebuild",D+"owneroverlapcopy.hh")],["local vectors after communication"])
p("P15","Parallel operators and scalar products equal the global sequential ones",
  "For every decomposition of a global matrix and vector, the overlapping and non-overlapping parallel operators, block preconditioner and the parallel dot product and norm deliver, on consistent input, the same values as the sequential operation on the global problem, with every globally shared unknown counted exactly once; projection zeroes exactly the non-owned copies.",
  ["inputs"],"all decompositions, matrices, real and complex vectors",
  "scalarproductstest/solver tests use one regular decomposition.",
  [D+"schwarz.hh",D+"novlpschwarz.hh",D+"scalarproducts.hh",D+"owneroverlapcopy.hh"],[("OverlappingSchwarzOperator, NonoverlappingSchwarzOperator, ParallelScalarProduct, OwnerOverlapCopyCommunication::dot/norm/project",D+"owneroverlapcopy.hh schwarz.hh novlpschwarz.hh")],["operator results, dot, norm"])
p("P16","Redistribution preserves the global matrix and vectors",
  "For every distribution and every repartitioning, redistributing a matrix and its vectors yields the same global matrix and vectors on the new processes, each global row owned exactly once, and redistributing backward restores owner values.",
  ["inputs"],"all source decompositions and target assignments",
  "matrixredisttest uses one structured grid.",
  [D+"matrixredistribute.hh",D+"repartition.hh"],[("redistributeMatrix, RedistributeInformation",D+"matrixredistribute.hh"),("graphRepartition, buildCommunication",D+"repartition.hh")],["gathered global matrix before and after"])
p("P17","AMG hierarchy: aggregation partitions, transfers and coarse operators are exact",
  "For every matrix and coarsening parameter set, aggregation assigns each unknown to exactly one aggregate or marks it isolated, aggregates are connected and consecutively numbered, restriction and prolongation are the piecewise-constant transfers of that partition, and every coarse operator is exactly the Galerkin product of the next finer one; the hierarchy stops coarsening as parameterised, where the parameters in force are the documented defaults and the values set, whatever the order of setters, constructors and dimension-dependent defaults.",
  ["inputs","configurations"],"all matrices, graphs and coarsening parameters",
  "AMG tests solve an anisotropic Laplacian and never look at the hierarchy.",
  [D+"paamg/aggregates.hh",D+"paamg/transfer.hh",D+"paamg/galerkin.hh",D+"paamg/hierarchy.hh",D+"paamg/matrixhierarchy.hh",D+"paamg/graph.hh"],[("Aggregator::build, AggregatesMap",D+"paamg/aggregates.hh"),("BaseGalerkinProduct, GalerkinProduct",D+"paamg/galerkin.hh"),("Transfer",D+"paamg/transfer.hh"),("MatrixHierarchy::build",D+"paamg/matrixhierarchy.hh")],["aggregates maps, level matrices"])
p("P18","AMG cycles perform exactly the configured multigrid cycle",
  "For every hierarchy and parameter set (cycle index, numbers of pre- and post-smoothing steps, additive or multiplicative, K-cycle, two-level), one application of the multigrid preconditioner equals the cycle defined by those parameters, is linear where the cycle is, prepares and finishes every smoother exactly once per preparation, and leaves the preconditioner reusable: repeated applications and re-preparation give the same result.",
  ["inputs","configurations","histories"],"all hierarchies, cycle parameters and application histories",
  "tests check the convergence of a solver around the cycle.",
  [D+"paamg/amg.hh",D+"paamg/fastamg.hh",D+"paamg/kamg.hh",D+"paamg/twolevelmethod.hh",D+"paamg/smoother.hh"],[("mgc, additiveMgc, moveToCoarseLevel, moveToFineLevel, pre/post",D+"paamg/amg.hh")],["update vector for given defect"])
p("P19","Direct solvers solve with the matrix they were given",
  "Each direct solver wrapper solves exactly the system of the matrix or row subset last set on it (not its transpose, nor a stale matrix), for scalar and block entries, for any number and order of set, submatrix, save/load, solve and free operations; the compressed column conversion underneath contains exactly the entries of the selected rows and columns.",
  ["inputs","histories"],"all nonsingular sparse matrices, row subsets, block sizes and call sequences",
  "umfpack/superlu/… tests solve a symmetric Laplacian, for which the transpose is indistinguishable.",
  [D+"umfpack.hh",D+"superlu.hh",D+"ldl.hh",D+"spqr.hh",D+"cholmod.hh",D+"bccsmatrixinitializer.hh",D+"bccsmatrix.hh"],[("setMatrix/setSubMatrix/apply/free",D+"umfpack.hh superlu.hh ldl.hh spqr.hh cholmod.hh"),("BCCSMatrixInitializer, copyToBCCSMatrix",D+"bccsmatrixinitializer.hh")],["compressed columns, solution vectors"])
p("P20","Solver factory builds the configured solver and rejects the rest",
  "A configuration tree handed to the solver or preconditioner factory yields exactly the object the equivalent constructor call yields (type, category, parameters such as relaxation, iterations, verbosity, reduction, maxit, restart), unknown or unsupported names are refused with an exception, the result depends on nothing but the request and the registered creators (not on earlier requests or registration order), a preconditioner passed at runtime lives no longer than the solver, and solver category mismatches of operator, preconditioner and scalar product are refused.",
  ["configurations"],"all configuration trees over the registered names",
  "solverfactorytest constructs each solver once with a healthy configuration.",
  [D+"solverfactory.hh",D+"solverregistry.hh",D+"solvercategory.hh",D+"solver.hh",D+"preconditioners.hh",D+"paamg/amg.hh",D+"common/registry.hh"],[("initSolverFactories, getSolverFromFactory, getPreconditionerFromFactory, registry macros",D+"solverfactory.hh solverregistry.hh"),("category checks in the solver constructors",D+"solver.hh")],["constructed solvers, their behaviour, exceptions"])
p("P21","Flat traversal and text output enumerate exactly the entries",
  "Traversing a nested vector or matrix with flat indices visits every scalar exactly once with consecutive indices matching its position in the flattened object, block level and dimension queries agree with it, and the Matlab and text writers emit exactly the nonzero pattern entries at their scalar positions.",
  ["inputs"],"all nested containers, including empty blocks",
  "foreachtest/iotest look at few fixed nestings; iotest only prints.",
  [D+"foreach.hh",D+"io.hh",D+"blocklevel.hh",D+"matrixutils.hh"],[("flatVectorForEach, flatMatrixForEach",D+"foreach.hh"),("writeMatrixToMatlab, writeVectorToMatlab, printmatrix",D+"io.hh"),("MatrixDimension, countNonZeros",D+"matrixutils.hh")],["visited (index,value) sequence, files"])
p("P22","Overlapping Schwarz preconditioner applies the configured subdomain solves",
  "For every matrix, set of overlapping subdomains, mode (additive, multiplicative, symmetric multiplicative), relaxation and subdomain solver, one application of the overlapping Schwarz preconditioner equals the corresponding combination of subdomain solves (exact, or incomplete for the ILU solvers), and the subdomains generated for the multigrid smoother cover every unknown and reach exactly as far as the overlap mode says.",
  ["inputs","configurations"],"all subdomain covers, modes, solvers",
  "overlappingschwarztest only prints the convergence on a grid.",
  [D+"overlappingschwarz.hh",D+"ilusubdomainsolver.hh",D+"paamg/smoother.hh"],[("SeqOverlappingSchwarz::apply, SeqOverlappingSchwarzAssembler*, DofAssigner",D+"overlappingschwarz.hh")],["applied vector"])
p("P24","Tridiagonal and diagonal matrices solve and invert exactly",
  "For every block tridiagonal matrix whose Thomas elimination is defined, the built-in solve returns the solution of the system; for every block diagonal matrix inversion and solve are exact; size changes, assignment and setters keep the tridiagonal or diagonal structure.",
  ["inputs","histories"],"all sizes (also 0 and 1), block entries, right-hand sides and resize histories",
  "matrixtest solves one tridiagonal system of size 4.",
  [D+"btdmatrix.hh",D+"bdmatrix.hh"],[("solve, setSize, invert",D+"btdmatrix.hh bdmatrix.hh")],["solution vectors, patterns"])
p("P23","Eigenvalue iterations follow their recurrence and report true eigenpairs",
  "For every symmetric matrix, start vector, shift and tolerance, power iteration, inverse iteration, Rayleigh quotient iteration and TLIME compute the iterates their definitions prescribe; a reported success means a unit vector whose residual with the reported eigenvalue is within the tolerance, a failure to get there is reported, and counters and the iteration matrix match the last call and shift.",
  ["inputs","histories"],"all symmetric matrices, block sizes, start vectors, shifts, tolerances, iteration limits and sequences of calls on one object",
  "poweriterationtest needs ARPACK++ or SuperLU and runs a handful of fixed matrices.",
  [D+"eigenvalue/poweriteration.hh"],[("applyPowerIteration, applyInverseIteration, applyRayleighQuotientIteration, applyTLIMEIteration",D+"eigenvalue/poweriteration.hh")],["iterates, eigenvalue, iteration count, exceptions"])
p("P25","Several right-hand sides at once: every lane is solved as if it were alone",
  "For every field type holding several values, a solve with it gives every lane the iterates of the recurrence for this lane, lanes whose defect has vanished keep their solution while the others go on, convergence is reported exactly when every lane has converged, with the finite reduction of the worst lane and the iterations of the longest one; products, vector operations, scalar products, sweeps and factorisations act on each lane separately.",
  ["inputs","schedules"],"all numbers of lanes, matrices (shared or one per lane), right-hand sides and start vectors with zero, solved and unsolved lanes side by side, restart lengths, tolerances and iteration limits",
  "multirhstest solves one Laplacian whose lanes all need about the same number of iterations.",
  [D+"solvers.hh",D+"solver.hh",D+"preconditioners.hh"],[("Iteration::step and finalize, apply of the solvers",D+"solver.hh solvers.hh"),("sweeps and ILU",D+"preconditioners.hh")],["solution and defect per lane, result record, exceptions"])
if __name__=="__main__":
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
    with open(out,"w") as f:
        for x in P: f.write(json.dumps(x)+"\n")
    for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
    print(len(P))
