C["P03"]=("python3 checks/p03.py","TLA+ machine/definition of products and norms (TLC exhaustive small patterns), recorded results of every matrix type judged by TLC",
  "all patterns up to 2x2 (2x3) x 11 operations for two entry types; ~9000 random structures of 21 matrix types incl. nested, complex, multi-type; refusal of wrong sizes")
C["P04"]=("python3 checks/p04.py","TLA+ machine/definition of sums, products, transposes (TLC), recorded results judged by TLC",
  "all product pattern pairs of small shapes x 3 products; ~4000 random histories of sums/scalings/products incl. empty shapes, several block shapes; ASan")
C["P05"]=("python3 checks/p05.py","TLA+ state machine of vector objects (TLC: all transitions of small instances + simulation), behaviours replayed into the real classes; arithmetic/norm records judged by TLC",
  "all histories over 2 objects with <=2 blocks as transition tours, long random histories over 3 objects, 5 container/block types under ASan; 12 vector types x 11 operations incl. complex and NaN")
C["P06"]=("python3 checks/p06.py","TLA+ state machine of index set objects and of concurrent row additions (TLC), behaviours replayed into the real class (ASan; concurrent ones under TSan)",
  "all transitions of 1-2 objects up to 2x2 with every storage threshold, random histories up to 4x7, thresholds up to the default 2048, imports at offsets, exports into 5 kinds of target matrices, thread interleavings")
C["P07"]=("python3 checks/p07.py","TLA+ state machine of the solver/environment contract (TLC exhaustive + simulation); all behaviours replayed into all 10 solvers with a scripted operator, preconditioner and scalar product",
  "all norm histories (incl. NaN, Inf, 0, growth, stagnation) for maxit<=3, two consecutive solves with per-call reductions, long random histories; 20 solver configurations incl. restarts 1,2,3 and condition estimate; ASan")
C["P08"]=("python3 checks/p08.py","TLA+ machine of the Krylov recurrences over a finite field with conjugation (TLC exhaustive on a tiny field: residual identity, conjugacy, finite termination); iterates of the real solvers over GF(30011^2) judged by TLC",
  "5000+ random systems (n<=4, complex/real, hermitian and not, fixed and changing preconditioners, restarts 0..5) for 7 solvers, exact equality of x and b")
C["P09"]=("python3 checks/p09.py","TLA+ machine of restarted minimal-residual control (TLC) and a specification of truthful reporting; recorded claims, recomputed residuals and convergence curves of all solvers judged by TLC",
  "3000+ solves (real/complex, SPD/indefinite/general, 7 preconditioners, restarts, any start vector, 3-/4-argument apply), optimality, restart and termination relations between methods")

C["P10"]=("python3 checks/p10.py","TLA+ machine of sweeps (TLC exhaustive on tiny fields: a sweep is the fixed-point iteration of its splitting; recursion over nested blocks), recorded sweeps judged by TLC",
  "4000+ sweeps of Jacobi/GS/SOR/SSOR/Richardson/ILU wrappers, both directions, all recursion depths, nested and multi-type matrices, exact over GF(30011) and doubles with exact arithmetic")
C["P12"]=("python3 checks/p12.py","TLA+ machine of ILU(0)/ILU(n)/ILDL as elimination with fill levels (TLC exhaustive small patterns: L*U equals A on the pattern), recorded factorisations judged by TLC",
  "7000+ factorisations over GF(30011) of random patterns n<=7, fill levels 0..3, block sizes 1..3, complex ILDL, missing diagonals and zero pivots, CRS conversion and back substitution")
C["P13"]=("python3 checks/p13.py","TLA+ grammar/semantics of the Matrix Market format (TLC), files written and read by the real code judged by TLC",
  "5000+ files: all header combinations (field x symmetry x format), blocks, real/complex/integer/pattern, vectors, malformed files, parallel storage round trips; ASan")
C["P14"]=("python3 checks/p14.py","TLA+ machine of index sets, attributes and communication (TLC exhaustive small instances), recorded communications on 1..4 MPI processes judged by TLC",
  "1100+ random distributions x all communication operations, projections, norms-free masks; repeated use after changes of index sets")
C["P15"]=("python3 checks/p15.py","TLA+ definition of global operators/scalar products over distributed data (TLC exhaustive small distributions), recorded parallel applications judged by TLC",
  "3000+ applications on 1..4 processes of overlapping and nonoverlapping operators, scalar products, block and sequential-wrapped preconditioners; 600+ parallel Krylov solves equal to the sequential ones")
C["P16"]=("python3 checks/p16.py","TLA+ model of redistribution (TLC exhaustive for 2 processes, 3 unknowns), recorded redistributions on 1..4 MPI processes judged by TLC",
  "790 random distributions, partitions given, by graph and by process graph, both categories, repeated value redistribution, vectors forth and back")
C["P21"]=("python3 checks/p21.py","TLA+ model of the flat traversal (TLC exhaustive small shapes), recorded traversals, dimensions and text output judged by TLC",
  "1700 records: flat traversal, dimension queries, Matlab/print/sparse/SVG output of 30 nested matrix and vector types, global sparse print on 1..3 processes")
C["P24"]=("python3 checks/p24.py","TLA+ model of the block Thomas elimination (TLC exhaustive over a small field), recorded construct/resize/assign/solve/invert histories judged by TLC",
  "1400 histories of block tridiagonal and block diagonal matrices over GF(p^2), up to 9 block rows, with address sanitizer")
C["P23"]=("python3 checks/p23.py","TLA+ machine of the eigenvalue iterations (TLC exhaustive over all symmetric 2x2 matrices of a small field), recorded call histories of the real class judged by TLC over GF(p) and over reals with known spectrum",
  "1200 records: histories of power, inverse, Rayleigh quotient and TLIME iteration on one object over GF(30011), up to 4 unknowns and blocks of 1..2; double precision runs with integer spectrum, with address sanitizer")
C["P25"]=("python3 checks/p25.py","TLA+ machines of joint recurrences and of the joint stopping rule over several lanes (TLC exhaustive), recorded runs of the real solvers, sweeps and products with SIMD field types judged by TLC lane by lane",
  "4000 records: 7 Krylov recurrences over GF(30011) with 2..4 lanes, shared or per-lane matrices, solver control with scripted norms, 10 solvers in double precision next to the solves of the lanes, 30 operations lane by lane, with address sanitizer")
C["P19"]=("python3 checks/p19.py","TLA+ models of the compressed column conversion and of the solver life cycle (TLC exhaustive), recorded set/save/load/free/apply histories judged by TLC over the Gaussian integers",
  "1000 histories of UMFPack, SuperLU, LDL, SPQR, Cholmod and of the conversion itself, 28 matrix types, with address sanitizer")
C["P17"]=("python3 checks/p17.py","TLA+ model of the aggregation process (TLC exhaustive over small graphs), recorded strong-connection graphs, aggregates, level matrices and transfers judged by TLC",
  "3700 records: aggregation with 6 criteria, hierarchies of 1..5 levels for scalar and block matrices with their Galerkin products and transfers; 360+ distributed hierarchies on 2..4 processes (globally numbered aggregates, copies, Galerkin products, redistribution, recalculation) judged against a second model AmgPar, with address sanitizer")
C["P18"]=("python3 checks/p18.py","TLA+ machine of the multigrid cycle with explicit per-level state, refining the composed cycle operator (TLC exhaustive over small hierarchies), recorded applications of AMG/KAMG/FastAMG/TwoLevelMethod judged by TLC over GF(p)",
  "343+ hierarchies (1-4 levels) x several applications, multiplicative/additive/K-cycle/two-level, gamma 1..3, 0..2 smoothing steps, 4 smoothers, scalar and 2x2 blocks, inexact coarse solvers; 300 distributed AMG/K-cycle/additive preconditioners on 2..4 processes with every accumulation mode, with address sanitizer")
C["P22"]=("python3 checks/p22.py","TLA+ machine of one Schwarz application (dof treatment, sweep order, relaxation) refining the composed operator, with set-level model of the generated subdomains (TLC exhaustive over small covers), recorded applications over GF(p)/integer matrices judged by TLC",
  "1700 records: dense/ILU0/ILUn/UMFPack/SuperLU subdomain solvers, three modes, relaxation, on-the-fly and stored decompositions; generated subdomains of every overlap mode; ASan")
C["P20"]=("python3 checks/p20.py","TLA+ model of the factories (registry state, meaning of a configuration as constructor call or refusal, category rules); TLC enumerates request histories for eight operator types, every request replayed into the real factories and compared with the constructor call the specification names",
  "all configurations with at most two unusual entries for eight operator types (sequential, overlapping, nonoverlapping, matrix-free; double/float/complex; blocks), random larger ones, histories of registrations, 2 MPI processes")
