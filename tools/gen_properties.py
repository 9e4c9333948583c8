#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is reviewable in one place)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
LA='src/LinAlg/'; OP='src/Optimization/'; UT='src/Utils/'; IF='src/Interface/'
p('C01','Vector kernels compute their documented element-wise results',
  'Every arithmetic, scaling, reduction, copy and comparison operation of the host (MPI) vector returns, for every vector content and scalar, exactly the element-wise or reduced value its documentation states, and modifies no vector other than the target. Reductions combine the contributions of all ranks.',
  ['inputs','configurations'],'all real vector contents and scalars; all lengths up to the stated bound (0..4); any contribution of the other ranks',
  'the unit tests use constant-filled vectors, so position-dependent, sign-dependent and aliasing errors are invisible; other-rank contributions are never varied',
  [LA+'hiopVectorPar.cpp',LA+'hiopVectorPar.hpp'],[('element-wise kernels',LA+'hiopVectorPar.cpp'),('Allreduce in norms/dots',LA+'hiopVectorPar.cpp')])
p('C02','Pattern-masked vector operations touch exactly the selected entries',
  'Vector operations that take a 0/1 selection pattern (masked add, divide, copy, reciprocal, minimum, all-positive, pattern match and select) affect or inspect exactly the entries whose pattern is 1 and apply the documented formula there; entries outside the pattern keep the documented value (unchanged or zero).',
  ['inputs'],'all real vector contents, all 0/1 patterns, lengths up to the stated bound',
  'tests use one pattern (all ones except the last element) and constant data',
  [LA+'hiopVectorPar.cpp'],[('..._w_pattern kernels',LA+'hiopVectorPar.cpp')])
p('C03','Index-based and range vector copies place every element correctly',
  'Copies between vectors driven by a starting offset, a count, an index list or a pair of index lists put each source element at the documented destination and nowhere else; splitting a vector in two by complementary index lists and merging it again is the identity. Integer vectors fill, set and copy likewise.',
  ['inputs'],'all real contents, all offsets/counts/index lists within the stated lengths',
  'tests use constant-filled sources, so a permuted or shifted copy passes',
  [LA+'hiopVectorPar.cpp',LA+'hiopVectorIntSeq.cpp'],[('startingAtCopy*, copy_*_w_pattern, copy_from_indexes',LA+'hiopVectorPar.cpp'),('linspace/copy',LA+'hiopVectorIntSeq.cpp')])
p('C04','Starting point is pushed strictly inside its bounds',
  'Projecting a point into bounds with positive fractions returns, for every point and every combination of finite, one-sided or missing bounds with lower < upper, a point strictly between its bounds, no closer to a bound than the documented fraction rule and unchanged when it already is that far inside. Lower > upper is reported as failure.',
  ['inputs'],'all real points and bounds (including infinite ones), all patterns, kappa1 > 0, 0 < kappa2 < 1/2',
  'the unit test runs three hand-picked points',
  [LA+'hiopVectorPar.cpp',OP+'hiopIterate.cpp'],[('projectIntoBounds_local',LA+'hiopVectorPar.cpp')])
p('C05','Step length keeps every slack and bound multiplier positive',
  'The primal and dual step lengths returned by the fraction-to-the-boundary rule lie in (0,1], keep every slack and every bound multiplier at least (1-tau) times its current value, and are the largest such steps (1 when nothing blocks). The trial point is the iterate plus the step lengths times the direction, with primal and dual parts using their own step length. In a solver run every accepted iterate is such a point, and the step lengths reported with it are the ones used.',
  ['inputs','configurations'],'all positive slacks/multipliers, all real directions, 0 < tau < 1, all bound patterns up to the stated sizes',
  'tests check one vector pair; the iterate-level combination (minimum over eight blocks, which block uses which step) is not tested',
  [OP+'hiopIterate.cpp',LA+'hiopVectorPar.cpp'],[('fractionToTheBdry',OP+'hiopIterate.cpp'),('fractionToTheBdry_w_pattern_local',LA+'hiopVectorPar.cpp'),('takeStep_primals/takeStep_duals',OP+'hiopIterate.cpp')])
p('C06','Bound multipliers stay in the barrier neighbourhood after the dual update',
  'After the multiplier safeguard, every bound multiplier z with slack s satisfies mu/(kappa*s) <= z <= kappa*mu/s; multipliers already inside are unchanged, those outside move to the nearest end of the interval, and entries without a bound are untouched. In a solver run the bound multipliers of every new iterate are the previous ones plus the dual step, kept in this interval for the barrier parameter of that iteration.',
  ['inputs'],'all positive s, mu, kappa >= 1, all real z, all patterns up to the stated sizes',
  'the unit test uses one constant configuration',
  [LA+'hiopVectorPar.cpp',OP+'hiopIterate.cpp'],[('adjustDuals_plh',LA+'hiopVectorPar.cpp'),('adjustDuals_primalLogHessian',OP+'hiopIterate.cpp')])
p('C07','Log-barrier value, gradient and Hessian terms are mutually consistent',
  'For every strictly interior iterate, the barrier value equals the objective minus mu times the sum of logs of the slacks of existing bounds plus the linear damping of one-sided bounds, the barrier gradients with respect to variables and inequality bodies are its exact derivatives, and the directional derivative handed to the line search is the gradient dotted with the direction. The two-sided slack diagonal used in the linear systems is z/s on existing bounds.',
  ['inputs'],'all interior points, all bound patterns, mu > 0, damping >= 0, stated sizes',
  'no test relates value and gradient of the barrier problem',
  [OP+'hiopLogBarProblem.hpp',OP+'hiopIterate.cpp',LA+'hiopVectorPar.cpp'],[('updateWithNlpInfo, directionalDerivative',OP+'hiopLogBarProblem.hpp'),('addLogBarGrad_*, linearDamping*',OP+'hiopIterate.cpp')])
p('C08','Dense matrix kernels compute their documented algebra',
  'Every dense-matrix operation (products with vectors and matrices, transposed and weighted products, scaled additions, row/column/block copies and shifts, diagonal updates, norms, row maxima, symmetric off-diagonal insertions) returns the documented algebraic result for every matrix content and every shape, and changes no entry outside the documented target. In the distributed case the contributions of the other ranks enter reductions exactly once.',
  ['inputs','configurations'],'all real entries and scalars, shapes up to the stated bound, any other-rank contribution',
  'unit tests use constant matrices, hiding transposition, offset and aliasing errors',
  [LA+'hiopMatrixDenseRowMajor.cpp'],[('timesVec, timesMat, addBlock..., copyRows...',LA+'hiopMatrixDenseRowMajor.cpp')])
p('C09','Sparse triplet matrix kernels agree with the dense algebra',
  'Every operation of the sparse triplet matrix (general and symmetric, including products, weighted self-products, block and diagonal insertion, row/column scaling, row extraction and copy of blocks) gives the same result as the dense computation on the matrix its triplets denote, for every valid sparsity pattern and every value. Building weighted products into a larger symmetric matrix writes only the upper triangle of the designated block.',
  ['inputs'],'all sparsity patterns and real values within the stated sizes and nonzero counts, all offsets',
  'unit tests use one generated pattern with constant values',
  [LA+'hiopMatrixSparseTriplet.cpp'],[('timesVec, addMDinvMtransToDiagBlockOfSymDeMatUTri, copyRowsFrom...',LA+'hiopMatrixSparseTriplet.cpp')])
p('C10','CSR matrix operations agree with the dense algebra',
  'Conversion from triplets to compressed rows, transposition, numerical update after a value change, the product M*D*N with its symbolic and numeric phases, matrix addition, row and column scaling, diagonal creation and update all represent exactly the matrix that dense arithmetic gives, with sorted duplicate-free rows, for every valid sparsity pattern and value.',
  ['inputs','histories'],'all sparsity patterns and real values within the stated sizes; sequences symbolic-phase, numeric-phase, value change, numeric-phase',
  'the CSR test is a few fixed matrices (and is not in the stable test list)',
  [LA+'hiopMatrixSparseCSRSeq.cpp'],[('form_from_symbolic/numeric, times_mat_*, add_matrix_*, form_transpose_from_*',LA+'hiopMatrixSparseCSRSeq.cpp')])
p('C11','Mixed dense-sparse matrices act as one matrix',
  'Products, transposed products, row copies, scaling, norms and insertions into larger symmetric systems of a matrix stored as a sparse block next to a dense block equal those of the single assembled matrix; the block-diagonal symmetric Hessian likewise.',
  ['inputs'],'all real entries, all sparsity patterns and block sizes within the stated bounds',
  'no unit test exercises the mixed matrices directly',
  [LA+'hiopMatrixMDS.hpp'],[('hiopMatrixMDS, hiopMatrixSymBlockDiagMDS',LA+'hiopMatrixMDS.hpp')])
p('C12','Compound vectors behave as the concatenation of their parts',
  'Every operation on a vector composed of parts gives the same result as that operation on the concatenated vector: element-wise kernels act on all parts, reductions combine all parts, and copies in and out preserve order.',
  ['inputs'],'all real contents, all part counts and sizes within the stated bounds',
  'no test uses compound vectors',
  [LA+'hiopVectorCompoundPD.cpp',LA+'hiopVectorIntCompoundPD.cpp'],[('hiopVectorCompoundPD',LA+'hiopVectorCompoundPD.cpp')])
p('C13','Complex matrices and Kron reduction compute the exact Schur complement',
  'Complex dense and sparse matrix operations (products, scaled additions, row/column sub-matrix extraction with symmetric storage, conversions) equal the dense complex algebra, and the Kron reduction of a symmetric admittance matrix equals Yaa - Yab*inv(Ybb)*Yba with the companion map giving the eliminated-node values. A failed factorization or solve, or an eliminated block the solver finds singular, is reported as failure.',
  ['inputs'],'all complex entries, all index sets within the stated sizes, exact inner solver',
  'tests compare norms of a few fixed matrices',
  [LA+'hiopMatrixComplexDense.cpp',LA+'hiopMatrixComplexSparseTriplet.cpp',UT+'hiopKronReduction.cpp'],[('go / apply_nonaux_to_aux',UT+'hiopKronReduction.cpp')])
p('C14','Krylov solvers only report convergence for a small true residual',
  'Whenever an iterative solver (preconditioned conjugate gradient or BiCGStab) returns success, the returned vector satisfies the linear system to the configured tolerance relative to the right-hand side; whenever it cannot, it returns failure with a non-convergence flag and never more than the configured number of iterations. In exact arithmetic, conjugate gradients solve a symmetric positive definite system within as many iterations as unknowns.',
  ['inputs','configurations'],'all operators, preconditioners, right-hand sides and initial guesses of the stated dimension, all tolerances and iteration caps within bounds',
  'the Krylov solver test is one fixed matrix and not in the stable test list',
  [LA+'hiopKrylovSolver.cpp'],[('solve',LA+'hiopKrylovSolver.cpp')])
p('C15','The filter rejects exactly the dominated trial points',
  'A trial pair (infeasibility, barrier value) is rejected by the filter exactly when some pair added since the last reinitialization is no larger in both components, or its infeasibility reaches the maximum; adding pairs never makes a rejected point acceptable, and reinitialization forgets all earlier pairs.',
  ['histories','inputs'],'all sequences of adds and reinitializations up to the stated length, all real pairs',
  'no test exercises the filter',
  [OP+'hiopFilter.cpp',OP+'hiopFilter.hpp'],[('contains/add/reinitialize',OP+'hiopFilter.cpp')])
p('C16','Line search accepts only steps that make sufficient progress',
  'A trial point accepted by the line search is acceptable to the filter and either satisfies the sufficient-decrease (Armijo) condition when the switching condition holds near feasibility, or reduces infeasibility or barrier value by the required margin; in the latter case, and only when the f-type conditions do not both hold, the filter is augmented. The filter forgets its pairs whenever the barrier parameter changes. Step lengths tried start at the fraction-to-boundary limit and halve down to the minimum before restoration is requested.',
  ['inputs'],'all barrier values, infeasibilities, directional derivatives, step lengths and previous filter contents, in exact arithmetic',
  'only full example runs exist, which exercise a few acceptance patterns',
  [OP+'hiopAlgFilterIPM.cpp'],[('accept_line_search_conditions',OP+'hiopAlgFilterIPM.cpp')])
p('C17','Slack safeguard keeps slacks safely positive and bounds consistent',
  'After tiny slacks are adjusted, every slack is strictly positive and at least as large as before, only slacks below the safeguard threshold change, and the increase is limited by the documented rule; re-deriving the bounds afterwards makes slack = distance to bound hold exactly for every existing bound and leaves missing bounds alone. An adjustment is also well defined at a starting point whose multipliers are zero, and in a solver run every iterate has positive slacks equal to the distance to the bounds in force.',
  ['inputs'],'all positive or zero slacks, multipliers, mu > 0, bound patterns up to the stated sizes',
  'no test reaches tiny slacks',
  [OP+'hiopIterate.cpp',OP+'hiopNlpFormulation.cpp'],[('compute_safe_slacks/adjust_small_slacks',OP+'hiopIterate.cpp'),('adjust_bounds',OP+'hiopNlpFormulation.cpp')])
p('C18','The barrier parameter decreases monotonically to a positive floor',
  'Each barrier update strictly decreases the barrier parameter or reports that it cannot, never increases it, never drops it below the floor implied by the tolerances (a positive fraction of the smaller of the optimality and complementarity tolerances), uses the smaller of the linear and superlinear rules, and sets the boundary fraction tau to max(tau_min, 1-mu) in (0,1). Within a run the barrier parameter reported with the iterations never increases and tau always belongs to it.',
  ['inputs','configurations'],'all mu > 0, tolerances, kappa_mu in (0,1), theta_mu in (1,2), tau_min in (0,1), objective scale > 0',
  'example runs follow a single default mu sequence',
  [OP+'hiopAlgFilterIPM.cpp'],[('update_log_barrier_params',OP+'hiopAlgFilterIPM.cpp')])
p('C19','Reported solve status matches the state of the iterate',
  'A run is declared successful only when the scaled optimality error is within the tolerance (and the unscaled infeasibility, dual and complementarity errors are within their own tolerances when those are active); acceptable-level, relative-tolerance, iteration-limit and user-stop outcomes are declared only when their documented condition holds, and a success condition is never reported as a failure. The objective and constraint values reported with each iteration, including after feasibility restoration, are those of the reported iterate, and every run ends with a definite status that the solution callback also receives.',
  ['inputs','configurations'],'all error values, tolerances, iteration counts, counters and callback answers',
  'example runs end in success with defaults; the other outcomes and tolerance combinations are not exercised',
  [OP+'hiopAlgFilterIPM.cpp'],[('checkTermination',OP+'hiopAlgFilterIPM.cpp')])
p('C20','Residuals and error norms are the KKT residuals of the iterate',
  'The residual computed for an iterate equals the negative KKT conditions of the barrier problem (stationarity in variables and inequality bodies, constraint and bound feasibility, perturbed complementarity), and the reported infeasibility, optimality and complementarity norms, for both the original and the barrier problem, equal the norms of the matching blocks. The infeasibility and optimality errors reported with each iteration of a run are those of the reported iterate.',
  ['inputs'],'all iterates (primal, slacks, multipliers), function values and Jacobians of the stated sizes, all bound patterns, mu >= 0',
  'no test examines residuals',
  [OP+'hiopResidual.cpp',OP+'hiopAlgFilterIPM.cpp'],[('hiopResidual::update, compute_nlp_infeasib_onenorm',OP+'hiopResidual.cpp'),('evalNlpAndLogErrors',OP+'hiopAlgFilterIPM.cpp')])
p('C21','Constraints are split and recombined without loss or reordering',
  'Constraints with equal bounds become equalities with that right-hand side and all others become inequalities with their bounds, and bodies, Jacobian rows and multipliers exchanged with the user always refer to the same user constraint in the user order (for the multipliers given to a mixed dense-sparse Hessian: the documented equalities-first order), whether the user provides constraints in one call or in two.',
  ['inputs','configurations'],'all bound values and equality/inequality interleavings up to the stated constraint count, both evaluation interfaces',
  'the example problems list equalities first or use a single arrangement',
  [OP+'hiopNlpFormulation.cpp'],[('process_constraints, eval_c_d, eval_Jac_c_d, user_callback_solution',OP+'hiopNlpFormulation.cpp')])
p('C22','Bounds are classified by the infinity threshold and counted exactly',
  'A variable or constraint side counts as bounded exactly when a lower bound is above -1e20 or an upper bound below 1e20, the lower/upper/two-sided counts and indicator patterns agree with that, and free sides never contribute slacks or multipliers.',
  ['inputs'],'all bound values (finite, at and beyond the threshold, infinite), stated sizes',
  'examples contain few bound types and never values near the threshold',
  [OP+'hiopNlpFormulation.cpp'],[('process_bounds, process_constraints',OP+'hiopNlpFormulation.cpp')])
p('C23','Removing or relaxing fixed variables preserves the problem',
  'When fixed variables are removed, the user sees full-length points whose fixed entries equal the fixed value, and objective gradient, Jacobian columns and bounds of the remaining variables are those of the user problem in order; when they are relaxed, exactly the fixed variables are widened symmetrically by the configured relative amount. A variable counts as fixed exactly when its bounds differ by no more than the relative tolerance.',
  ['inputs','configurations'],'all bounds, all fixed/free arrangements, points, gradients and Jacobians up to the stated sizes, all tolerances; removal with the two-call constraint interface (one-call with removal is a documented gap of the code)',
  'no stable test has fixed variables with removal',
  [OP+'hiopNlpTransforms.cpp',OP+'hiopNlpTransforms.hpp',OP+'hiopNlpFormulation.cpp'],[('hiopFixedVarsRemover, hiopFixedVarsRelaxer',OP+'hiopNlpTransforms.cpp')])
p('C24','Bound relaxation widens every bound by the documented amount',
  'Bound relaxation moves each lower bound down and each upper bound up by the perturbation times max(1,|bound|), for variables and inequalities alike, so every originally feasible point stays feasible; re-relaxing always starts from the original bounds, and treating equalities as inequalities widens each right-hand side symmetrically by its relative factor.',
  ['inputs','histories'],'all bounds and perturbations, sequences of re-relaxations',
  'no test inspects relaxed bounds',
  [OP+'hiopNlpTransforms.cpp',OP+'hiopNlpFormulation.cpp'],[('hiopBoundsRelaxer',OP+'hiopNlpTransforms.cpp'),('hiopNlpSparseIneq::process_constraints',OP+'hiopNlpFormulation.cpp')])
p('C25','Problem scaling is invisible to the user',
  'With scaling on, the solver works on objective, constraints, bounds, gradients, Jacobians and Hessian multiplied consistently by positive factors (by default the gradient rule: a gradient whose largest entry at the starting point exceeds scaling_max_grad is brought down to it, others are left alone), and the objective, constraint bodies and multipliers handed back to the user are those of the unscaled problem: they satisfy the unscaled optimality conditions whenever the internal ones satisfy the scaled conditions.',
  ['inputs','configurations'],'all gradients, Jacobians, bounds, multipliers and scaling options, both evaluation interfaces, stated sizes',
  'tests do not compare scaled and unscaled quantities; returned multipliers are never checked',
  [OP+'hiopNlpTransforms.cpp',OP+'hiopNlpTransforms.hpp',OP+'hiopNlpFormulation.cpp'],[('hiopNLPObjGradScaling',OP+'hiopNlpTransforms.cpp'),('user_callback_solution, get_dual_solutions',OP+'hiopNlpFormulation.cpp')])
p('C26','Search directions solve the full regularized Newton system (dense problems)',
  'For every interior iterate and residual, whenever the reduced linear system is solved exactly, the direction assembled from the compressed, quasi-Newton and normal-equation linear systems of dense problems satisfies every block of the full-space Newton system, including its regularization terms, whichever object receives it and with or without iterative refinement; a failed or inaccurate factorization is refined or reported. The reported solve error is the norm of what is left.',
  ['inputs'],'all interior iterates, residuals, Jacobians, Hessians, regularizations and bound patterns of the stated sizes, exact inner solver',
  'tests only observe that whole runs converge, which tolerates wrong directions',
  [OP+'hiopKKTLinSys.cpp',OP+'hiopKKTLinSysDense.hpp'],[('computeDirections, compute_directions_for_full_space',OP+'hiopKKTLinSys.cpp'),('build_kkt_matrix / solveCompressed',OP+'hiopKKTLinSysDense.hpp')])
p('C27','Search directions solve the full Newton system (mixed dense-sparse problems)',
  'For every interior iterate and residual of a mixed dense-sparse problem, whenever the condensed dense system is solved exactly, the assembled direction satisfies every block of the full-space regularized Newton system, also on a linear system object that served earlier iterations or refactorizations. The number of negative eigenvalues handed to the inertia correction adds those of the eliminated diagonal block to those of the dense system, and reports a singular system when either is singular.',
  ['inputs'],'all interior iterates, residuals, Jacobians, diagonal sparse Hessians, dense Hessians, regularizations, bound patterns of the stated sizes',
  'tests only observe that a few example runs converge',
  [OP+'hiopKKTLinSysMDS.cpp'],[('build_kkt_matrix, solveCompressed',OP+'hiopKKTLinSysMDS.cpp')])
p('C28','Search directions solve the full Newton system (sparse problems)',
  'For every interior iterate and residual of a sparse problem, whenever the inner sparse system is solved exactly, the direction from the augmented, full, condensed and normal-equation sparse linear systems satisfies every block of the full-space regularized Newton system.',
  ['inputs'],'all interior iterates, residuals, Jacobians, Hessians, regularizations, bound patterns of the stated sizes and sparsity patterns',
  'sparse KKT code is not built or tested in this configuration',
  [OP+'hiopKKTLinSysSparse.cpp',OP+'hiopKKTLinSysSparseCondensed.cpp',OP+'hiopKKTLinSysSparseNormalEqn.cpp'],[('build_kkt_matrix, solveCompressed',OP+'hiopKKTLinSysSparse.cpp')])
p('C29','Regularization grows as documented, within limits, and is applied to both blocks',
  'Across every history of factorization outcomes, primal regularization is zero or within its configured minimum and maximum, grows from the first value or the last one by the documented factors on wrong inertia, the variable and slack parts stay equal, the dual regularization is zero or the documented power of mu, exceeding the maximum is reported as failure, and nothing ever becomes negative. In a run the regularization of every iteration uses the barrier parameter of that iteration.',
  ['histories','configurations'],'all sequences of wrong-inertia/singular/accepted outcomes up to the stated length, all option values in range, mu > 0, every regularization variant',
  'example runs rarely trigger inertia correction and never singularity',
  [OP+'hiopPDPerturbation.cpp',OP+'hiopPDPerturbation.hpp'],[('compute_initial_deltas, compute_perturb_*',OP+'hiopPDPerturbation.cpp')])
p('C30','A factorization is used only with the required inertia',
  'The factorization loop ends successfully only when the factorization reported the required number of negative eigenvalues (the number of constraints), re-factorizes with increased regularization on wrong inertia or singularity, gives up after the bounded number of attempts, and reports failure when regularization cannot be increased; the dense symmetric solver derives the inertia count correctly from its factor.',
  ['histories','inputs'],'all sequences of reported inertia and failures up to the stated length; all 1x1/2x2 pivot structures of the factor up to the stated size',
  'only well-behaved example problems are run',
  [OP+'hiopFactAcceptor.cpp',OP+'hiopKKTLinSys.cpp',LA+'hiopLinSolverSymDenseLapack.hpp'],[('requireReFactorization',OP+'hiopFactAcceptor.cpp'),('factorize',OP+'hiopKKTLinSys.cpp'),('matrixChanged',LA+'hiopLinSolverSymDenseLapack.hpp')])
p('C31','Multiplier initialization solves the least-squares problem',
  'The least-squares multiplier update returns equality and inequality multipliers minimizing the stationarity residual for the given gradient, Jacobians and bound multipliers (its normal equations hold exactly with an exact solver); it discards estimates above the configured magnitude, and the Newton update adds the dual step to every multiplier block.',
  ['inputs'],'all gradients, Jacobians, bound multipliers of the stated sizes, exact inner solver',
  'no test inspects multipliers',
  [OP+'hiopDualsUpdater.cpp'],[('do_lsq_update, go',OP+'hiopDualsUpdater.cpp')])
p('C32','The quasi-Newton Hessian satisfies the secant conditions and its inverse matches',
  'After every accepted pair, the limited-memory Hessian approximation is symmetric, maps the latest step to the latest gradient change, equals the documented compact BFGS formula for the stored pairs, keeps at most the configured number of the most recent pairs, and skips pairs without sufficient curvature; its inverse operators (vector solve and weighted product) invert exactly the matrix its multiplication applies.',
  ['histories','inputs'],'all iterate/gradient/Jacobian/multiplier histories up to the stated length and sizes, memory lengths within bounds, every initial scaling rule',
  'tests see only whole-run convergence',
  [OP+'hiopHessianLowRank.cpp'],[('update, updateInternalBFGSRepresentation, solve, symMatTimesInverseTimesMatTrans, timesVec',OP+'hiopHessianLowRank.cpp')])
p('C33','The feasibility-restoration problem is the documented relaxation',
  'The restoration problem uses nonnegative elastic variables p, n with c(x)-p+n and d(x)-p+n as constraints, objective rho*(sum p + sum n) plus the proximal term around the reference point, gradient, Jacobian and Hessian that are exact derivatives of these functions, bounds inherited from the original problem, and a starting point that satisfies its constraints exactly with positive p and n. Elastic variables reset during restoration are those of the current point, and restoration ends only when infeasibility dropped to the configured fraction and the original point is acceptable to the original filter.',
  ['inputs'],'all points, constraint values, Jacobians, reference points, penalty values of the stated sizes, dense, mixed and sparse variants',
  'restoration is not reached by the stable tests',
  [OP+'hiopFRProb.cpp',OP+'hiopFRProb.hpp'],[('eval_f, eval_grad_f, eval_cons, eval_Jac_cons, get_warmstart_point',OP+'hiopFRProb.cpp')])
p('C34','Options accept only valid values and keep the documented precedence',
  'A setting takes effect only when the value lies in the documented range or value set of the option (no NaN, no partially numeric text), otherwise the previous value stays and a warning is issued; without a setting the documented default is returned and the values read back are those set. Settings of an option file overwrite settings made by the program, which overwrite defaults, for integer, string and numeric options alike, and the rules that keep options mutually consistent never change a value chosen by the user without a warning.',
  ['inputs','histories','configurations'],'all numeric values, every registered option, sequences of settings up to the stated length, option files of the listed shapes',
  'no test covers the options facility',
  [UT+'hiopOptions.cpp',UT+'hiopOptions.hpp'],[('SetNumericValue, SetIntegerValue, SetStringValue, load_from_file, ensure_consistence',UT+'hiopOptions.cpp')])
p('C35','The primal-decomposition recourse model is a consistent quadratic',
  'The recourse approximation added to the master problem equals value plus linear plus diagonal quadratic term around the reference point on the coupling variables only, its gradient and Hessian are the exact derivatives, and they are added to (not replacing) the master values. Its curvature coefficient and trust ratio follow the documented update rules and always stay within their configured bounds; the serial solver builds the model from the average of all recourse terms at the current iterate, stops exactly when a documented termination criterion is met, and returns the status of the last master problem.',
  ['inputs','histories'],'all points, values, gradients, curvatures, coupling index lists, iterate histories of the stated sizes',
  'one example problem is run',
  [IF+'hiopInterfacePrimalDecomp.cpp',OP+'hiopAlgPrimalDecomp.cpp'],[('RecourseApproxEvaluator',IF+'hiopInterfacePrimalDecomp.cpp'),('HessianApprox, run_single, stopping_criteria',OP+'hiopAlgPrimalDecomp.cpp')])
p('C36','The C interface forwards every callback faithfully',
  'A problem described through the C interface (or the Fortran layer on top of it) presents to the solver exactly the sizes, bounds, functions, derivatives and starting point its callbacks supply, with arguments in the documented order, and hands back the solution and objective the solver reports.',
  ['inputs'],'all callback results of the stated sizes',
  'two fixed example problems are run',
  [IF+'chiopInterface.hpp',IF+'chiopInterface.cpp'],[('cppUserProblemMDS, cppUserProblemDense',IF+'chiopInterface.hpp')])
p('C37','A failing user function stops the solver with an error status',
  'When a user-provided function or derivative evaluation reports failure, at whatever point of the run it happens (starting point, line search, second-order correction, feasibility restoration, derivative evaluation), the run ends with an error status that says so; it never aborts, never continues with unset values and never reports success.',
  ['fault_sequences','inputs'],'every evaluation call of a run as the first to fail, all objective values along the way',
  'no test makes a user function fail',
  [OP+'hiopAlgFilterIPM.cpp'],[('run, startingProcedure, apply_second_order_correction, solve_soft_feasibility_restoration, reset_var_from_fr_sol',OP+'hiopAlgFilterIPM.cpp')])
p('C38','The parallel primal-decomposition solver is independent of the schedule',
  'Whatever order the workers finish in, each outer iteration of the parallel PriDec solver evaluates every recourse term exactly once at the current iterate, hands the master problem the average of all values and gradients, and ends on all ranks after the same number of iterations. No schedule deadlocks, loses or mismatches a message, or leaves a nonblocking operation incomplete, with either accumulation scheme.',
  ['schedules','inputs'],'all distinguishable completion orders of the workers, buffered and synchronous sends, arbitrary recourse values, rank and term counts within bounds',
  'a run sees one schedule; the stable tests start one process',
  [OP+'hiopAlgPrimalDecomp.cpp'],[('run, run_local, ReqRecourseApprox, ReqContingencyIdx',OP+'hiopAlgPrimalDecomp.cpp')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
