#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  The text lives here because JSON lines are unreadable to edit."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": s[0], "meaning": s[1], "where": s[2]} for s in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

U = ["abs","acos","acosh","asin","asinh","atan","atanh","cos","cosh","erf","erfc","exp","inv","inv_logit",
     "inv_sqrt","inv_square","log","log_gamma","logit","sin","sinh","sqrt","square","tan","tanh"]
ufiles = ["src/%s.F90" % u for u in U]

prop("P01", "Unary function derivatives are exact on every branch",
 "For every differentiable unary function of a variable (including unary minus and plus), and every input in the interior of the function's domain, running the reverse sweep adds to the input's adjoint exactly (result adjoint) times (mathematical derivative of the function at the input). This holds whichever special-case branch the implementation takes for that input, and nothing else receives a contribution.",
 ["inputs"], "all real inputs in the interior of each function's domain, all result adjoints",
 "Each unit test checks two or three points per function; a branch taken only for special inputs, or a formula wrong only away from the sampled points, is not reached.",
 ufiles + ["src/sub.F90","src/add.F90"],
 [("chain_* back-propagation routines registered by each function", "src/<op>.F90"), ("set_operand_adj", "src/vari.F90")],
 ["x%adj() after f(x)%grad()"])
prop("P02", "Binary operator derivatives are exact for var and mixed arguments",
 "For + - * / ** and hypot, for every combination of variable and plain real arguments and all argument values where the operation is differentiable, the reverse sweep adds to each variable argument exactly (result adjoint) times (partial derivative). Neutral plain arguments (adding 0, multiplying or dividing by 1, special exponents) give the same derivatives as any other.",
 ["inputs"], "all real argument pairs in the domain, all three argument-kind combinations, all result adjoints",
 "The tests use a handful of generic operand values; shortcuts for neutral data operands and special exponents are never differentiated by any test.",
 ["src/add.F90","src/sub.F90","src/mul.F90","src/div.F90","src/pow.F90","src/hypot.F90"],
 [("chain_* routines and neutral-element shortcuts", "src/{add,sub,mul,div,pow,hypot}.F90")],
 ["x%adj(), y%adj() after f(x,y)%grad()"])
prop("P03", "Array reductions and matmul: value and derivative for every shape",
 "For sum, norm2, dot_product, log_sum_exp and matmul over arrays of any length or conforming shape, with variables on either or both sides where mixed arguments are supported, the result value equals the mathematical definition and the reverse sweep adds to every element of every variable argument exactly (result adjoint) times (partial derivative with respect to that element). No element is missed, duplicated or attributed to another position.",
 ["inputs"], "all array lengths and conforming matrix shapes, all element values, all result adjoints",
 "Tests use one or two small fixed shapes (mostly square or equal-sized), where transposed strides, swapped dimensions or off-by-one bounds can cancel.",
 ["src/sum.F90","src/norm2.F90","src/dot_product.F90","src/log_sum_exp.F90","src/matmul.F90","src/array_in_tape.F90"],
 [("chain_* routines", "src/{sum,norm2,dot_product,log_sum_exp,matmul}.F90"), ("array_in_tape views", "src/array_in_tape.F90")])
prop("P04", "Log densities: value and partial derivatives for any data length",
 "For the normal and log-normal log density, for every data array and every combination of variable and plain location and scale arguments, the value is the log of the documented density summed over the data and the reverse sweep delivers the exact partial derivative with respect to each variable argument. The variable and plain forms return the same value.",
 ["inputs"], "all data lengths and values, all location values, all positive scales, all four argument-kind combinations",
 "One data set per density is tested.",
 ["src/prob/normal_lpdf.F90","src/prob/lognormal_lpdf.F90","src/chain_eager_adj.F90"],
 [("logp / grad_mu / grad_sigma and var_with_partials", "src/prob/*.F90, src/chain_eager_adj.F90")])
prop("P05", "Operation values equal the documented function",
 "For every unary and binary operation on variables, and for the plain-real overloads the library adds (such as the logistic functions), the value of the result equals the documented mathematical function of the argument values, on every branch. An operation aborts only for arguments outside the domain of the documented function.",
 ["inputs"], "all real argument values in the domain of each operation",
 "Tests compare a few values per function and skip some functions (inverse square, special exponents, zero operands) altogether.",
 ufiles + ["src/add.F90","src/sub.F90","src/mul.F90","src/div.F90","src/pow.F90","src/hypot.F90"],
 [("value expression given to the var constructor", "src/<op>.F90")], ["f(x)%val()"])
prop("P06", "Operations never disturb variables that already exist",
 "Applying any function or operator leaves every variable that existed before untouched: its value, its adjoint and the way it propagates derivatives stay as they were, even when the operation returns its argument itself. Hence the gradient of one expression never depends on which other expressions were built from the same variables.",
 ["inputs","programs"], "all operations, all operand values including those that trigger identity shortcuts, all expression graphs",
 "Tests build each expression once with generic operands, so a shortcut that re-tags its operand is never observed.",
 ["src/add.F90","src/sub.F90","src/mul.F90","src/div.F90","src/pow.F90","src/hypot.F90","src/abs.F90"] ,
 [("set_chain only on freshly created nodes", "src/<op>.F90")])
prop("P07", "Every unary and binary function is elemental and accepts mixed kinds",
 "Every documented unary function accepts a scalar or an array of variables of any rank, and every documented binary operation accepts variables and plain reals in every mixture, scalar or array, producing the element-wise result. Using the library's single umbrella import is enough to get every documented function.",
 ["programs"], "all documented functions, all argument ranks and kind mixtures",
 "Tests call each function with the one or two signatures they need; a missing overload, a non-elemental specific or a function absent from the umbrella import only shows up as a user's compile error.",
 ["src/fazang.F90"] + ufiles + ["src/sub.F90"],
 [("generic interfaces with elemental specifics", "src/<op>.F90"), ("umbrella re-exports", "src/fazang.F90")])
prop("P08", "Comparisons with variables agree with comparisons of their values",
 "For each of == /= < > <= >=, and each mixture of variable and plain real operands on either side, the result equals the same comparison applied to the values in the same order.",
 ["inputs"], "all six operators, three operand mixtures, all value pairs including equal values and NaN",
 "Only variable-variable comparisons are tested.",
 ["src/relational.F90"], [("FUNC_REL_OP_* macros", "src/relational.F90")])
prop("P09", "Published constants and classification predicates mean what they say",
 "Each published mathematical constant has the value its name denotes to full double precision, and the NaN and infinity predicates hold exactly for NaN, plus infinity and minus infinity respectively. The plain value accessor returns the value of a variable and leaves a plain real unchanged.",
 ["inputs"], "all published constants; predicates over all double values",
 "Constants are used only indirectly by a few tests, and predicates are tried on single values.",
 ["src/arith.F90","src/value_of.F90"], [("parameter definitions and predicates", "src/arith.F90"), ("select type", "src/value_of.F90")])
prop("P10", "Stabilised functions never overflow internally",
 "Log-sum-exp and the inverse logit never exponentiate a positive quantity, in value or derivative, so no finite input makes an intermediate overflow. Log-sum-exp of entries whose maximum is infinite returns that maximum rather than NaN.",
 ["inputs"], "all finite inputs of any magnitude and array length; maxima of plus or minus infinity",
 "Tests use moderate inputs for which the unstabilised formula gives the same answer.",
 ["src/log_sum_exp.F90","src/inv_logit.F90"], [("shift by maximum, sign-split exponentials", "src/log_sum_exp.F90, src/inv_logit.F90")])
prop("P12", "Adjoint contributions accumulate",
 "Delivering contributions to operands adds each contribution to the adjoint the operand already has, and when the same variable occurs several times among the operands every one of its contributions counts. No other variable's adjoint and no value changes.",
 ["inputs","programs"], "all operand counts, all operand lists including repeated operands, all prior adjoints",
 "Tests with a repeated operand use one fixed operator; overwriting instead of accumulating, or gathering before scattering, survives on distinct operands with zero prior adjoints.",
 ["src/vari.F90"], [("set_operand_adj_all / set_operand_adj_by_index", "src/vari.F90")])
prop("P13", "The reverse sweep visits every recorded node once, newest first",
 "Requesting a gradient seeds the requested result with adjoint one and then lets every node recorded so far propagate exactly once, in reverse order of creation, down to the first node ever recorded. The nested form does the same but stops at the first node recorded since the innermost nested environment was opened.",
 ["programs","histories"], "all tape lengths, all requested results, all nesting depths including none",
 "Tests use short tapes; a sweep that starts or stops one node early, or reads outside the registry when no nested environment is open, is invisible on them.",
 ["src/var.F90","src/nested.F90"], [("grad, grad_nested", "src/var.F90"), ("curr_nested_vari_head", "src/nested.F90")])
prop("P14", "Back-propagation never records new nodes",
 "Nothing that runs during a reverse sweep records a new variable, grows the tape or the node registry, re-tags nodes, or changes recorded values: it only reads records and updates adjoints. Sweeping the same tape again therefore stays valid.",
 ["programs"], "all propagation routines of all operations and everything they can call",
 "A propagation routine that records works on short tapes and fails only when the registry happens to be reallocated mid-sweep.",
 ["src/vari.F90","src/var.F90","src/tape.F90"] , [("chain procedures registered with set_chain", "src/*.F90")])
prop("P15", "Everything written to the tape is read back unchanged",
 "For every kind of record (plain value, with operands, with data, with both), reading its value, adjoint, operand count, operand list, operand values and adjoints, data count, data and total length returns exactly what was recorded, for every operand and data count including zero; a new record's adjoint starts at zero. Writing one record never changes another.",
 ["inputs","histories"], "all operand and data counts, all values, all prior tape contents",
 "Tests push a few records of fixed small sizes; accessors used by no test (record length, current adjoint) are wrong unnoticed.",
 ["src/tape.F90","src/vari.F90"], [("push_* writers and *_operand readers", "src/tape.F90"), ("forwarding accessors", "src/vari.F90")],
 state=[("storage, head", "integer tape and first free cell", "src/tape.F90 type tape")])
prop("P16", "Tape growth preserves contents and every write stays inside storage",
 "No write to the tape falls outside its allocated storage, whatever the record sizes and the fill level. Enlarging the tape keeps every recorded cell, leaves the free part zero, and ends with room for the requested amount.",
 ["inputs","histories"], "all fill levels and request sizes, including requests larger than the doubled size",
 "Growth is tested for one sequence of sizes; an under-reserved record is an out-of-bounds write only when it straddles the end of storage.",
 ["src/tape.F90"], [("alloc_storage", "src/tape.F90")])
prop("P17", "The node registry grows without losing or misplacing variables",
 "Creating a variable always reserves a registry slot before using it, stores the node there, and returns a handle to that very slot. Enlarging the registry keeps every existing node's location and propagation rule, so handles held by user code stay valid.",
 ["histories"], "all numbers of variables, all constructor forms",
 "One test crosses a single growth boundary with one constructor form.",
 ["src/vari.F90"], [("alloc_vari_stack_n", "src/vari.F90"), ("new_vari_*", "src/vari.F90")])
prop("P18", "A new variable starts clean",
 "A freshly created variable has adjoint zero and propagates nothing until an operation gives it a propagation rule, even if it reuses space that earlier, already discarded variables occupied.",
 ["histories"], "all creation forms, all earlier histories including closed nested environments",
 "Tests never re-create variables in reused space after operations with propagation rules have been discarded.",
 ["src/vari.F90","src/nested.F90"], [("new_vari_* constructors, default chain", "src/vari.F90"), ("end_nested wiping", "src/nested.F90")])
prop("P19", "Variable constructors and assignment are element-wise and independent",
 "Constructing variables from a scalar, a 1D or 2D array, or dimensions creates one new independent variable per element with the corresponding value (zero when none is given). Assigning reals to variables (scalar, 1D or 2D, from same-shape or scalar) sets the value of every element to the corresponding source element and nothing else.",
 ["inputs"], "all array extents (including zero and non-square), all values",
 "Tests use a few fixed small extents.",
 ["src/var.F90","src/vari.F90"], [("new_var_*, set_var_*", "src/var.F90")])
prop("P20", "Closing a nested environment restores the state at its opening",
 "Closing a nested environment brings the numbers of recorded nodes and tape cells back to what they were when it was opened, erases exactly the cells recorded since, leaves everything recorded before untouched, and returns to the enclosing nesting level; closing when none is open does nothing. It never touches memory outside the tape, however full or empty the tape is.",
 ["histories"], "all nesting depths and sequences, all tape fill levels including never-used and exactly full",
 "Tests open one or two levels on a half-empty tape.",
 ["src/nested.F90"], [("begin_nested, end_nested", "src/nested.F90")],
 state=[("nest_level, nested_tape_head, nested_vari_head", "saved heads per level", "src/nested.F90")])
prop("P21", "Local gradients leave the surrounding computation untouched",
 "Computing a local gradient or Jacobian of a function opens exactly one nested environment, closes it on every way out, propagates only within it, and so leaves all variables and adjoints of the surrounding computation unchanged. The same holds for the ODE right-hand-side derivative callbacks.",
 ["programs","histories"], "all enclosing tapes with arbitrary pending adjoints",
 "Tests call these helpers on an otherwise unused tape.",
 ["src/grad.F90","src/cvodes_model.F90"], [("begin_nested / grad_nested / end_nested pairing", "src/grad.F90, src/cvodes_model.F90")])
prop("P22", "Local gradient and Jacobian results have the documented layout",
 "The local gradient returns the function value first and then one partial derivative per input in input order; the local Jacobian returns the function values in the first column and, for each output row, the partial derivative with respect to each input in order. Each row contains that output's derivatives only.",
 ["inputs"], "all numbers of inputs and outputs",
 "One shape each is tested.",
 ["src/grad.F90"], [("gradient, jacobian", "src/grad.F90")])
prop("P23", "Zeroing adjoints covers exactly the intended variables",
 "Zeroing all adjoints resets every recorded variable's adjoint and changes nothing else. The nested form resets exactly the variables recorded since the innermost nested environment was opened, or all of them when none is open.",
 ["histories"], "all numbers of recorded variables and nesting depths including none",
 "Tests check a few variables on short tapes.",
 ["src/vari.F90","src/nested.F90","src/grad.F90"], [("set_zero_all_adj, set_zero_nested_adj", "src/vari.F90, src/nested.F90")])
prop("P24", "Matrices stored on the tape are read back by row and column correctly",
 "A vector or matrix of variables or reals stored on the tape reports its dimensions, and reading its i-th row or j-th column returns exactly those elements in order, for every shape. This holds for both the tape-level and the view-level accessors.",
 ["inputs"], "all shapes including non-square, single-row and single-column; all row and column numbers",
 "Tests use one small matrix per accessor.",
 ["src/array_in_tape.F90","src/tape.F90"], [("matrix_*_index / matrix_*_data", "src/tape.F90"), ("row, col, data_row, data_col", "src/array_in_tape.F90")])
prop("P25", "NaN inputs are never turned into ordinary numbers",
 "When an argument value of a unary function or of an arithmetic operator is NaN, the value of the result is NaN (apart from a NaN exponent of base one or a zero exponent) and the call does not abort. NaN never takes a branch meant for ordinary numbers.",
 ["inputs"], "all unary functions and arithmetic operators; NaN in each argument position",
 "Tests only pass ordinary numbers except for one function.",
 ufiles + ["src/add.F90","src/sub.F90","src/mul.F90","src/div.F90","src/hypot.F90"], [("branch conditions", "src/<op>.F90")])
prop("P27", "ODE sensitivity right-hand side is the chain rule for any problem size",
 "For an ODE system of any size, with sensitivities to initial conditions or to any number of parameters, the sensitivity right-hand side of component i in direction j is the sum over k of the partial derivative of component i with respect to state k times sensitivity k in direction j, plus the partial derivative of component i with respect to parameter j for parameter directions. Derivatives of one component never leak into another.",
 ["inputs"], "all system sizes, all parameter counts, all states and sensitivities",
 "Tests use one two-state system with exactly three parameters.",
 ["src/cvodes_model.F90"], [("set_sens_rhs, calc_jac_yvar, CVSensRhsFn, RhsFn", "src/cvodes_model.F90")])
prop("P28", "ODE sensitivities start from the right initial values",
 "When solving for sensitivities to the initial condition the sensitivity matrix starts as the identity; for parameter sensitivities it starts as zero, for any state and parameter counts. As many sensitivity directions are integrated as requested, with the right-hand-side callbacks belonging to the requested problem kind and access to the problem's own data.",
 ["inputs","configurations"], "all system sizes, parameter counts and the three problem kinds",
 "Tests use one size per kind.",
 ["src/cvodes.F90","src/cvodes_model.F90"], [("new_cvodes_service, cvs_rhs constructors", "src/cvodes.F90, src/cvodes_model.F90")])
prop("P29", "ODE solutions carry the right values and derivatives at each output time",
 "Column k of an ODE solution holds the state at the k-th requested time, in the order of the state components, for any number of times. In the sensitivity forms each entry's derivative with respect to the j-th initial value or parameter is the integrated sensitivity of that component in direction j at that same time.",
 ["inputs"], "all system sizes, parameter counts and output-time counts",
 "Tests use two states, up to three parameters and three times.",
 ["src/cvodes.F90","src/chain_eager_adj.F90"], [("cvodes_sol_data, cvodes_sol_y0_sens, cvodes_sol_par_sens", "src/cvodes.F90")])
prop("P30", "No ODE solver failure is silently ignored",
 "Whenever a solver-library call made while solving an ODE reports failure, the solve stops with an error instead of returning numbers. This covers creation, configuration, options, integration and sensitivity retrieval.",
 ["fault_sequences"], "every status-returning or handle-returning solver call on every solve path, failing with any error code",
 "Tests never make a solver call fail.",
 ["src/cvodes.F90","src/cvodes_options.F90"], [("ierr checks", "src/cvodes.F90, src/cvodes_options.F90")])
prop("P31", "ODE solver resources are released exactly once and never used after",
 "Every solver object created for a solve is released exactly once when the solve ends, in an order in which no object is released before one that still refers to it, and only objects that were actually created are released. No solver object keeps referring to caller data beyond that data's lifetime.",
 ["programs"], "every solve path, with and without sensitivities, contiguous or strided caller arrays",
 "Leaks, double releases and dangling references do not change the tested numbers.",
 ["src/cvodes.F90","src/cvodes_model.F90"], [("new_cvodes_service / free_cvodes_service", "src/cvodes.F90")])
prop("P32", "ODE solver options and problem settings reach the solver unaltered",
 "The integration method, tolerances, step limit, start time and initial state requested by the caller are the ones handed to the solver before integration starts, on every solve path. The right-hand side evaluated by the solver is the caller's function with the solver's time, state and output in that order.",
 ["inputs","configurations"], "all option values and all three solve forms",
 "Tests use one option set; swapped tolerances or an ignored step limit leave the tested numbers within tolerance.",
 ["src/cvodes.F90","src/cvodes_options.F90","src/cvodes_model.F90"], [("set, FCVodeCreate/FCVodeInit arguments", "src/cvodes_options.F90, src/cvodes.F90")])
prop("P40", "ODE solutions are accurate to the requested tolerances",
 "The returned ODE solution and sensitivities are within the requested relative and absolute tolerances of the exact solution for smooth problems.",
 ["inputs"], "all smooth ODE problems and tolerances",
 "Three fixed problems are tested.",
 ["src/cvodes.F90","lib/sundials-6.1.1"], [("CVODES step-size control", "lib/sundials-6.1.1/src/cvodes")])
prop("P41", "Digamma is accurate to double precision over its whole domain",
 "The digamma function provided by the library, which feeds the log-gamma derivative, is within a few units in the last place of the exact digamma function wherever it is finite.",
 ["inputs"], "all doubles that are not poles",
 "A handful of points are tested.",
 ["src/digamma.F90"], [("rational approximations", "src/digamma.F90")])
prop("P42", "Rounding errors of values and derivatives stay small",
 "Floating-point evaluation of every operation and its derivative is accurate to a few units in the last place for all inputs, including nearly cancelling and extreme ones.",
 ["inputs"], "all doubles", "Tests compare with tolerance at a few points.",
 ["src"], [("arithmetic formulas", "src/*.F90")])
L = "lib/sundials-6.1.1/src/"
prop("P50", "Vector operations of the solver compute the documented result for any length and aliasing",
 "Each operation of the solver's serial vectors (linear combinations, products, norms, inverses, comparisons, constraint masks, fused and array forms) stores exactly the documented element values or returns the documented reduction, for every length, coefficient value and coincidence of its arguments. It leaves its other arguments unchanged and touches no memory outside the vectors.",
 ["inputs"], "all vector lengths including zero, all coefficients including 0, 1 and -1, all element values, all permitted argument coincidences",
 "The shipped tests integrate a few two- and three-state systems; special-cased coefficients, aliased arguments and the end elements of longer vectors are not reached.",
 [L+"nvector/serial/nvector_serial.c", L+"sundials/sundials_nvector.c", L+"sundials/sundials_nvector_senswrapper.c"],
 [("N_V*_Serial and the generic N_V* dispatch", L+"nvector/serial/nvector_serial.c, "+L+"sundials/sundials_nvector.c")])
prop("P51", "Dense matrix operations and linear solves are exact for any size and pivot order",
 "Dense matrix creation, zeroing, copy, scaled addition of the identity or another matrix, and matrix-vector product give the documented entries for every shape. Factoring and solving with the dense linear solver yields the vector x with A x = b for every nonsingular matrix whichever rows have to be exchanged, and an exactly singular matrix is reported and not solved.",
 ["inputs"], "all matrix sizes and entries, all pivot orders",
 "Newton matrices of the tested problems are 2x2 or 3x3, diagonally dominant and need no row exchange.",
 [L+"sunmatrix/dense/sunmatrix_dense.c", L+"sunlinsol/dense/sunlinsol_dense.c", L+"sundials/sundials_dense.c"],
 [("denseGETRF / denseGETRS, SUNMat*_Dense", L+"sundials/sundials_dense.c, "+L+"sunmatrix/dense/sunmatrix_dense.c")])
prop("P52", "Multistep formulas and history updates are exact for any step-size history",
 "For every order and any sequence of past step sizes the solver's BDF and Adams coefficients (corrector polynomial, leading coefficient, error constants) are the ones the variable-step formulas prescribe. Predicting, undoing a prediction, changing the step size, raising or lowering the order, and completing a step transform the stored history of the state and of every sensitivity exactly as the interpolating polynomial they represent requires.",
 ["inputs","histories"], "all orders (BDF 1-5, Adams 1-12), all positive step histories, all numbers of sensitivities",
 "A wrong coefficient or history column degrades order or step selection, and the error control hides it within the tolerance of the few tested problems.",
 [L+"cvodes/cvodes.c"], [("cvSet, cvSetBDF, cvSetAdams, cvPredict, cvRestore, cvRescale, cvIncreaseBDF, cvDecreaseBDF, cvAdjustAdams, cvCompleteStep", L+"cvodes/cvodes.c")])
prop("P53", "Interpolated solutions and sensitivities are the requested derivative at the requested time",
 "Asking the solver for the k-th derivative of the state or of any sensitivity at a time inside the last step returns exactly that derivative of the stored interpolating polynomial. Times outside the last step, derivative orders beyond the current order, and sensitivity indices out of range are refused with the matching error code and leave the output untouched.",
 ["inputs"], "all orders, derivative orders, times, sensitivity counts and indices",
 "Tests ask only for values (derivative order 0) of small systems.",
 [L+"cvodes/cvodes.c"], [("CVodeGetDky, CVodeGetSens, CVodeGetSens1, CVodeGetSensDky, CVodeGetSensDky1", L+"cvodes/cvodes.c")])
prop("P54", "Error weights follow the requested tolerances",
 "Every error weight of the state and of each sensitivity is the reciprocal of relative tolerance times magnitude plus absolute tolerance, with the tolerances given (scalar, per-component, or derived from parameter scalings). A tolerance combination that would give a nonpositive weight is refused instead of being used, and illegal tolerances are rejected.",
 ["inputs","configurations"], "all tolerances, states, parameter scalings and sensitivity counts",
 "A misassembled weight changes accuracy, not the tested values within tolerance.",
 [L+"cvodes/cvodes.c"], [("cvEwtSet, cvSensEwtSet, CVodeSStolerances, CVodeSVtolerances, CVodeSens*tolerances", L+"cvodes/cvodes.c")])
prop("P55", "Steps are accepted, rejected and resized exactly by the error and failure rules",
 "A step is accepted exactly when the weighted local error of the state, and of the sensitivities when they are error controlled, is at most one. A rejected or failed attempt restores the previous time and history of state and sensitivities, retries with the prescribed reduction within the step limits, lowers the order or restarts after repeated failures, and gives up with the matching error code after the permitted number. The first step lies within its bounds, and the next step size and order follow the error estimates and their limits. The counts of failures and evaluations grow by exactly what happened.",
 ["histories","fault_sequences","inputs"], "all local errors, step sizes and limits, orders, and sequences of correction, right-hand-side and error-test failures in a step",
 "Tests integrate easy problems in which almost no step fails; a wrong retry or a skipped sensitivity error test stays within the tested tolerance.",
 [L+"cvodes/cvodes.c"], [("cvStep, cvDoErrorTest, cvHandleNFlag, cvPrepareNextStep, cvHin", L+"cvodes/cvodes.c")])
prop("P56", "The corrector solves the implicit equations of state and sensitivities or says why not",
 "In every step the correction is sought by Newton steps on the residual of the implicit formula, for the state and for every sensitivity, each with the negative residual at the newest iterate as right-hand side and with the weights of its own vector. It is accepted by the documented convergence test. The linear set-up is called exactly when prescribed and told why. Divergence or too many iterations leads to one retry with a fresh Jacobian before a recoverable failure is reported. Failures of the right-hand sides and of the linear solver are handed on with the matching code. Counters record what was done.",
 ["inputs","histories","fault_sequences"], "all states, weights, tolerances and linear-solver answers; staggered, one-at-a-time and simultaneous sensitivities; failures at every point of the iteration; Newton iteration",
 "A corrector that accepts too early or uses the wrong weights still converges on the tested problems; the retry with a fresh Jacobian is hardly ever taken.",
 [L+"cvodes/cvodes_nls.c", L+"cvodes/cvodes_nls_stg.c", L+"cvodes/cvodes_nls_stg1.c", L+"cvodes/cvodes_nls_sim.c", L+"sunnonlinsol/newton/sunnonlinsol_newton.c", L+"cvodes/cvodes.c"], [("cvNls, cvStgrNls, cvStgr1Nls", L+"cvodes/cvodes.c"), ("SUNNonlinSolSolve_Newton", L+"sunnonlinsol/newton/sunnonlinsol_newton.c"), ("cvNlsResidual, cvNlsConvTest, cvNlsLSetup, cvNlsLSolve", L+"cvodes/cvodes_nls.c")])
prop("P57", "Solver options are stored as given or refused without effect, and reported quantities are the solver's own",
 "Every option of the ODE solver stores the given value, or the documented default for the documented special value, in the one setting it governs. A value outside its documented range is refused with the matching code and changes nothing. Every query delivers the quantity it names, current at the call, and changes nothing. Options and queries on a missing solver, or for a feature that was not enabled, are refused with the matching code.",
 ["inputs","configurations"], "all option values and all solver states",
 "Tests set a handful of options to legal values and query almost nothing; a swapped counter or a default applied on the wrong side of a bound goes unnoticed.",
 [L+"cvodes/cvodes_io.c"], [("CVodeSet*, CVodeGet*", L+"cvodes/cvodes_io.c")])
prop("P64", "The linear systems of the corrector use an up-to-date Jacobian and report what the linear solver said",
 "The matrix factored for the corrector is the identity minus gamma times the Jacobian at the given time and state. The Jacobian is the caller's function's or, without one, the column-by-column difference quotient of the right-hand side with the documented increments. It is evaluated anew exactly at the first step, after the documented number of steps, after a convergence failure attributed to it while gamma changed little, or after another failure; otherwise the kept one is used unaltered. A solve hands matrix and right-hand side to the linear solver with a zero first guess, returns its answer, scaled by 2/(1+gamma ratio) for BDF only, and maps its status to success, recoverable or unrecoverable failure. A failed Jacobian or factorisation is reported as such. Linear solver settings are stored as given or refused without effect, and its reports deliver its own counters.",
 ["inputs","histories","fault_sequences","configurations"], "all states, weights, steps, gammas, Jacobians and linear-solver statuses; dense matrices with a direct solver",
 "A stale, wrongly scaled or half-cleared matrix still converges on the tested problems, only slower or to slightly other values.",
 [L+"cvodes/cvodes_ls.c"], [("CVodeSetLinearSolver, cvLsDenseDQJac, cvLsLinSys, cvLsSetup, cvLsSolve, cvLsInitialize", L+"cvodes/cvodes_ls.c")])
prop("P65", "Advancing the solution stops where it should and returns the state at the time it reports",
 "Advancing the ODE solver to a time takes internal steps until that time is reached or passed and returns the stored polynomial's value there; asking for one step returns the state just reached. A set stop time is never passed. The call ends with the matching code, and the last time and state reached, when the permitted number of steps is used up, too much accuracy is asked for, the weights become unusable or a step fails. The first call evaluates the initial derivatives of state and sensitivities once, hands failures of those evaluations on with the matching code, and starts with a step inside the step limits. An unusable call is refused without touching solution or output.",
 ["inputs","histories","fault_sequences"], "all times, stop times, step histories and step outcomes; both output modes; any number of sensitivities; no root functions",
 "Tests advance a few easy problems to a few times; overshoot, stop-time and failure returns are never taken.",
 [L+"cvodes/cvodes.c"], [("CVode, cvHandleFailure", L+"cvodes/cvodes.c")])
prop("P62", "Starting and restarting a problem leaves nothing of an earlier one behind",
 "A solver starts a problem from exactly the initial time, state and sensitivities given (its own copies of them), at order one with all counters zero. Restarting a used solver gives the new problem the same start and keeps every option, and no number left over from the earlier problem influences the steps of the new one. A start or restart with a missing solver, state, right-hand side, initial sensitivities, an illegal method or an insufficient vector type is refused with the matching code and changes nothing of the problem in progress. Before the first step the set-up is checked (tolerances given, weights positive, parameters known where difference quotients need them) and the linear solver and then the nonlinear solvers are initialised once each, any failure ending the call with its code.",
 ["inputs","histories","fault_sequences"], "all initial values and all contents of a used solver; both formulas, the three correction methods; state and forward sensitivities",
 "Tests never restart a solver and never start one wrongly.",
 [L+"cvodes/cvodes.c"], [("CVodeInit, CVodeReInit, CVodeSensInit, CVodeSensInit1, CVodeSensReInit, CVodeSensToggleOff, cvInitialSetup", L+"cvodes/cvodes.c")])
prop('P60', 'Everything the solver library allocates is released exactly once, nothing of the user\'s is',
     'Whatever sequence of set-up, option, tolerance, sensitivity, quadrature and restart calls a caller makes, accepted or refused, releasing the solver afterwards releases every block the library allocated exactly once, uses nothing after its release, and clears the handle. '
     'Vectors, matrices, solvers and arrays that belong to the caller are never released, and data given as input is never changed. The same holds for vectors, vector arrays, matrices, linear and nonlinear solvers and contexts made and destroyed on their own. (Exhaustion of memory is out of scope.)',
     ['sequences of calls', 'accepted and refused arguments', 'correction methods', 'numbers of sensitivities'], 'global',
     'Leaks and double releases depend on the order of configuration calls; tests make each call once in one order, and a leak fails no test.',
     [L + 'cvodes/cvodes.c', L + 'cvodes/cvodes_nls_sim.c', L + 'cvodes/cvodes_nls_stg.c', L + 'nvector/serial/nvector_serial.c', L + 'sundials/sundials_nvector.c'],
     [('CVodeFree, CVodeSensFree and the *MallocDone flags', L + 'cvodes/cvodes.c')])

prop('P58', 'The Fortran interface of the solver passes every argument and result through unchanged',
     'Calling a solver function through its Fortran interface is the same as calling it from C: the arguments arrive in order and with the same values, sizes and kinds, arrays and objects by address, the result and every output come back unchanged, exactly one call is made. '
     'Named constants have the values of the C constants, mirrored structures the layout of the C structures, and the callbacks that the Fortran side hands over have the signature the solver calls them with (in every argument they read).',
     ['interface functions', 'argument values', 'optional (null) arguments'], 'global',
     'The interface is some hundred near-identical procedures of which the tests call a dozen; a swapped argument, a truncated integer or a stale constant in the others is invisible to compiler and tests.',
     ['src/cvodes_model.F90', 'src/cvodes.F90', L + 'cvodes/fmod/fcvodes_mod.c', L + 'cvodes/fmod/fcvodes_mod.f90', L + 'sundials/fmod/fsundials_nvector_mod.c', L + 'nvector/serial/fmod/fnvector_serial_mod.c'],
     [('the _wrap_F* functions', L + 'cvodes/fmod/fcvodes_mod.c'), ('interface blocks, parameters and bind(C) types', L + 'cvodes/fmod/fcvodes_mod.f90')])
prop('P61', 'No hidden state: solvers are independent of each other, results depend on arguments and the recording only',
     'Two solver instances never influence each other, and the same calls on fresh objects give the same answers, however many problems were solved before: the solver library keeps no writable static storage that is read back, consults no clock, environment or random source, and on the Fortran side nothing outlives a call except the recording itself (tape, registry, nesting), so derivatives and densities depend on their arguments alone.',
     ['histories of earlier calls', 'instances alive at the same time', 'functions'], 'global',
     'A cached value or a static workspace gives right answers in every test that uses one instance in one order; the dependence only shows for interleaved or repeated use.',
     [L + 'cvodes/cvodes.c', L + 'cvodes/cvodes_ls.c', L + 'nvector/serial/nvector_serial.c', L + 'sunmatrix/dense/sunmatrix_dense.c', L + 'sunlinsol/dense/sunlinsol_dense.c', 'src/tape.F90', 'src/env.F90', 'src/log_sum_exp.F90', 'src/digamma.F90'],
     [('cv_mem and the content structures hold all state', L + 'cvodes/cvodes_impl.h'), ('singletons of the recording', 'src/env.F90')])

prop("P66", "Sensitivity equations built by difference quotients are right and leave the parameters alone",
 "When no sensitivity right-hand side is given, the solver's own one for each sensitivity is the difference quotient of the state right-hand side along that sensitivity and the parameter that belongs to it: centered or forward as chosen, in one combined or two separate differences as the switch parameter asks, with increments set by the parameter scaling, the relative tolerance and the weighted norm of the sensitivity. It depends only on the time, state, derivative and sensitivities handed in, and evaluations are counted. Whatever the right-hand side answers, the parameter array and the vectors handed in hold their earlier values afterwards and the answer is passed on unchanged.",
 ["inputs","configurations","fault_sequences"], "all states, sensitivities, parameters, scalings, tolerances and weights; both kinds of quotient, with and without switching; a failure at any evaluation; up to three sensitivities and five parameters",
 "A wrong increment or a parameter left at its perturbed value gives a plausible, slightly wrong solution, and only when the right-hand side asks for a retry.",
 [L+"cvodes/cvodes.c"], [("cvSensRhsWrapper, cvSensRhs1Wrapper, cvSensRhsInternalDQ, cvSensRhs1InternalDQ", L+"cvodes/cvodes.c"), ("CVodeSetSensParams, CVodeSetSensDQMethod", L+"cvodes/cvodes_io.c")])
prop("P67", "Zeros of the caller's functions along the solution are found, reported and continued from correctly",
 "When functions are watched, a step over which one of them changes sign in a watched direction, or at whose end it vanishes, ends the call there with the root code; a step without one never does. The reported time lies inside the step at a point where the function has just changed sign or vanishes: every evaluation lies strictly inside the current bracket, at least half a tolerance from its ends, and narrows it, until it is below the tolerance; which functions and which directions are reported matches. Functions that vanish at the start, whatever an earlier problem left, take part once they are non-zero; a function still zero just behind a reported zero is refused as too close; the search goes on from the reported time, up to the requested end time only. A function that fails ends the call with the matching code. The solution returned belongs to the reported time. Number of functions, directions, warnings, counts and reports are those given; a refused setting changes nothing.",
 ["inputs","configurations","fault_sequences","histories"], "all bracket ends, function values, directions and tolerances; up to three functions (settings: four), up to seven refinements of one bracket, up to three steps of one call; a failure at any evaluation",
 "The tests watch no function at all; a lost, repeated or misplaced event needs two functions, a zero at the start, a direction filter or a restart to show, and then only as a slightly different simulation.",
 [L+"cvodes/cvodes.c", L+"cvodes/cvodes_io.c"], [("cvRcheck1, cvRcheck2, cvRcheck3, cvRootfind, CVode, CVodeRootInit", L+"cvodes/cvodes.c"), ("CVodeSetRootDirection, CVodeSetNoInactiveRootWarn, CVodeGetRootInfo, CVodeGetNumGEvals", L+"cvodes/cvodes_io.c")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
