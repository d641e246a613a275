#!/usr/bin/env python3
"""Writes properties.jsonl (single source for the property texts)."""
import json
DDP="nmpc_ddp/include/nmpc_ddp/DDPSolver.hpp"; DDPH="nmpc_ddp/include/nmpc_ddp/DDPSolver.h"
BQ="nmpc_ddp/include/nmpc_ddp/BoxQP.h"
FM="nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.hpp"; FMH="nmpc_fmpc/include/nmpc_fmpc/FmpcSolver.h"; MU="nmpc_fmpc/include/nmpc_fmpc/MathUtils.h"
GM="nmpc_cgmres/include/nmpc_cgmres/Gmres.h"; CG="nmpc_cgmres/src/CgmresSolver.cpp"; OD="nmpc_cgmres/include/nmpc_cgmres/OdeSolver.h"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=None)))

p("C01","DDP reports a trajectory that is an exact rollout of the problem",
 "Whenever a DDP solve returns (with success or with failure), the reported state sequence starts at the given current state, the sequences have horizon+1 states, horizon inputs and horizon+1 costs, and each reported next state is exactly the problem's state equation evaluated at the reported state and input at time current_time + i*dt. Each reported cost is exactly the problem's running cost (terminal cost for the last entry) at the reported state, input and time.",
 ["inputs","programs","configurations","histories"],"every DDP problem (any pure dynamics and cost), current time and state, initial input sequence, horizon length, configuration and sequence of earlier solves on the same solver object",
 "The tests run a handful of problems with one horizon each and look only at final tracking errors; they never re-simulate the reported trajectory, and they do not cover failed solves, rejected steps or repeated solves with changed horizons.",
 [DDP,DDPH],[("initial rollout",DDP+": solve"),("candidate rollout",DDP+": forwardPass"),("all-or-nothing acceptance of the candidate",DDP+": procOnce step 4")],
 [("control data","reported states, inputs, costs",DDPH)],["controlData() after solve()"])

p("C02","DDP never makes the total cost worse",
 "With a non-negative acceptance threshold, every DDP iteration either leaves the reported trajectory unchanged or replaces it by one whose total cost is not larger and not NaN, so the final total cost never exceeds the total cost of the rollout of the initial inputs. The trace shows it: its first record is iteration 0 with the initial total cost, record k has iteration number k, and every record of an iteration that reached the accept/reject decision carries the total cost of the trajectory kept after it.",
 ["inputs","programs","configurations","histories"],"every problem (including ones whose cost returns NaN or whose expected improvement is zero or negative), every configuration with a non-negative acceptance ratio threshold, every number of iterations",
 "The tests only check the closed-loop result of well-behaved convex examples; rejected line searches, zero or negative expected improvement and NaN costs are not exercised.",
 [DDP],[("line search acceptance",DDP+": procOnce step 3"),("accept or keep",DDP+": procOnce step 4")],
 [("trace data","per-iteration record",DDPH)],["traceDataList()","controlData().cost_list"])

p("C03","DDP success flag, iteration budget and regularization discipline are truthful",
 "A DDP solve returns true only if its last iteration met a documented convergence criterion: the feedforward step of every horizon step is below the relative threshold while the regularization is below its threshold, or an accepted step improved the cost by less than the cost threshold. It performs at most the configured number of iterations, stops with failure as soon as the regularization exceeds its maximum, keeps the regularization non-negative, raises it by at least the configured factor after every failed backward pass or rejected line search, and lowers it (to zero below the minimum) after every accepted step, so the retry loop always terminates.",
 ["inputs","programs","configurations"],"every problem and configuration with factor > 1, minimum > 0 and finite maximum; every pattern of failing and succeeding backward passes and line searches",
 "Tests ignore the return value in most runs, never make the backward pass fail repeatedly, and never reach the maximum regularization.",
 [DDP],[("retry loop",DDP+": procOnce step 2"),("regularization schedule",DDP+": procOnce step 4"),("iteration loop",DDP+": solve")],
 [("lambda, dlambda","regularization coefficient and its scaling",DDPH)],["return value of solve()","traceDataList()"])

p("C04","DDP gains solve the regularized quadratic subproblem (Bellman recursion)",
 "For every horizon step the unconstrained DDP feedforward and feedback gains are the exact minimizer of the local quadratic model: (regularized) Quu times the gain equals minus Qu respectively minus the regularized Qux, with Q built from the derivatives at that step and the value expansion of the next step. The value gradient and Hessian propagated backwards, and the expected cost change, are those obtained by substituting these gains into the unregularized quadratic model, starting from the terminal cost derivatives; both regularization types (on the input Hessian, on the value Hessian) behave as documented, inputs of dimension zero are skipped, and the next trajectory applies exactly these gains: old input plus the step size times the feedforward gain plus the feedback gain times the state change.",
 ["inputs","programs","configurations"],"every horizon length, all derivative matrices with symmetric second derivatives, both regularization types, all state and input dimensions (input dimension may vary over time and be zero); exact real arithmetic",
 "Tests only observe that closed loops converge; a wrong regularization type, sign or transposition in rarely weighted terms still converges on the examples (most have zero cross derivatives).",
 [DDP],[("Q, gains and value recursion",DDP+": backwardPass")],
 [("gains","feedforward and feedback gains per step",DDPH)],["inputs produced by the next forward pass","expected cost update in the trace"])

p("C05","DDP respects the input limits",
 "With input constraints enabled and consistent limits, every input of every trajectory the DDP solver adopts lies within the limits returned for that step's time, so the reported inputs are either the caller's own initial inputs or all within their limits. The feedforward step of the backward pass alone already keeps each input within its limits, and inputs held at a limit by the subproblem get a zero feedback row while the free ones get the gains of the reduced problem.",
 ["inputs","programs","configurations"],"every limits function with lower <= upper, every problem, horizon, initial input sequence and time-varying input dimension",
 "The one constrained test uses an affine one-dimensional-state example whose feedback term hardly pushes inputs over a limit and checks the first input only.",
 [DDP,BQ],[("box-constrained gains",DDP+": backwardPass"),("limits in the forward pass",DDP+": forwardPass")],
 [],["controlData().u_list"])

p("C06","BoxQP always returns a point inside the box",
 "For every Hessian, gradient, initial guess and consistent bounds, the point returned by the box-constrained QP solver, the recorded starting point and the point recorded by every iteration that took a step satisfy lower <= x <= upper in every coordinate, whatever the return code. The constructor rejects non-positive dimensions and dimensions that contradict a fixed template dimension.",
 ["inputs","configurations"],"all real H, g, initial guess, all lower <= upper, every configuration and every way of terminating",
 "Tests solve two small problems and compare the optimum; early failure exits (indefinite Hessian, iteration limit, line search failure) are never taken.",
 [BQ],[("projection of the initial guess and of every candidate",BQ+": solve")],[],["return value of solve()","traceDataList()"])

p("C07","BoxQP return codes are truthful",
 "When the box QP reports 'gradient norm smaller than tolerance' or 'all dimensions clamped', the returned point satisfies the first-order optimality conditions: every coordinate is either held at a bound that the gradient pushes against or has a gradient component below the tolerance (no such free coordinate exists in the all-clamped case). A finished solve never reports 'not finished' and always a documented code; a failed factorization, an ascent direction, an exhausted line search and the iteration limit are each reported with their own code, negative exactly for the two failures, and no more iterations than the (positive) configured limit are performed.",
 ["inputs","configurations"],"all H, g, bounds, initial guesses and configurations with a positive iteration limit; every number of active-set changes",
 "Tests look at the solution of two problems that end with the same code; the correspondence of each code with the final state is not observed.",
 [BQ],[("clamped set, termination tests",BQ+": solve")],[("retval","return code",BQ)],["retval_, retstr_ after solve()"])

p("C08","BoxQP free set, factorization and Newton step are consistent",
 "After a non-failing box QP solve, the exposed free index set lists exactly the coordinates that were not clamped at the last gradient evaluation, in increasing order, and whenever it is non-empty the exposed Cholesky factorization is that of the Hessian restricted to exactly these indices, no matter how often the active set changed. Each recorded search direction is zero on clamped coordinates and is the Newton step of the reduced problem on the free ones, and every step taken either satisfies the sufficient-decrease condition or is reported as an exhausted line search.",
 ["inputs","configurations"],"all H, g, bounds, initial guesses; all sequences of active-set changes",
 "Tests never look at the factorization or the free set, and the DDP caller only uses them in one example.",
 [BQ],[("index partition and conditional refactorization",BQ+": solve")],[("llt_free_, free_idxs_","factorization and indices used by the DDP gains",BQ)],["llt_free_, free_idxs_","traceDataList()"])

p("C09","FMPC iterates stay strictly inside the interior",
 "If all slack variables and inequality multipliers are positive, they are still positive after every FMPC update, for every finite search direction: the primal and dual step lengths lie in (0,1] and keep a fixed fraction of the distance to the boundary, the line search only shrinks the primal step, and if no valid step length exists the update reports an error and leaves all optimization variables untouched. All primal variables (states, inputs, slacks) move by the same primal step along the search direction and all multipliers by the same dual step.",
 ["inputs","programs","configurations"],"every horizon, every positive slack and multiplier vector of every (time-varying) dimension, every search direction, line search on or off",
 "Tests run two problems from one start; a step rule that crosses the boundary only for particular sign patterns or steps goes unnoticed.",
 [FM],[("fraction-to-boundary rule, line search and update",FM+": updateVariables")],[],["variable() after solve()","status"])

p("C10","FMPC 'Succeeded' means the KKT conditions hold to tolerance",
 "When an FMPC solve reports success, the returned variables themselves satisfy the KKT conditions: the Euclidean norm of initial-state error, dynamics defects, inequality-plus-slack residuals, stationarity residuals in states, inputs and terminal state, and positive complementarity products is at most the configured tolerance, with all terms evaluated from the problem at the returned variables and times current_time + i*dt. The error recorded in each trace entry is that norm for the iterate at the start of that iteration; otherwise the status names the phase that failed or the exhausted iteration limit, and at most the configured number of iterations is made.",
 ["inputs","programs","configurations","histories"],"every problem, horizon, initial guess, configuration; every status",
 "Tests accept any status other than error and check constraint satisfaction with loose tolerances on one trajectory.",
 [FM],[("coefficients of the linearized KKT system",FM+": procOnce"),("error norm",FM+": calcKktError"),("status",FM+": solve")],[],["status of solve()","traceDataList()"])

p("C11","FMPC search direction is the Newton step of the perturbed KKT system",
 "In every FMPC iteration the computed change of states, inputs, multipliers and slacks solves the linearized KKT system at the current iterate exactly (in real arithmetic): linearized dynamics including the initial state, linearized inequality constraints with slack, linearized complementarity with the current barrier parameter, and linearized stationarity for every state, input and the terminal state. This holds for symmetric cost Hessians, positive slacks and multipliers, time-varying dimensions including empty inputs or constraints.",
 ["inputs","programs","configurations"],"all horizon lengths, all coefficient matrices with symmetric Hessians and solvable gain equations, all positive slacks, all barrier parameters",
 "A wrong term in the Riccati recursion still converges (more slowly) on the two examples whose cross derivatives and state constraints are zero or constant.",
 [FM],[("backward Riccati recursion",FM+": backwardPass"),("forward recursion",FM+": forwardPass")],[],["iterates in variable()"])

p("C12","Solvers reject malformed initial guesses before using them",
 "A DDP or FMPC solve whose initial guess has sequences of the wrong length, elements of the wrong dimension (for time-varying dimensions) or negative slack or multiplier entries throws an exception and never reads or writes outside the supplied sequences, in every configuration; a well-formed guess is accepted without exception. After acceptance all sequence accesses of the solve stay within bounds.",
 ["inputs","configurations","histories"],"all lengths and dimensions of all initial sequences, all horizon settings, complementarity initialization on or off, any earlier solve with another horizon",
 "Tests only pass well-formed guesses.",
 [DDP,FM],[("length and dimension checks",DDP+": solve"),("checkVariable",FM+": checkVariable")],[],["exceptions thrown by solve()"])

p("C13","FMPC line search uses a consistent merit function and its true slope",
 "The FMPC merit function is the sum over the horizon of running cost times dt, the log barrier and the terminal cost, plus the penalty scale times the L1 norm of all constraint violations; the value stored for the current iterate and the value computed for trial points are the same function. The stored slope is its directional derivative along the search direction (with |.| at kinks, as the L1 helper documents), the penalty scale is never below its minimum, and a line-search step is accepted only if the merit decreases sufficiently or the step has become negligible.",
 ["inputs","programs","configurations"],"all iterates with positive slacks, all directions, horizons and dimensions, both penalty-scale rules",
 "The line search is off by default and in the tests; the L1 helper is tested on random dense points only, never at kinks.",
 [FM,MU],[("merit value and slope",FM+": setupMeritFunc"),("trial merit",FM+": calcMeritFunc"),("backtracking",FM+": updateVariables"),("L1 directional derivative",MU)],[],["accepted iterates with line search enabled"])

p("C14","GMRES iterates, residual bookkeeping and termination",
 "A GMRES solve performs at most min(iteration limit, problem size) iterations, stops as soon as the estimated residual is at most tolerance times the norm of b, and records one error per iteration beginning with the true initial residual norm. Every new Krylov direction satisfies the Arnoldi relation for the operator, every plane rotation is orthonormal and annihilates the subdiagonal entry, the recorded error is the norm of the projected least-squares residual, and the correction added to the initial guess is the combination of the basis vectors with the coefficients that solve the projected least-squares problem.",
 ["inputs","programs","configurations"],"every linear operator given as a function, right-hand side, initial guess, iteration limit and tolerance, with and without triangularization (non-breakdown case); exact real arithmetic",
 "Tests compare the final solution with a direct solver for full iteration counts on random dense matrices; truncated runs, non-zero initial guesses with early stop and bookkeeping are not checked.",
 [GM],[("Arnoldi step, Givens rotations, back substitution",GM+": solve")],[],["x, err_list_, basis_ after solve()"])

p("C15","C/GMRES evaluates the horizon optimality residual and updates inputs from it",
 "For every time, state and input sequence the residual list is obtained by integrating the state forward from the given state over the horizon, the costate backward from the terminal cost gradient, and evaluating the Hamiltonian gradient at each node with that node's time, state, input and next costate. The control update solves the finite-difference continuation equation built from residuals at the current and the perturbed time and state (all operator evaluations at the same perturbed point), advances every input by dt times its own segment of the solution, and returns the first input of the updated sequence.",
 ["inputs","programs","configurations"],"every problem, ODE solver, time, state, horizon division, finite-difference step and stabilization gain",
 "Tests run two closed loops and check only that they reach a neighbourhood of the goal.",
 [CG,"nmpc_cgmres/include/nmpc_cgmres/CgmresSolver.h"],[("horizon evaluation",CG+": calcDhDuList"),("control update",CG+": calcControlInput"),("operator",CG+": eqAmulFunc")],[],["u returned by calcControlInput()","DhDu_list"])

p("C16","ODE integrators implement their scheme exactly",
 "The Euler integrator returns x + dt*f(t,x,u) and the Runge-Kutta integrator returns the classical fourth-order update with stages at t, t+dt/2, t+dt/2 and t+dt, for every right-hand side, time, state, input and (positive or negative) step; neither modifies its inputs.",
 ["inputs","programs"],"every state equation (time-varying included), time, state, input, signed step",
 "No test addresses the integrators; the examples are time-invariant or use only one of them.",
 [OD],[("EulerOdeSolver, RungeKuttaOdeSolver",OD)],[],["ret of solve()"])

p("C17","A solver object can be reused: results do not depend on earlier solves",
 "The outcome of a DDP, FMPC or box-QP solve (status, trajectory or variables, trace contents other than durations) is determined by the problem, the configuration, the limits function and the arguments of that call: solving again on a used solver object, with the same or another horizon and after successes, failures or exceptions, gives bit-identical results to a fresh object. (FMPC carries its barrier parameter over only when neither updating nor initializing it is enabled.)",
 ["histories","inputs","configurations"],"every finite sequence of earlier solve calls on the same object, including failed ones and changes of the horizon between calls",
 "Tests use one solver per problem and never compare with a fresh object.",
 [DDP,FM,BQ],[("re-initialization of all per-solve state",DDP+": solve; "+FM+": solve; "+BQ+": solve")],[],["results of the second solve()"])

p("C18","FMPC barrier parameter and complementarity initialization",
 "With barrier updating enabled, every FMPC iteration uses half the average complementarity product of the current slacks and multipliers, clamped to the fixed range [1e-8, 1e6]; horizon steps without inequality constraints contribute nothing and a problem with no inequality at all still has a finite barrier parameter. With complementarity initialization enabled, every slack starts at the constraint margin enlarged by the fixed rate (at least the fixed minimum) and every multiplier at barrier over slack likewise, all strictly positive.",
 ["inputs","programs","configurations"],"all horizons, slack and multiplier vectors, time-varying (also zero) inequality dimensions",
 "Both examples have a constant positive number of inequalities and default configuration.",
 [FM],[("barrier update",FM+": procOnce"),("initialization",FM+": solve")],[],["variable(), status"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
