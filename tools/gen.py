"""Writes properties.jsonl and MANIFEST.json from the table below (only for modules that exist)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mech, state=(), observe=(), note=""):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, state=state, observe=observe, note=note))


OPS = "pyproximal/proximal/"

prop("C01", "Proximal operators of convex functions return the minimiser",
     "For every convex function the library offers, every point, parameter setting and positive step size, the "
     "proximal operator returns the unique minimiser of f(y) + ||y - x||^2 / (2 tau). "
     "The result has the size and kind of the input and is the same whichever documented way the parameters are given.",
     ["inputs", "configurations"],
     "all convex operators x all parameter settings of the catalogue x all points of small lattices (ties, zeros, signs, "
     "threshold values) x step sizes (scalar and vector where documented)",
     "The tests check the Moreau identity (true for any mapping used as prox in the generic dual) and a handful of random "
     "vectors with one parameter setting; thresholds, zeros, zero groups, ties and parameter shapes are not covered.",
     [OPS + "L1.py", OPS + "L2.py", OPS + "L21.py", OPS + "Euclidean.py", OPS + "Huber.py", OPS + "TV.py", OPS + "Quadratic.py",
      OPS + "Nuclear.py", OPS + "Nonlinear.py"],
     [("prox methods: closed form thresholding / inner solvers", OPS + "*.py")], observe=["operator.prox(x, tau)"])
prop("C02", "Evaluating an operator gives the documented functional value",
     "Calling an operator on a vector returns the value of the documented functional, including its scaling parameters, "
     "data terms and groupings, for every vector and parameter setting. Indicator functionals report membership.",
     ["inputs", "configurations"], "all operators x parameter settings x lattice points and their images under rescaling",
     "The tests evaluate a few functionals on one random vector each.",
     [OPS], [("__call__ of the operators", OPS + "*.py")], observe=["operator(x)"])
prop("C03", "Non-convex penalties: the prox is a global minimiser or the documented rule",
     "For every non-convex penalty, point, parameter and admissible step size, the proximal operator returns a global "
     "minimiser of the documented objective; where the documentation gives a thresholding rule instead, it follows that rule "
     "at every point, including at and around the thresholds.",
     ["inputs", "configurations"], "all non-convex operators x parameters x step sizes x lattices that straddle every threshold",
     "The tests compare a few points with the formula the code itself uses.",
     [OPS + "L0.py", OPS + "Log.py", OPS + "SCAD.py", OPS + "ETP.py", OPS + "Geman.py", OPS + "QuadraticEnvelope.py", OPS + "RelaxedMS.py"],
     [("thresholding branches", OPS)], observe=["operator.prox(x, tau)", "operator(x)"])
prop("C04", "Projections return the nearest feasible point and agree with membership",
     "Every projection (and the prox of every indicator, for every step size) returns a feasible point nearest to the input, "
     "leaves feasible points where they are, and gives the same point when applied again. The membership value of an indicator "
     "is true on the set and false away from it.",
     ["inputs", "configurations"], "all sets x parameters x lattice points inside, outside, on the boundary and on ties",
     "Tests check that a random point becomes feasible, rarely that it is the nearest feasible point, and few boundary cases.",
     ["pyproximal/projection/", OPS + "Box.py", OPS + "Simplex.py", OPS + "HalfSpace.py", OPS + "AffineSet.py", OPS + "Hankel.py",
      OPS + "Intersection.py"], [("projection functions and bisections", "pyproximal/projection/")], observe=["op.prox", "op(x)"])
prop("C05", "Moreau decomposition and adjoint relations hold everywhere",
     "For every operator, point and step size, x equals prox_{tau f}(x) + tau prox_{f*/tau}(x/tau), the dual prox is the prox of "
     "the conjugate function, and the adjoint of an operator swaps prox and dual prox.",
     ["inputs", "configurations"], "all operators x parameters x lattice points x step sizes",
     "Tests check the identity for one random vector and step per operator, where one side is usually defined by the other.",
     ["pyproximal/ProxOperator.py", OPS], [("proxdual through Moreau identity, or overridden", "pyproximal/ProxOperator.py")],
     observe=["op.prox", "op.proxdual", "op.H"])
prop("C06", "Operator algebra computes the function each expression denotes",
     "Any expression built from operators by adding or subtracting a vector, scaling with a positive number, affine "
     "precomposition and chaining, in any nesting, evaluates, proxes, dual-proxes and differentiates as the function it denotes.",
     ["programs", "inputs"], "all expression trees up to depth 3 (4) over six constructors and several base functions",
     "Tests build each composition once, not nested; order and sign errors in nested rules escape.",
     ["pyproximal/ProxOperator.py"], [("_SumOperator, _ScaleOperator-like compositions", "pyproximal/ProxOperator.py")],
     observe=["expr(x)", "expr.prox", "expr.proxdual", "expr.grad"])
prop("C07", "Gradients are the gradients of the documented functions",
     "Whenever an operator offers a gradient, it is the derivative of the documented function at every differentiable point; "
     "operators without their own gradient give that of their Moreau envelope.",
     ["inputs", "configurations"], "all operators with gradient x parameters x lattice points",
     "Tests use a randomised finite-difference helper at one random point.",
     ["pyproximal/ProxOperator.py", OPS], [("grad methods", OPS)], observe=["op.grad(x)"])
prop("C08", "Operators never modify their inputs or the arrays they were built from",
     "No evaluation, prox, dual prox or gradient modifies the vector it is given or an array handed to the constructor, and later "
     "changes of a returned vector by the caller do not change what the operator computes.",
     ["histories", "inputs"], "all operators x all sequences of two calls x lattice points",
     "Tests never look at the arguments after a call.",
     [OPS, "pyproximal/projection/"], [("copies before in-place updates", OPS)], observe=["argument bytes after call"])
prop("C09", "Operator results do not depend on what was computed before",
     "What an operator computes depends only on its construction and its arguments: not on the calls made to it before (other "
     "than documented iteration-dependent parameters), on rejected calls, or on other operator instances.",
     ["histories"], "breadth-first over the reachable internal states of each operator under method calls, depth 3 (5)",
     "Tests call each operator once or twice on the same instance.",
     [OPS + "L2.py", OPS + "TV.py", "pyproximal/ProxOperator.py"], [("warm starts and counters", OPS)],
     state=[("count / warm start", "iteration counter and previous inner solution", OPS)], observe=["results after any history"])
prop("C10", "Iteration-dependent parameters follow the prox call count exactly",
     "A parameter given as a function of the iteration is evaluated, at the k-th accepted prox call, for k; values and rejected "
     "calls do not advance the count, and each operator keeps its own.",
     ["histories"], "all event sequences up to length 5 (7) over prox, dual prox, value, gradient and rejected prox",
     "Tests use callables with one or two consecutive calls.",
     ["pyproximal/ProxOperator.py", OPS + "L1.py", OPS + "L0.py", OPS + "L2.py", "pyproximal/proximal/SingularValuePenalty.py"],
     [("count attribute and the _increment_count decorator", OPS)],
     state=[("count", "number of prox calls", OPS)], observe=["results along the history"])
prop("C11", "Non-positive step sizes are refused without side effects",
     "Every operator refuses a zero or negative step size (also within a vector of step sizes, positional or by keyword) with an "
     "error, and is afterwards in the state it was in before.",
     ["inputs", "histories"], "all operators x prox and dual prox x seven forms of rejected step sizes",
     "Tests pass one negative value to a few operators and do not look at the state afterwards.",
     ["pyproximal/ProxOperator.py"], [("_check_tau decorator", "pyproximal/ProxOperator.py")], observe=["exception, operator state"])
prop("C12", "Stacked operators act blockwise for every partition of the vector",
     "A stack of operators evaluates to the sum of its blocks, and its prox, dual prox and gradient act on each block "
     "independently, for every split into consecutive blocks or arbitrary index sets and every assignment of operators.",
     ["configurations", "inputs"], "all compositions / ordered set partitions of vectors up to length 4 (5) x component assignments",
     "Tests use one split with two operators.",
     [OPS + "VStack.py"], [("offset arithmetic and restriction operators", OPS + "VStack.py")], observe=["VStack prox/proxdual/grad/value"])
prop("C13", "Functions lifted through orthogonal maps and singular values are exact",
     "Composition with a (partially) orthogonal map and lifting to singular values give the prox and the value of the "
     "composed function, for every such map, base function, point and step size.",
     ["configurations", "inputs"], "all signed permutations and several rotations/partial isometries x base functions x lattices; "
     "matrices of shapes 2x2..3x2",
     "Tests use one orthogonal operator and one random matrix.",
     [OPS + "Orthogonal.py", OPS + "Nuclear.py", "pyproximal/proximal/SingularValuePenalty.py", OPS + "QuadraticEnvelope.py"],
     [("orthogonal prox rule; svd reassembly", OPS)], observe=["prox and value"])
prop("C14", "Sums and intersections solve the joint problem",
     "The prox of a (weighted) sum of functions minimises the joint objective, and the projection on an intersection returns the "
     "nearest common point, for every set of components, weights, order of components and algorithm variant.",
     ["configurations", "inputs"], "all ordered pairs and triples of components x weights x variants x points x steps",
     "Tests try a couple of combinations at a random point.",
     [OPS + "Sum.py", "pyproximal/projection/Intersection.py"], [("Dykstra-like iterations and their stop tests", OPS + "Sum.py")],
     observe=["Sum.prox", "GenericIntersectionProx.prox"])
prop("C15", "Primal splitting solvers follow their documented recursions",
     "Every iterate of proximal point, (accelerated, relaxed, backtracked, Anderson) proximal gradient, generalized proximal "
     "gradient, half-quadratic splitting and Douglas-Rachford is the one its documented recursion gives from the same problem, "
     "start, step sizes and options.",
     ["configurations", "histories", "inputs"],
     "all combinations of solver options x small problems x starting points, every iterate compared with an independent "
     "transcription of the documented recursion",
     "Tests compare the final points of two solvers on one random problem: any recursion converging to the same point passes.",
     ["pyproximal/optimization/primal.py"], [("solver loops", "pyproximal/optimization/primal.py")],
     state=[("x, y, z, t", "iterates", "pyproximal/optimization/primal.py")], observe=["callback iterates, results, prox arguments"])
prop("C16", "ADMM-type and consensus solvers follow their documented recursions",
     "Every iterate of ADMM, its L2 and linearized variants, PPXA and consensus ADMM is the one the documented recursion gives, "
     "for all update orders, initialisations, step sizes and weights.",
     ["configurations", "histories", "inputs"],
     "all combinations of update order, initial primal/auxiliary variables, step sizes, weights and relaxations x small problems",
     "Tests only look at final points on one well-behaved configuration each.",
     ["pyproximal/optimization/primal.py"], [("solver loops", "pyproximal/optimization/primal.py")],
     state=[("x, z, u", "iterates", "pyproximal/optimization/primal.py")], observe=["callback iterates, results"])
prop("C17", "Primal-dual solvers follow their documented recursions",
     "Every iterate (and step size) of the primal-dual and adaptive primal-dual solvers is the one their documented recursion "
     "gives, for all orders of the updates, step size schedules, starting points and options.",
     ["configurations", "histories", "inputs"],
     "all combinations of update order, scalar/per-iteration steps, extrapolation, linear term, starts and adaptation settings",
     "Tests compare final points for one configuration.",
     ["pyproximal/optimization/primaldual.py"], [("solver loops", "pyproximal/optimization/primaldual.py")],
     state=[("x, xhat, y, tau, mu, alpha", "iterates and steps", "pyproximal/optimization/primaldual.py")],
     observe=["callback iterates, results, step histories"])
prop("C18", "Solver runs are pure, deterministic and prefix consistent",
     "Running any solver does not modify the caller's starting points, operators' data or options; showing progress or passing a "
     "callback does not change the result; the callback sees every iterate once, in order, and a run of k iterations returns "
     "exactly the k-th iterate of a longer run.",
     ["histories", "configurations"], "all solvers x all iteration counts up to the horizon x show/callback combinations",
     "Tests run solvers silently, once, and look at the end result only.",
     ["pyproximal/optimization/"], [("solver loops, copies of x0", "pyproximal/optimization/")], observe=["results, callbacks, inputs"])
prop("C19", "Solvers converge to the optimum of the stated problem",
     "For every convex problem and admissible step size, each solver's result approaches the optimum of its documented problem, and "
     "a run started at the solution stays there.",
     ["configurations", "inputs"], "all solvers x a lattice of small problems with exactly known solutions x options x starts",
     "Tests compare solvers with each other on one problem.",
     ["pyproximal/optimization/"], [("solver loops", "pyproximal/optimization/")], observe=["results"])
prop("C20", "Stopping rules and line searches keep their promises",
     "With a tolerance a run stops at the first iteration that meets the documented criterion and never earlier or later; every "
     "step accepted by a line search satisfies the documented sufficient decrease condition.",
     ["histories", "configurations"], "all solvers with stopping rules or line searches x tolerances x problems x starts",
     "Tests use tolerances only as a means, not checking where runs stop.",
     ["pyproximal/optimization/"], [("tolerance checks, backtracking", "pyproximal/optimization/")], observe=["number of iterations, steps"])
prop("C21", "PALM and iPALM follow their documented recursions",
     "Every iterate of PALM and inertial PALM is the one the documented recursion gives, with fixed, Lipschitz-based or backtracked "
     "step sizes for each block, for all bilinear problems, regularisers and starts.",
     ["configurations", "histories", "inputs"], "all step rules x inertia x regularisers x small factorisations",
     "Tests look at the final fit of one factorisation.",
     ["pyproximal/optimization/palm.py", "pyproximal/utils/bilinear.py"], [("solver loops", "pyproximal/optimization/palm.py")],
     observe=["callback iterates, results, prox arguments"])
prop("C22", "Bregman, SR3, PnP, TwIST and segmentation follow their documentation",
     "Every iterate and result of Bregman iterations, sparse relaxed regularised regression, plug-and-play priors, TwIST and "
     "segmentation is the one the documented algorithm gives, for every option and input.",
     ["configurations", "histories", "inputs"], "all options x small problems x starts",
     "Tests check the final error on one problem, or that it runs.",
     ["pyproximal/optimization/bregman.py", "pyproximal/optimization/sr3.py", "pyproximal/optimization/pnp.py",
      "pyproximal/optimization/segmentation.py", "pyproximal/optimization/primal.py"],
     [("solver loops", "pyproximal/optimization/")], observe=["callback iterates, results"])
prop("C23", "Compute engines and equivalent formulations agree",
     "All engines and inner solvers of an operator, and all documented equivalent formulations of the same function, give the same "
     "result for every input, up to the accuracy asked for.",
     ["configurations", "inputs"], "all engine/solver choices and formulation pairs x lattices x scalings x steps",
     "Tests compare engines for one random input.",
     [OPS + "L2.py", OPS + "Simplex.py", OPS + "RelaxedMS.py", OPS], [("engine dispatch", OPS)], observe=["prox, value"])
prop("C24", "The low-rank factorised functional is exact for any internal history",
     "The low-rank factorised least-squares functional returns the documented value, residual, partial gradients and valid "
     "Lipschitz bounds for every shape, operator and pair of factors, whatever was evaluated or updated before.",
     ["histories", "inputs", "configurations"], "all shapes up to 3x3x3 x operators x all histories of updates up to depth 3 (4)",
     "Tests check gradients at a random point for one shape.",
     ["pyproximal/utils/bilinear.py"], [("x/y state of the bilinear operator", "pyproximal/utils/bilinear.py")],
     state=[("x, y", "current factors", "pyproximal/utils/bilinear.py")], observe=["value, gradx, grady, lx, ly"])
prop("C25", "Gradient and Moreau checks give the right verdict for every random draw",
     "The gradient checkers accept every correct gradient and reject a gradient whose probed component is wrong beyond tolerance, for every "
     "outcome of their random choices; the Moreau check accepts exactly the pairs satisfying the identity. None of them "
     "modifies the vectors it is given.",
     ["schedules", "inputs"], "all outcomes of every random draw (controlled generator) x correct and corrupted gradients",
     "Tests run the checkers with whatever the generator gives, on correct gradients only.",
     ["pyproximal/utils/gradtest.py", "pyproximal/utils/moreau.py"], [("random probing, tolerances", "pyproximal/utils/gradtest.py")],
     observe=["verdict/exception"])
prop("C26", "Complex vectors are treated as complex everywhere",
     "Penalties of the modulus commute with a global phase and with conjugation, agree with the real case on real vectors stored as "
     "complex, and never use only one part of a complex number.",
     ["inputs", "configurations"], "all operators documented for complex vectors x parameters x complex lattices x phases x steps",
     "Tests use real vectors almost everywhere.",
     [OPS], [("modulus based thresholds", OPS)], observe=["prox, proxdual, value, grad"])
prop("C27", "Results depend on the values of a vector, not on how it is stored",
     "Operators and solvers give the same result for integer, single precision, strided, reversed, read-only or otherwise laid out vectors "
     "as for contiguous double precision vectors with the same values (to the accuracy of the element type).",
     ["inputs", "configurations"], "all operators and solver configurations x integer valued vectors x storage variants x methods / run lengths",
     "Tests pass contiguous double precision vectors only.",
     [OPS, "pyproximal/optimization/"], [("element type of allocated results, in-place updates", OPS)], observe=["prox, proxdual, value, grad, solver results"])
prop("C28", "Malformed parameters and problems are refused, well-formed ones accepted",
     "Operators and solvers refuse, with an error, exactly the arguments their documentation excludes (penalty parameters, engines and "
     "solvers, dimensions, stack and vector sizes, types in the operator algebra, weights, accelerations, missing starting vectors) and "
     "accept all others, completing missing starting vectors as documented.",
     ["inputs", "configurations"], "lattices of arguments straddling every documented precondition",
     "Tests try one bad value for a few of the preconditions.",
     [OPS, "pyproximal/optimization/", "pyproximal/ProxOperator.py"], [("argument checks", OPS), ("x0/z0 initialisation", "pyproximal/optimization/primal.py")], observe=["error or result"])
prop("C29", "The iteration log reports what it claims to report",
     "With progress display on, every row of a solver's log gives the number of an iteration that was run and, under the respective headings, "
     "the first entry of that iterate, the values of the functions and of the objective at it, and the step size; no iteration is reported "
     "twice or out of order, and the first and last iterations always have a row.",
     ["configurations", "run lengths"], "all solver configurations x run lengths x starts x real and complex problems",
     "Tests run with show=True at most to see that it does not crash.",
     ["pyproximal/optimization/"], [("iiter, pf, pg", "pyproximal/optimization/")], observe=["standard output", "callback iterates"])

prop("C30", "Interrupted calls and runs leave nothing behind",
     "When an operator call or a solver run is cut short - by an exception raised in a callback or in a user's linear operator, or by an interrupt "
     "at any point of its execution - the exception reaches the caller as it is, the caller's arrays and the process-wide numerical settings "
     "are what they were before, and the same operators and a repeated run give the results they give without it (an interrupted prox may or may not be counted where parameters depend on the count); likewise, "
     "evaluating the same operators, or running a complete second solve with them, between the steps of a run changes neither result.",
     ["crash points", "interleavings", "configurations"],
     "every line, call and return executed inside the package as a crash point, for all operators and solver configurations; every "
     "iteration and linear operator application x exception class; a second run scheduled at every operator call and callback of a run",
     "No test interrupts anything; the state an interruption leaves depends on where it strikes.",
     [OPS, "pyproximal/optimization/"], [("stored factorisations, warm starts, counters", "pyproximal/proximal/L2.py"), ("solver loops", "pyproximal/optimization/")],
     observe=["exception", "arrays", "later results", "numpy settings"])
prop("C31", "A call means the same however its arguments are passed",
     "For every public operator, projection, solver and checker: an option that is left out has its documented default value, arguments may be "
     "passed by position in the documented order or by keyword, in any combination and for any choice of given options, and numbers may be Python or "
     "NumPy scalars of any kind, without changing the result (or the refusal); and an option that matters in a call is never ignored.",
     ["call forms", "configurations"],
     "all subsets of given options (for more than eight options all of size <= 3 and their complements), all positional prefixes, all number kinds, "
     "for every entry point; tolerances through every half decade of violation",
     "Tests call each entry point in one form; defaults and the order of arguments are never compared with the documentation.",
     [OPS, "pyproximal/projection/", "pyproximal/optimization/", "pyproximal/utils/"], [("signatures and the treatment of None and scalars", "pyproximal/")],
     observe=["results of calls"])
prop("C32", "Results follow the symmetries of the problem",
     "Reordering the unknowns (and everything that belongs to them), repeating a problem any number of times side by side, and changing the unit "
     "of the data and of the parameters that carry one, reorders, repeats and rescales the results: for every operator's prox, dual prox, gradient and "
     "value, and for every iterate of every solver - up to the absolute tolerances the documentation mentions, for any length and magnitude of the vectors.",
     ["inputs", "configurations", "sizes"],
     "all permutations, ladders of copies up to 1000 (30000), powers of two from 2^-40 to 2^40 x all operators x lattice points; solver "
     "configurations x permutations x copies x powers of two x run lengths",
     "Tests use one order, one size and magnitudes around one; errors in blocks of long vectors or with absolute constants do not show.",
     [OPS, "pyproximal/projection/", "pyproximal/optimization/"], [("absolute constants, vectorised branches", "pyproximal/")],
     observe=["op.prox", "op.proxdual", "op.grad", "op(x)", "solver results"])

prop("C33", "Weights, radii, counts and steps may vanish or dominate",
     "As a weight, a step size, a radius or a number of kept entries runs from zero (or nearly zero) to a value that dominates everything, every operator "
     "returns finite answers that keep their meaning: a penalty of weight zero changes nothing, a negligible one changes nothing noticeable, a dominating one leaves only its "
     "minimiser; only the product of weight and step matters; the value at the prox falls and the distance from the input grows with the step, without jumps for convex functions; "
     "projections do not depend on the step, end at the centre for radius zero, keep feasible points, and projecting through a larger set first changes nothing. "
     "Solvers take the same steps with a regulariser that vanishes (or excludes all but the origin) whichever operator expresses it.",
     ["inputs", "configurations"],
     "ladders of weights, steps and radii from 2^-60 to 2^60 and 0, all counts 0..n+3, x all operators with such a parameter x lattice points; all solver configurations x all "
     "operators that express no regulariser, or the constraint x = 0",
     "Tests use one weight near one; the ends of a regularisation path, where denominators vanish and thresholds round away, are not reached.",
     [OPS, "pyproximal/projection/", "pyproximal/optimization/"], [("thresholds, denominators and stopping rules that depend on the weight", "pyproximal/proximal/")],
     observe=["op.prox", "op.proxdual", "op(x)", "solver results"])

NOTE = {
    "C15": "Reference recursions are independent transcriptions of the docstrings.",
}


def main():
    props, checks, na = [], [], []
    for p in P:
        mod = os.path.join(HERE, "mc", "props", p["pid"].lower() + ".py")
        if not os.path.exists(mod):
            continue
        props.append({
            "id": p["pid"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {
                "files": p["files"],
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]],
                "observe_at": list(p["observe"]), "hook_needed": None,
            },
        })
        checks.append({
            "property": p["pid"],
            "quick_cmd": "./run.sh %s --tier quick" % p["pid"],
            "thorough_cmd": "./run.sh %s --tier thorough" % p["pid"],
            "technique": "model checking: exhaustive bounded enumeration of behaviours of the real code against a reference model"
            ,
            "level": "model_checking",
            "level_note": "Exhaustive within the stated bounds on the real code; nothing is claimed outside the alphabets. "
            + NOTE.get(p["pid"], "") + "Trusts numpy and the reference models in mc/.",
            "evidence_file": "evidence/%s.json" % p["pid"],
        })
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
                   "notes": "No hooks: the checks drive the public API of /repo's working tree."}, f, indent=1)
        f.write("\n")
    print(len(props), "properties")


if __name__ == "__main__":
    main()
