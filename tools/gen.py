#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json (run by hand, the results are committed)"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, q, why, files, mech, note="", observe=None):
    assert len(title) <= 80, (id, len(title))
    files = [f"magpi/{f}" for f in files]
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=f"magpi/{w}") for n, w in mech],
                                observe_at=observe or ["return value of the public function"], hook_needed=None)), note))


I, C, HIST = "inputs", "configurations", "histories"

prop("C01", "R-functions implement set logic on the signs of their arguments",
     "For every R-function system (r0, r1, rp2, rp4, R_alpha, R_alpha^m, R_p, rho blending) the conjunction is positive exactly where both arguments are and negative exactly where one of them is (outside the blending zone), the disjunction dually; both commute and satisfy De Morgan. Union, intersection, difference, negation, equivalence, implication, xor and compositions of ADFs therefore have the sign of the Boolean combination of the described sets.",
     [I, C], "all real argument values, all parameters alpha in (-1,1], rho > 0, m and p within bounds, all ADFs being combined",
     "The tests evaluate a few points of a few shapes; a wrong sign can hide in one quadrant, in one sign combination or for one parameter value.",
     ["r_fun.py"], [("conjunction / disjunction of RAlpha, RAlphaM, RP, RhoBlending", "r_fun.py"), ("RFun.union ... xor, compose", "r_fun.py")])
prop("C02", "Normalised R-function systems keep normalised boundaries",
     "At a regular boundary point (one argument zero, the other not) the conjunction and disjunction of a normalised R-system reproduce the argument that is active: unit derivative with respect to it and no derivative with respect to the other one, and R_p systems do so to order p-1. Combining first order normalised ADFs therefore gives a first order normalised ADF away from corners.",
     [I, C], "all values of the inactive argument, both signs, alpha in (-1,1], p in {2,4,6}",
     "Tests only look at function values at sample points; a wrong factor leaves the sign right and the normal derivative wrong.",
     ["r_fun.py"], [("RAlpha, RP operations and their derivatives", "r_fun.py")])
prop("C03", "ADFs of primitive shapes: sign, zero set, unit boundary slope",
     "The ADF of a cuboid, cube, sphere, cylinder or ellipsoid is positive exactly inside the described body, negative exactly outside and zero exactly on its boundary, for every size and every centering option and R-system. On smooth boundary points it has the documented normalisation (unit inward slope), and it is finite with finite gradient at the centre.",
     [I, C], "all points, all positive edge lengths, radii and half axes, dimensions within bounds",
     "Tests check a few points of one size per shape; unequal edges, off-axis points, centering variants and the centre are not reached.",
     ["r_fun.py"], [("cuboid, cube, sphere, cylinder, ellipsoid", "r_fun.py")])
prop("C04", "First order normalisation keeps the body and makes the boundary slope one",
     "Normalising any smooth ADF yields a function with the same sign and zero set, bounded by one in magnitude, whose gradient on the boundary is the unit normal. It stays differentiable at critical points of the ADF away from the boundary.",
     [I], "all smooth ADFs (values and derivatives arbitrary), all points, dimensions 1-3",
     "Tests normalise a specific ADF at specific points; the identity must hold for arbitrary value and gradient.",
     ["r_fun.py"], [("normalize_1st_order", "r_fun.py")])
prop("C05", "Motions, scaling, reflection, projection and revolution of ADFs",
     "Translating, rotating, scaling, reflecting, projecting or revolving an ADF evaluates the original at exactly the back-transformed point, so the described body is moved as documented; scaling with normalisation preserves boundary slopes, reflection is an involution that fixes the mirror plane, and revolution depends on distance to the axis only.",
     [I, C], "all ADFs, points, translation vectors, positive scales, angles, unit axes, plane normals, centres; 1-3 dimensions",
     "Tests use special angles, axes through the origin and symmetric shapes, for which wrong signs, orders or missing centres are invisible.",
     ["r_fun.py", "quaternions.py"], [("translate, scale, rotate2d, rotate3d, reflect, project, revolution", "r_fun.py")])
prop("C06", "Quaternion arithmetic is the Hamilton algebra",
     "Sums, differences, products, quotients, conjugates, inverses and norms of quaternions, and all mixed operations with scalars and arrays in either order, equal those of Hamilton's algebra. Left and right division undo the corresponding multiplication.",
     [I], "all real components (norm nonzero for division), all operand kinds and orders",
     "Tests use a few integer quaternions; reflected operators and rarely used divisions are untested.",
     ["quaternions.py"], [("Quaternion operators, quaternion_left_div, quaternion_right_div", "quaternions.py")])
prop("C07", "Quaternion rotations and reflections are the stated isometries",
     "Rotating by a nonzero quaternion is conjugation by it: a proper isometry, independent of the quaternion's scale, composing with products and undone by the inverse; axis-angle and Euler-angle quaternions give the documented rotations. Reflections map the normal to its negative and fix the mirror plane.",
     [I], "all points, nonzero quaternions, angles, unit axes, nonzero normals",
     "Tests rotate basis vectors by right angles; direction, order of Euler angles and normalisation need general arguments.",
     ["quaternions.py"], [("quaternion_rotation, quaternion_reflection, from_axis_angle, from_euler_angles", "quaternions.py")])
prop("C08", "Quaternion exponential, logarithm and powers",
     "exp and log of quaternions equal their closed forms, log inverts exp on the principal branch, and integer and fractional powers agree with repeated multiplication and with roots.",
     [I], "all quaternions with vector part zero or longer than 1e-12, bases of positive norm, powers -2..3 and 1/2",
     "Tests check one or two values; the identities must hold for every quaternion including real ones.",
     ["quaternions.py"], [("quanternion_exp, quanternion_log, Quaternion.__pow__", "quaternions.py")])
prop("C09", "derivative and value_and_derivative return exact partial derivatives",
     "For any smooth function the derivative with respect to positional index, argument name, component of a vector argument or direction, of any order in any sequence, is the corresponding mixed partial derivative, with the function value returned unchanged by the value variant. Extra positional and keyword arguments, pytrees and flax modules are passed through untouched.",
     [I, C], "all smooth functions of up to three arguments, all points, selections and orders within bounds",
     "Tests differentiate particular polynomials, where symmetric mixed partials or wrong argument selection coincide.",
     ["calc.py"], [("derivative, value_and_derivative", "calc.py")])
prop("C10", "divergence, curl, Laplacian, Hessian diagonal and Jacobians are exact",
     "For any smooth field the vector calculus operators equal their definitions in terms of partial derivatives, with value variants returning the undisturbed value; they accept extra arguments, argument selection, aux output, batches, pytrees and flax modules.",
     [I, C], "all smooth functions of 1-4 variables, all points",
     "Tests use fields with few nonzero partials; sign, index and order errors of the remaining partials stay invisible.",
     ["calc.py"], [("divergence, curl, laplace, hessian_diag, value_and_jacfwd, value_and_jacrev", "calc.py")])
prop("C11", "Hessian-vector products in every mode equal H v",
     "Every mode of Hessian-vector product, and the combined value/gradient/product function with damping, aux output or user-supplied gradients, returns the exact value, gradient and (damped) product for every direction.",
     [I, C], "all smooth functions of 1-3 variables and pytrees, all points and directions, damping values",
     "Tests compare with one dense Hessian; damping, aux and user gradients combine in ways no test covers.",
     ["calc.py"], [("hvp, hvp_forward_over_reverse, hvp_reverse_over_reverse, value_grad_hvp", "calc.py")])
prop("C12", "One dimensional quadrature rules are exact to their degree",
     "On any partition the midpoint, trapezoidal, Simpson and n-point Gauss rules have positive weights and ordered nodes inside the interval and integrate all polynomials up to their degree of exactness exactly. Integration is additive over the pieces and changes sign with the orientation.",
     [I, C], "all partitions with 2-5 points, Gauss orders up to 6 (thorough 10)",
     "Tests integrate single functions on uniform grids, where misplaced weights cancel.",
     ["integrate.py"], [("midpoint, trap, simpson, gauss", "integrate.py")])
prop("C13", "Product quadrature over boxes equals the weighted sum over the tensor grid",
     "Integrating any integrand over a box with any rule equals the sum over all nodes of the product of the one dimensional weights, each axis with its own nodes and order, for scalar, vector and pytree valued integrands with extra arguments.",
     [I, C], "all integrands, all nodal points, 2-17 nodes per axis, 1-4 dimensions with different counts per axis",
     "Tests use symmetric grids and integrands; swapped axes or weights are invisible there.",
     ["integrate.py"], [("integrate", "integrate.py")])
prop("C14", "Disk and ball integration use the exact polar transformation",
     "Integration over disks, annuli, sectors and balls equals the product rule in polar or spherical coordinates with the exact Jacobian, around any centre, radius, inner radius and angular range, with the requested number of nodes.",
     [I, C], "all integrands, centres, radii, angle ranges; small node counts",
     "Tests integrate a handful of functions on centred full disks; shifts, sectors and Jacobian errors can cancel.",
     ["integrate.py"], [("integrate_disk, integrate_sphere", "integrate.py")])
prop("C15", "Surface integrals use the exact surface element",
     "Integrating a function over a parametrised surface equals the quadrature sum of the function at the mapped nodes times the area element of the parametrisation, and the element-wise variant returns the same sum split by parameter cells, in order. Element midpoints are those of the parameter cells.",
     [I, C], "all smooth parametrisations, integrands and nodal points, rules within bounds",
     "The module has no tests.",
     ["surface_integral.py"], [("integrate_surface, integrate_surface_elements, center, midpoints", "surface_integral.py")])
prop("C16", "Boundary tensors reproduce the single layer potential they expand",
     "The source and charge tensors are the exact moments and Taylor coefficients about the element centres, and the potentials evaluated from them equal the expansion of the single layer potential (and its curl) of the given charge; scalar and vector boundary charges equal the normal derivative jump and the tangential trace they stand for.",
     [I, C], "all parametrisations, charges and observation points off the nodes, orders 0-3",
     "The module has no tests.",
     ["surface_integral.py"], [("source_tensor, charge_tensor, single_layer_potential, curl_single_layer_potential, *_potential_charge", "surface_integral.py")])
prop("C17", "odeint advances every step with the chosen method at the right time",
     "The trajectory starts at the initial value, has one state per requested time, and each state is one step of the chosen method (RK4, Euler or user supplied) from the previous one over exactly the requested time interval, for states of any structure and increasing or decreasing times.",
     [I, C], "all right hand sides, initial values and time grids of 2-4 points, all methods, unroll factors",
     "The module has no tests.",
     ["ode.py"], [("odeint, rk4, explicit_euler", "ode.py")])
prop("C18", "The trust region radius follows its rule and stays within its bounds",
     "After every iteration the radius lies between its minimum and maximum, shrinks by the decrease factor after bad agreement, grows by the increase factor only after good agreement at the region's border and is unchanged otherwise; fresh and warm starts begin with the documented radius and consistent state, and invalid options are refused.",
     [I, C, HIST], "all radii, ratios, step lengths, thresholds, factors; all objectives; histories by induction over iterations",
     "The optimiser has no tests; a history of accepted and rejected steps is needed to reach each rule.",
     ["tr.py"], [("update_tr_radius, TR.init_state, TR.__post_init__", "tr.py")])
prop("C19", "A trust region iteration never worsens the objective or loses consistency",
     "One iteration either accepts the trial point, and then the value has decreased by at least the required fraction of the predicted decrease, or leaves the parameters unchanged; in both cases value, gradient, error, auxiliary data, iteration counter and radius describe the returned parameters. The trial step never leaves the trust region.",
     [I, C, HIST], "all smooth objectives in 1-2 variables, all points, radii and options; histories by induction over iterations",
     "The optimiser has no tests; acceptance and rejection depend on the values of the objective at two points.",
     ["tr.py", "opt.py"], [("TR.update", "tr.py")])
prop("C20", "Steihaug CG stays in the trust region and decreases the model",
     "For any gradient and symmetric, possibly indefinite, Hessian the sub-problem step is no longer than the radius, reports its true length, never increases the quadratic model, does at least as well as the Cauchy point, ends on the border when curvature is not positive, and solves the Newton system when converged inside.",
     [I, C], "all gradients, Hessians, radii and tolerances; 1-2 variables, up to 2 CG iterations",
     "The solver has no tests; negative curvature and border exits need specific Hessians.",
     ["tr.py"], [("steihaug", "tr.py")])
prop("C21", "Mini batches are made of whole, aligned rows of the data",
     "Batches without replacement contain every row at most once (exactly once when the batch size divides the number of rows) in full batches; batches with replacement have the requested number and size, without repetitions inside a batch if so requested. Rows of all leaves stay aligned, every row can appear everywhere, and leaves of different length are refused.",
     [I, C], "all data, all outcomes of the random generator, 3-6 rows, all batch sizes",
     "The module has no tests; a run shows one permutation out of many.",
     ["opt.py"], [("batches_without_replacement, batches_with_replacement", "opt.py")])
prop("C22", "The batch iterator visits every batch in order with fresh randomness",
     "The iterator yields all batches of every epoch in order, calling the batch function once per epoch, and no random key, or key split from it, is handed out twice: not to two epochs, not to two batches, not to both the batch function and a batch.",
     [I, C, HIST], "all batch functions and keys, 0-3 epochs of 1-3 batches, keys derived from the handed out ones",
     "The module has no tests; reused randomness does not show in any single value.",
     ["opt.py"], [("make_iterator", "opt.py")])
prop("C23", "Rejection sampling accepts each proposal with probability pdf/m",
     "A sample is the first proposal whose own fresh uniform draw does not exceed pdf/m; proposals and acceptance draws of all rounds and all samples are independent, and a sample is one whole proposal.",
     [I, HIST], "all densities bounded by m, all outcomes of the generator, up to three rejections per sample",
     "The tests look at one histogram; reused keys or a biased comparison change probabilities, not any single value.",
     ["sampling.py"], [("rejection_sampling", "sampling.py")])
prop("C24", "The spline basis is the B-spline basis of its grid",
     "For every increasing grid the basis functions are nonnegative, supported on their own knot span, sum to one on the interior of the grid, satisfy the Cox-de Boor recursion (repeated knots included) and reproduce polynomials up to the degree.",
     [I, C], "all inputs and all grids within the stated numbers of nodes, degrees 0-4",
     "The tests compare a few values on a uniform grid.",
     ["spline.py"], [("basis", "spline.py")])
prop("C25", "Spline grids and spline activations",
     "The grid runs monotonically from start to stop, symmetric about the centre, with the requested number of nodes and power spacing. The activation is the base activation plus the spline with its coefficients, per feature, with fixed or trainable grids, and equals the base activation outside the grid and for zero coefficients.",
     [I, C], "all inputs, coefficients and grids, degrees and node counts within bounds",
     "The tests check shapes and single values only.",
     ["spline.py"], [("make_grid, SplineActivation", "spline.py")])
prop("C26", "Multi layer perceptrons compute the composition of their layers",
     "The network is the alternation of affine layers and the activation with an affine output layer; a single output neuron gives a scalar per sample; samples of a batch are processed independently, and the initialiser creates exactly the parameters for the given layer sizes.",
     [I, C], "all weights, inputs and activations (uninterpreted), up to three layers of width up to three, batches",
     "The tests check output shapes only.",
     ["model.py"], [("MLP, mlp", "model.py")])
prop("C27", "Imposed boundary and initial conditions hold exactly for every model",
     "A model with imposed Dirichlet, Neumann or initial condition satisfies it exactly where the ADF vanishes (and is normalised) or at the initial time, for every unconstrained model and prescribed data, and is the documented combination elsewhere, with all argument selections and as decorator.",
     [I, C], "all models, ADFs, boundary data, points, times, decay rates, argument selections",
     "The tests use particular models on particular boundaries.",
     ["model.py"], [("impose_dirichlet_bc, impose_neumann_bc, impose_ic", "model.py")])
prop("C28", "Domain transformations map the unit cube onto the domain",
     "Every point of the unit cube is mapped into the closed domain, every point of the domain is reached, and batches are mapped pointwise; the support is the measure of the domain. This holds for hypercubes, parallelograms, triangles, disks, annuli and balls of any size and position.",
     [I, C], "all points of the unit cube, all domain parameters, dimensions within bounds",
     "The tests transform random samples of a few domains, mostly anchored at the origin.",
     ["domain.py"], [("transform and support of Hypercube, Parallelogram, Disk, Sphere, Annulus, transform_triangle", "domain.py")])
prop("C29", "Boundary transformations map onto the boundary",
     "Every parameter is mapped to a point of the boundary of the domain, every boundary piece is reached, and batches are mapped pointwise; polylines are traversed from first to last point proportionally to arc length.",
     [I, C], "all parameters in the unit cube, all domain parameters, dimensions within bounds",
     "The tests transform a few parameters of boxes and of parallelograms anchored at the origin.",
     ["domain.py"], [("transform_bnd, transform_polyline", "domain.py")])
prop("C30", "Transformations are uniform: their Jacobian is the support",
     "All transformations preserve uniformity: the volume element of a transformation into a domain is constant and equals the reported support (twice the area for the folded unit square of triangles), and the length or surface element of a transformation onto a boundary or polyline is constant, so that uniform samples become uniform samples of the domain or its boundary.",
     [I, C], "all points where the map is smooth, all domain parameters",
     "A histogram of samples cannot settle uniformity, and the tests contain none.",
     ["domain.py"], [("transform_*", "domain.py")])
prop("C31", "Normal vectors and inclusion tests of domains",
     "On the boundary of a hypercube, disk or ball the normal vector is the outward unit normal of a face through the point, also on edges and corners, for single points and batches alike; where any of the points is off the boundary there is none, and inclusion tests agree with the described set (the closed box per coordinate, the open disk or ball).",
     [I, C], "all boundary points incl. edges and corners, all domain parameters, batches",
     "The tests look at single points of the unit cube and one batch.",
     ["domain.py"], [("includes, normal_vec", "domain.py")])
prop("C32", "Linear maps and affine planes are determined by their points",
     "The linear map computed from reference points takes each of them exactly to its prescribed image, in any dimension of the image and for any regular reference, and is linear in the images; the affine plane through three points starts at the first one and reaches the other two with unit parameters.",
     [I, C], "all regular references of up to three points, all images in 1-4 dimensions",
     "No test touches these functions; a transposed factor is invisible on symmetric references.",
     ["domain.py"], [("linear_map, affine_plane", "domain.py")])
prop("C33", "Automatic derivatives of results are the derivatives of the returned value",
     "The Jacobian of a result with respect to any input or parameter (nodes and integrand parameters of quadrature, surface parameters, initial values, times and parameters of time stepping, weights, spline coefficients and grids, points, radii and origins of ADFs and domains, quaternion components) computed in forward or reverse mode is the derivative of the value that is returned, wherever that value is smooth: no dependence is cut off and no derivative rule is wrong, and the derivative is finite there.",
     [I, C], "all inputs away from kinks, all smooth user functions, both modes, sizes within bounds",
     "The tests differentiate a handful of functions; a cut dependence leaves every value right.",
     ["integrate.py", "ode.py", "model.py", "spline.py", "surface_integral.py", "quaternions.py", "r_fun.py", "domain.py", "calc.py"],
     [("integrate", "integrate.py"), ("odeint", "ode.py"), ("MLP", "model.py"), ("basis", "spline.py"), ("source_tensor, charge_tensor", "surface_integral.py"), ("Quaternion", "quaternions.py"), ("R-systems and ADF transformations", "r_fun.py"), ("transform_*, linear_map", "domain.py")])
prop("C34", "Runs of the optimiser and the sensitivity of their result",
     "A run starts from the initial state, makes the updates one after the other up to its limit and returns the last step, for every way to hand over the objective; the derivative of the returned point with respect to positional and keyword arguments of the objective solves the linearised optimality condition, also vectorised.",
     [I, C], "all objectives, starts, arguments and options; runs of no or one update (the step itself is C19)",
     "No test differentiates a run, and runs are only checked to converge on a few functions.",
     ["tr.py", "utils.py"], [("TR.run, optimality_fun, reference_signature, init_state", "tr.py"), ("make_funs_with_aux", "utils.py")])

NOTE = ("Bounded: every claim is decided by z3/cvc5 for all real/integer/Boolean values within the bounds written in the evidence file; "
        "the code is traced from /repo's working tree to JAX's IR on every run and executed symbolically. Trusted: JAX tracing, the "
        "interpreter of the IR (validated on every run against the real code at concrete points), the solvers, exact real arithmetic in "
        "place of floating point. Counterexamples are replayed on the real code before they are reported.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, _ in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p, note in P:
        id = p["id"]
        if os.path.exists(os.path.join(ROOT, "checks", id + ".py")):
            checks.append(dict(property=id, quick_cmd=f"./check {id} --tier quick", thorough_cmd=f"./check {id} --tier thorough",
                               evidence_file=f"evidence/{id}.json", technique="symbolic execution of the traced JAX IR + SMT (z3, cvc5), counterexample replay",
                               level="other", level_note=(note + " " if note else "") + NOTE))
        else:
            na.append(dict(property=id, reason="no check built yet"))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
             notes="No hooks in /repo are needed. /verif/check Cxx runs one property; /verif/check replay FILE re-runs a counterexample.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
