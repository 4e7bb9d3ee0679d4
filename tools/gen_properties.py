"""Regenerates /verif/properties.jsonl (kept as a program so ids, titles and anchors stay in step)."""
import json, os

S = "src/rigeo/shape/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
            "mechanism": [{"name": n, "where": w} for n, w in mechanism],
            "observe_at": observe or [],
            "hook_needed": None,
        },
    })


prop("C01", "Containment tests match each shape's exact point set",
     "For every shape (box, convex polyhedron, ellipsoid, cylinder, capsule; any size, pose and supported dimension, flat ones included), a point is reported contained exactly when it lies in the mathematical set that the shape's parameters define, up to the tolerance given. One query for a batch of points gives the same answers as one query per point, and a larger tolerance never rejects a point that a smaller one accepts. A polyhedron is reported contained in a shape exactly when all of its vertices are.",
     ["inputs", "configurations"], "all shapes, parameters (zero extents included), poses, tolerances, and points inside, outside and near the boundary",
     "A handful of fixed points on mostly axis-aligned shapes are tested; degenerate, rotated, translated and tolerance-dependent cases are sampled at best once.",
     [S + "ellipsoid.py", S + "poly.py", S + "box.py", S + "cylinder.py", S + "capsule.py", S + "base.py"],
     [("Ellipsoid.contains splits zero and non-zero axes", S + "ellipsoid.py"), ("inequality test A p <= b + tol", S + "poly.py"),
      ("product of a 1D and a 2D ellipsoid", S + "cylinder.py"), ("union of two caps and a cylinder", S + "capsule.py")],
     ["return value of the containment query"])

prop("C02", "Containment constraints admit exactly the shape",
     "The convex-program constraints a shape generates for a point are satisfied by exactly the points of the shape: maximizing any linear function over them gives the shape's support value, and a point outside is infeasible. With a scale, which may be a number or a program variable, they admit exactly the scaled shape (scale times each of its points), and for several points every point is constrained.",
     ["inputs", "configurations"], "all shapes, poses, directions, scales (constant and variable) and numbers of points",
     "Every existing test of these constraints needs the unlicensed MOSEK solver and does not run here; with it they would probe four axis directions.",
     [S + "ellipsoid.py", S + "poly.py", S + "cylinder.py", S + "capsule.py", "src/rigeo/constraint.py"],
     [("Schur complement of the scaled shape matrix", S + "ellipsoid.py"), ("A p <= scale b", S + "poly.py"), ("Minkowski split between the two caps", S + "capsule.py")],
     ["optimal value and status of programs built from the constraints"])

prop("C03", "Rigid transforms of shapes map the point set exactly",
     "Applying a rotation and a translation (either may be omitted) to any shape, or to a vertex/ray description or a face description of a polyhedron, yields exactly the image of its point set; rays turn but do not shift. Transforms compose and invert like the rigid motions they stand for, and keep the kind, sizes and volume of the shape. Rotating a box or ellipsoid about its center leaves its center where it was.",
     ["inputs", "histories"], "all shapes and descriptions, all sequences of rigid transforms",
     "Tests apply one or two fixed transforms to a few shapes and compare single points or vertices.",
     [S + "box.py", S + "ellipsoid.py", S + "cylinder.py", S + "capsule.py", S + "poly.py", "src/rigeo/polydd.py", "src/rigeo/util.py"],
     [("new_center = R c + t, new_rotation = R R0", S + "box.py"), ("A R^T, b + A t", "src/rigeo/polydd.py")],
     ["the transformed object's parameters and containment answers"])

prop("C04", "Vertex and face descriptions of a polyhedron describe the same set",
     "Converting a polyhedron between its vertex/ray description and its inequality description, in either direction and in any dimension, preserves the point set: bounded or not, full-dimensional or flat, with equalities or linear spans. The canonical form of either description describes the same set with no redundant entry. Building a bounded polyhedron from vertices or halfspaces (with or without pruning) gives two mutually consistent descriptions, and empty or unbounded input is refused with a value error. None of this depends on the units of length.",
     ["inputs"], "all finite sets of vertices, rays, spans, inequalities and equalities in 2 to 4 dimensions",
     "Tests cover a cube, a square, one half space and one box with a missing face.",
     ["src/rigeo/polydd.py", S + "poly.py", S + "box.py"],
     [("conversion through cdd matrices, lin_set handling", "src/rigeo/polydd.py"), ("boundedness check at construction", S + "poly.py")],
     ["membership of points in either description; vertex and face counts"])

prop("C05", "The convex hull is exactly the set of extreme points",
     "The convex hull of a finite set of points, in any dimension and including flat, collinear, repeated or single points, consists of exactly the extreme points of that set. Each is one of the given points, none is missing and none is listed twice, in whatever units of length the points are given.",
     ["inputs"], "all finite point sets, with interior, boundary, repeated and lower-dimensional points",
     "Tests use one cube and one square with ten interior points each.",
     ["src/rigeo/polydd.py"], [("canonicalization of the generator matrix", "src/rigeo/polydd.py")], ["returned vertices"])

prop("C06", "Intersecting polyhedra gives exactly the common points",
     "The intersection of two convex polyhedra (boxes included, any pose, flat or full-dimensional) contains a point exactly when both operands do, whichever operand is asked. When they share no point the result is none; when they merely touch in a face, edge or vertex the result is that face, edge or vertex. Stacking two face descriptions describes the same intersection.",
     ["inputs"], "all pairs of polyhedra: overlapping, nested, touching, disjoint",
     "Tests intersect a few axis-aligned unit boxes.",
     [S + "poly.py", "src/rigeo/polydd.py"], [("stack of face forms converted to span form", S + "poly.py")], ["containment answers and vertices of the result"])

prop("C07", "Bounding boxes enclose the shape and touch it on every side",
     "The axis-aligned bounding box of any shape or point set reaches exactly the smallest and largest coordinate the shape attains along every axis, and is itself axis-aligned. The oriented minimum bounding box of an ellipsoid, cylinder or capsule contains the shape, shares its axes and touches it on all six sides.",
     ["inputs", "configurations"], "all shapes and poses, degenerate shapes included",
     "The tests of axis-aligned boxes of ellipsoids and cylinders need MOSEK and do not run; the remaining ones check a cube.",
     [S + "box.py", S + "ellipsoid.py", S + "cylinder.py", S + "capsule.py", S + "poly.py"],
     [("square root of the diagonal of the inverse shape matrix", S + "ellipsoid.py"), ("boxes of the end disks/caps", S + "cylinder.py")], ["the returned box"])

prop("C08", "Bounding ellipsoids and spheres enclose and have minimum volume",
     "The bounding ellipsoid of any shape, of any finite point set (flat, collinear and single-point sets included) and of any set of full-dimensional ellipsoids contains every point it must bound, and no ellipsoid of smaller volume (for flat sets: within their plane or line) does, up to solver accuracy. When a sphere is requested the result is a sphere, contains everything, and no smaller sphere does.",
     ["inputs", "configurations"], "all shapes, point sets and sets of ellipsoids, in any dimension, with and without the sphere option",
     "All but one of the tests of bounding ellipsoids need MOSEK; none asks for a sphere and none checks minimality beyond boxes.",
     [S + "ellipsoid.py", S + "box.py", S + "cylinder.py", S + "capsule.py", S + "poly.py"],
     [("log-det program over points", S + "ellipsoid.py"), ("S-procedure log-det program over ellipsoids", S + "ellipsoid.py"), ("closed form for boxes and cylinders", S + "box.py")],
     ["the returned ellipsoid; cvxpy solve events"])

prop("C09", "Inscribed ellipsoids, spheres and boxes fit and have maximum volume",
     "The maximum inscribed ellipsoid or sphere of a polyhedron or box lies inside it, and no larger one does, up to solver accuracy; for a flat polyhedron the same holds within its plane or line. The maximum inscribed box of an ellipsoid or cylinder lies inside it and attains the largest possible volume.",
     ["inputs", "configurations"], "all polyhedra (flat included), boxes, ellipsoids, cylinders and poses",
     "The polyhedron tests need MOSEK; the others check one pose, and maximality only for one box.",
     [S + "ellipsoid.py", S + "poly.py", S + "box.py", S + "cylinder.py"],
     [("log-det program over the face form in the row space", S + "poly.py")], ["the returned ellipsoid or box"])

prop("C10", "Random points are in the shape, well-shaped, seeded and terminating",
     "Every random point produced inside a shape, on a box's or ellipsoid's surface, on a box's edges, in a ball or on a hypersphere, or by rejection sampling from a union of shapes, lies in the set asked for, and the array has the requested sample shape with the coordinates as last axis (one plain point when one is asked for). The same seed or generator state gives the same points, no global random state is read or changed, and sampling ends after a bounded amount of drawing; rejection sampling that cannot succeed raises a value error.",
     ["inputs", "histories"], "all shapes, poses, sample shapes and generators",
     "Tests use fixed poses (surface sampling only at the origin) and one seed.",
     ["src/rigeo/random.py", S + "box.py", S + "ellipsoid.py", S + "cylinder.py", S + "capsule.py", S + "poly.py"],
     [("fill loop of rejection_sample", "src/rigeo/random.py"), ("accept/reject loop for ellipsoid surfaces", S + "ellipsoid.py")],
     ["returned arrays; generator draws"])

prop("C11", "Random points are uniformly distributed over the requested set",
     "Random points in a box, ellipsoid, cylinder, capsule or ball, on the surface of a box or ellipsoid, on the edges of a box or on a hypersphere, and points accepted by rejection sampling, are independent and uniform over that volume, area or length. General polyhedra are exempt (documented as not uniform).",
     ["inputs"], "all such sets and poses, in the statistical sense",
     "Tests count points in one inscribed box for three shapes with a tolerance of one percent; surfaces and edges are not tested.",
     ["src/rigeo/random.py", S + "box.py", S + "ellipsoid.py", S + "cylinder.py", S + "capsule.py"],
     [("radius drawn as u^(1/dim)", "src/rigeo/random.py"), ("area- and length-weighted face/edge counts", S + "box.py")], ["sample moments and cell counts"])

prop("C12", "The surface test accepts exactly the boundary",
     "For a box or an ellipsoid in any pose, a point is reported on the surface exactly when it lies on the boundary of the shape, up to the tolerance; interior and exterior points are rejected. For a flat ellipsoid every point it contains counts as surface. Batch and single queries agree.",
     ["inputs", "configurations"], "all boxes, ellipsoids, poses and points",
     "Tests check a few points in two poses.",
     [S + "box.py", S + "ellipsoid.py"], [("coordinate masks in the local frame", S + "box.py"), ("quadratic form equals one", S + "ellipsoid.py")], ["return value of the surface query"])

prop("C13", "Reported sizes are those of the represented set",
     "The volume, side lengths, diagonal, full length, end points, axes, vertices, dimension, rank and degeneracy that a shape reports equal those of the point set its parameters define, for every way of constructing the shape (half extents, side lengths, opposite vertices in any order, cube, sphere, simplex, capsule of a cylinder, conversion of a box to a polyhedron).",
     ["inputs", "configurations"], "all constructors and parameters, integer and floating-point, in every supported dimension",
     "Volumes are tested indirectly for two shapes.",
     [S + "box.py", S + "ellipsoid.py", S + "cylinder.py", S + "capsule.py", S + "poly.py", "src/rigeo/util.py"],
     [("closed-form properties", S + "box.py")], ["property values"])

prop("C14", "Grids are regular, complete and inside the shape",
     "The grid of any shape consists of exactly those nodes of a regular lattice spanning its bounding box, with the requested number of nodes along each dimension, that the shape contains; a box's own grid spans the box in its own axes, corner to corner, with every node kept.",
     ["inputs"], "all shapes, poses and node counts (per-dimension counts for boxes)",
     "Tests check that the points are contained, so dropped or misplaced nodes pass.",
     [S + "base.py", S + "box.py", S + "poly.py"], [("linspace lattice filtered by containment", S + "base.py")], ["returned points"])

prop("C15", "Closest-point queries return the true distance and valid witnesses",
     "For any two convex shapes the reported distance is the true minimum distance, the two points lie in the respective shapes at that distance from each other, and the answer does not depend on the order of the shapes beyond swapping the points. For shapes that touch or overlap the distance is zero and the two points coincide in the intersection.",
     ["inputs"], "all pairs of shapes of every kind (capsules included) in all relative poses",
     "The only test needs MOSEK, and compares three pairs.",
     ["src/rigeo/closest.py", S + "ellipsoid.py", S + "poly.py", S + "cylinder.py", S + "capsule.py"],
     [("norm minimization over both containment constraints", "src/rigeo/closest.py")], ["returned points and distance"])

prop("C16", "Shape equality means equal point sets",
     "Two shapes of the same family compare the same exactly when they represent the same point set within the tolerance, however they were constructed, ordered or parameterized, flat shapes included. The comparison is reflexive and symmetric, is unaffected by applying the same rigid transform to both, and shapes of different families or dimensions are never the same (a box and a polyhedron are one family).",
     ["inputs"], "all pairs of shapes",
     "Equality is used in tests as a helper on full-dimensional polyhedra and ellipsoids only.",
     [S + "ellipsoid.py", S + "poly.py", S + "cylinder.py", S + "capsule.py"],
     [("mutual containment of vertices", S + "poly.py"), ("comparison of Q matrices", S + "ellipsoid.py")], ["return value of the comparison"])

prop("C17", "All representations of inertial parameters agree",
     "Mass, center of mass, first moment, second-moment matrix, inertia matrix (about the origin and about the center of mass), parameter vector, pseudo-inertia matrix and spatial mass matrix always describe the same mass distribution: each equals its defining sum over any system of point masses. Rebuilding the parameters from any of them (including data given about the center of mass) reproduces all the others, massless bodies included, and over-specified input is refused.",
     ["inputs"], "all point-mass systems and all constructor argument combinations",
     "Tests round-trip one or two parameter sets through three of the representations.",
     ["src/rigeo/inertial.py", "src/rigeo/constraint.py", "src/rigeo/util.py"],
     [("H/I conversion and parallel-axis shift", "src/rigeo/inertial.py"), ("basis matrices of the pseudo-inertia matrix", "src/rigeo/constraint.py")], ["representation values"])

prop("C18", "Adding and transforming inertial parameters follows the mass distribution",
     "Adding inertial parameters gives those of the combined mass distribution, in any order and grouping, with the built-in sum, and with massless parameters as neutral element. Rigidly transforming them gives those of the transformed distribution, composes and inverts like rigid motions, keeps the mass and the inertia eigenvalues about the center of mass, and commutes with addition.",
     ["inputs", "histories"], "all parameter sets and sequences of additions and transforms",
     "Tests add two sets once and transform one box about the z axis.",
     ["src/rigeo/inertial.py"], [("J1 + J2", "src/rigeo/inertial.py"), ("T J T^T", "src/rigeo/inertial.py")], ["representation values of results"])

prop("C19", "Density-based inertial parameters equal the actual mass integrals",
     "The inertial parameters a shape reports for a uniform volume density (box, ellipsoid, cylinder), for mass spread uniformly over its surface (box, ellipsoid) or edges (box), or for point masses at the vertices (polyhedron), equal the integrals over that body about the origin, for every size and pose. They have exactly the requested mass, scale linearly with it (zero included), and negative mass is refused.",
     ["inputs", "configurations"], "all sizes, poses and masses",
     "Tests compare formulas with one another or check linearity only; no integral is ever evaluated.",
     [S + "box.py", S + "ellipsoid.py", S + "cylinder.py", S + "poly.py", "src/rigeo/inertial.py"],
     [("closed-form second moments moved by the rigid transform", S + "box.py")], ["returned parameters"])

prop("C20", "Spatial dynamics equal Newton-Euler of the mass distribution",
     "For every mass distribution and every body-frame velocity and acceleration, the body wrench equals the total force and moment that Newton's law requires of the individual point masses, and the regressor and lifting matrices reproduce it linearly from the parameter vector. Spatial vectors add, subtract, scale, convert and form adjoints component-wise consistently.",
     ["inputs"], "all parameter sets, velocities and accelerations",
     "The regressor is compared once with pinocchio; the wrench itself is never tested.",
     ["src/rigeo/inertial.py", "src/rigeo/rigidbody.py", "src/rigeo/spatial.py", "src/rigeo/util.py"],
     [("M A - ad(V)^T M V", "src/rigeo/inertial.py"), ("lift6", "src/rigeo/util.py")], ["wrench, regressor, spatial vector values"])

prop("C21", "Physical consistency is decided exactly",
     "Inertial parameters are reported consistent at a threshold exactly when every eigenvalue of their pseudo-inertia matrix is at least that threshold (up to rounding). Hence parameters of any actual mass distribution are consistent, and parameters with a negative principal second moment about the center of mass, or violating the triangle inequality of principal moments of inertia, are not; randomly generated parameters are always consistent.",
     ["inputs"], "all parameter sets and thresholds",
     "No test exercises the consistency check directly.",
     ["src/rigeo/inertial.py", "src/rigeo/random.py"], [("smallest eigenvalue of J", "src/rigeo/inertial.py")], ["return value"])

prop("C22", "Ellipsoid realizability is decided exactly",
     "An ellipsoid (flat ones included, any pose) is reported able to realize inertial parameters exactly when some mass distribution inside it has those parameters, away from the numerical boundary: always for parameters of masses inside it, never when the parameters are inconsistent, below the eigenvalue threshold, need mass outside its plane or line when it is flat, or have a mean normalized squared distance from its center above one.",
     ["inputs", "configurations"], "all ellipsoids, poses, parameter sets and thresholds",
     "Tests check disks and one segment with unit masses at four points; full-dimensional ellipsoids are not tested.",
     [S + "ellipsoid.py"], [("trace(Q J) >= 0", S + "ellipsoid.py"), ("split Q matrices for flat ellipsoids", S + "ellipsoid.py")], ["return value"])

prop("C23", "Realizability constraints never exclude a realizable body",
     "Every inertial parameter set of a mass distribution inside a shape satisfies the density-realizability constraints generated for that shape, whichever family is used (moment relaxation of any order, vertex-based, specialized box and cylinder constraints, ellipsoid trace constraint, multi-shape rigid body), whichever form the variable takes (pseudo-inertia matrix or parameter vector), and in any pose. With a positive threshold only parameters whose pseudo-inertia matrix has an eigenvalue below it are lost.",
     ["inputs", "configurations"], "all shapes, poses, mass distributions inside them, relaxation orders, variable forms and thresholds",
     "All such tests need MOSEK and do not run here; they would cover three shapes.",
     [S + "poly.py", S + "box.py", S + "cylinder.py", S + "ellipsoid.py", "src/rigeo/moment.py", "src/rigeo/rigidbody.py", "src/rigeo/constraint.py"],
     [("moment and localizing matrices", "src/rigeo/moment.py"), ("vertex mass multipliers", S + "box.py"), ("disk decomposition", S + "cylinder.py")],
     ["distance from a parameter set to the feasible set; optimal values"])

prop("C24", "Realizability constraints are as tight as the relaxation promises",
     "Density-realizability constraints exclude parameters that no body in the shape can have: centers of mass outside the shape, second moments beyond its extent, pseudo-inertia matrices that are not symmetric with all eigenvalues at least the threshold. Extreme values over the constraints equal those of the moment relaxation of the stated order for polyhedra and cylinders, are exact for ellipsoids and for unions of ellipsoids, and for the specialized box and cylinder constraints are at least as tight as the second-order moment relaxation. For vertex constraints the centers of mass are exactly the convex hull and a convex quadratic attains its maximum at a vertex. For unions of shapes, extreme values equal the largest of the parts'.",
     ["inputs", "configurations"], "all shapes, poses, linear objectives, orders, variable forms and thresholds",
     "All such tests need MOSEK and do not run here.",
     [S + "poly.py", S + "box.py", S + "cylinder.py", S + "ellipsoid.py", "src/rigeo/moment.py", "src/rigeo/rigidbody.py", "src/rigeo/constraint.py"],
     [("localizing matrix order d - ceil(deg/2)", "src/rigeo/moment.py"), ("Schur/trace constraints", S + "ellipsoid.py")],
     ["optimal values of linear objectives, infeasibility"])

prop("C25", "Moment and polynomial algebra match evaluation on actual measures",
     "Adding and localizing polynomials, their degree, their zero terms and their value at a point agree with ordinary polynomial arithmetic, in any number of variables. For every measure, the symbolic moment and localizing matrices filled with its moments equal the integrals of the corresponding products of monomials and polynomials, the monomial basis lists each monomial up to the degree exactly once with lower degrees obtainable as a leading block, and moment constraints hold for exactly the matrices with that structure.",
     ["inputs"], "all numbers of variables, degrees, polynomials and atomic measures",
     "Tests check five polynomials and one univariate moment matrix.",
     ["src/rigeo/moment.py"], [("basis by combinations with replacement", "src/rigeo/moment.py"), ("index addition", "src/rigeo/moment.py")],
     ["values of polynomials, matrices and constraint residuals"])

prop("C26", "Operations do not modify their inputs and have no hidden state",
     "No query, construction, transform, conversion, sampling or constraint generation changes its receiver, its array or list arguments, or other objects built from them, nor the global random state. Shapes own copies of the arrays they are built from, moved copies, bounding boxes, grids, samples and computed matrices share nothing with the original, and bodies own their lists of shapes. Repeating a query, in any order and with any other operations in between, gives the same answer.",
     ["histories", "inputs"], "all sequences of public operations on shared objects",
     "Each test uses fresh objects once and never looks at the operands afterwards.",
     ["src/rigeo/inertial.py", "src/rigeo/polydd.py", "src/rigeo/moment.py", "src/rigeo/rigidbody.py", S + "box.py", S + "ellipsoid.py", S + "poly.py", S + "cylinder.py", S + "capsule.py"],
     [("copies at construction", S + "box.py"), ("new objects from operators", "src/rigeo/inertial.py")], ["argument and receiver snapshots around each call"])

prop("C27", "Matrix and vector helpers satisfy their defining identities",
     "Half-vectorization and its inverse, triangular-number recognition, the skew matrix, the lifting matrix, box corner generation in any dimension, homogeneous transforms and their inverses in any dimension, the contact Jacobian, evaluation times, validation error, Schur matrices and unordered row comparison satisfy their defining identities for all valid inputs, and invalid sizes are refused. Inertia and second moment matrices convert into each other exactly, the pseudo-inertia matrix is the stated linear function of the parameter vector, random weight vectors are non-negative and sum to one, and random positive semidefinite matrices are symmetric positive semidefinite.",
     ["inputs"], "all valid inputs: sizes, dimensions, integer and floating types, very large integers, repeated rows",
     "Tests use sizes and values from one fixed sequence.",
     ["src/rigeo/util.py", "src/rigeo/test_util.py", "src/rigeo/constraint.py"], [("triu/tril index copies", "src/rigeo/util.py"), ("greedy row matching", "src/rigeo/test_util.py")], ["return values"])

prop("C28", "All matrix representations of an ellipsoid describe the same set",
     "The shape matrix, its inverse, the affine representation, the homogeneous quadratic form, and the half extents with rotation and center of an ellipsoid all describe the same point set, in any dimension and pose. Constructing an ellipsoid from its shape matrix, from its affine representation, or from any affine map of the unit ball reproduces that set.",
     ["inputs"], "all full-dimensional ellipsoids in 1 to 5 dimensions; inverse shape matrix also for flat ones",
     "Tests round-trip two spheres.",
     [S + "ellipsoid.py"], [("eigendecomposition in from_shape_matrix", S + "ellipsoid.py")], ["matrix properties; containment of rebuilt ellipsoids"])

prop("C29", "The caller's solver choice is used, and answers do not depend on it",
     "Every query that accepts a solver runs its optimization with exactly that solver, also when it delegates to another shape or function (closest points; bounding and inscribed ellipsoids of point sets, ellipsoids, shapes and rigid bodies; ellipsoid-in-ellipsoid tests), and every shape accepts the choice. Two capable solvers give the same answer up to solver accuracy.",
     ["inputs", "configurations"], "all solver-accepting queries, all shapes, available solvers",
     "Tests either omit the solver or name MOSEK, which is not available here.",
     ["src/rigeo/closest.py", S + "ellipsoid.py", S + "poly.py", S + "box.py", S + "cylinder.py", S + "capsule.py", "src/rigeo/rigidbody.py"],
     [("solver keyword passed to Problem.solve", S + "ellipsoid.py")], ["solver requested at every cvxpy solve event"])

prop("C30", "Rigid bodies combine and move shapes and inertia together",
     "Adding rigid bodies (also with the built-in sum, and with massless ones) gives the union of their shapes, in order, and the sum of their inertial parameters. Transforming a body moves every shape and the inertial parameters by the same rigid motion, and replacing shapes by bounding ellipsoids or spheres bounds each shape and keeps the inertial parameters. A body may be given one shape or any collection of shapes.",
     ["inputs", "histories"], "all bodies of mixed shapes and all sequences of additions and transforms",
     "Tests add one body to itself and transform one body once.",
     ["src/rigeo/rigidbody.py", "src/rigeo/inertial.py"], [("concatenated shape lists", "src/rigeo/rigidbody.py")], ["shapes and params of results"])

prop("C31", "Ellipsoid-in-ellipsoid tests decide actual containment",
     "For full-dimensional ellipsoids in any pose and dimension, one is reported to contain another exactly when every point of the second lies in the first, away from tangency. Every ellipsoid contains its shrunken copies and none contains its enlarged ones, and the answer is unaffected by applying the same rigid transform to both.",
     ["inputs"], "all pairs of full-dimensional ellipsoids: nested, overlapping, disjoint",
     "The only test needs MOSEK and uses two concentric axis-aligned pairs.",
     [S + "ellipsoid.py"], [("S-procedure feasibility program", S + "ellipsoid.py")], ["return value"])

prop("C32", "Parameter identification finds the best realizable parameters",
     "Identifying the inertial parameters of one or several rigid bodies from motions and wrenches recovers the true parameters from exact, sufficiently exciting data, and for any data returns the parameters that minimize the weighted squared error (plus the entropic distance to nominal parameters, when regularized) among all parameters that are realizable on the bodies' shapes, keep each center of mass in its bounding shape, and have a pseudo-inertia matrix with no eigenvalue below the threshold. The discretized variant gives the best non-negative masses at the given points under the same bounds. The objective terms equal their formulas, the reported objective is that of the reported parameters, and the solved problem can be inspected.",
     ["inputs", "configurations"], "all bodies and shapes, numbers of bodies and observations, noise, weights, thresholds and bounds",
     "No test imports the identification module (it could not even be imported).",
     ["src/rigeo/unused/identify.py", "src/rigeo/rigidbody.py", "src/rigeo/constraint.py"],
     [("weighted least squares, entropic term and constraints", "src/rigeo/unused/identify.py"), ("regressor", "src/rigeo/rigidbody.py")],
     ["identified parameters, objective"])

prop("C33", "Geodesic distance between positive definite matrices is an invariant metric",
     "The geodesic distance between two symmetric positive definite matrices of any size is a real non-negative number equal to its definition; it is zero exactly between equal matrices, symmetric, satisfies the triangle inequality, is unchanged by any change of coordinates (in particular by moving two bodies by the same rigid motion) and by inverting both matrices, and adds up along geodesics. Matrices of different sizes are refused.",
     ["inputs"], "all pairs and triples of positive definite matrices and changes of coordinates",
     "No test imports the module.",
     ["src/rigeo/unused/geodesic.py"], [("generalized eigenvalues", "src/rigeo/unused/geodesic.py")], ["return value"])

prop("C34", "Robots loaded from URDF have the bodies, dynamics and kinematics described",
     "A robot loaded from a URDF text or file, with any root joint, has one rigid body per joint that carries primitive collision shapes, with the shapes and inertia of all rigidly attached links in that joint's frame. Its joint torques are those of Newton-Euler mechanics under the given gravity; its regressor has ten columns per link and reproduces the torques for the robot's own and for any other inertial parameters in the library's parameter order. Frame poses, velocities and accelerations are those of the last forward kinematics call, in the requested frame, whatever other queries happen in between; the Jacobian maps joint to frame velocities. Results and bodies returned earlier do not change later. Unknown names, wrong sizes and unsupported shapes are refused.",
     ["inputs", "histories"], "all mechanisms, motions, reference frames and histories of queries",
     "No test imports the module (it could not even be imported).",
     ["src/rigeo/unused/multibody.py", "src/rigeo/inertial.py"],
     [("bodies from geometry and inertia, column order of the regressor", "src/rigeo/unused/multibody.py")], ["return value", "bodies"])

prop("C35", "The pycddlib 3 port of the double description describes the same sets",
     "The port of the polyhedron descriptions to the pycddlib 3 interface gives the answers that the library's own descriptions are required to give: conversion between vertices, rays and spans and inequalities and equalities in either direction preserves the point set in any units of length, canonical forms have no redundant entry, the convex hull is exactly the set of extreme points, translating moves points and not directions, rotating turns both, stacking describes the intersection, and the whole space and sets with only equalities can be represented.",
     ["inputs"], "all finite sets of vertices, rays, spans, inequalities and equalities, rigid motions and scales",
     "No test imports the module, and the pycddlib version it needs is not installed.",
     ["src/rigeo/unused/polydd_pycddlib3.py"],
     [("span and face forms, conversions, convex hull", "src/rigeo/unused/polydd_pycddlib3.py")], ["membership, supports and entries of either description"])

prop("C36", "The shipped derivations, examples and experiments agree with the library",
     "The symbolic derivations shipped with the library give, at any sizes, the inertia of box shells, wire frames and vertices and of ellipsoid shells that the library computes and that direct integration gives; the proofs of density realizability run through, and the masses they construct keep what they claim to keep. The examples print analytical and sampled inertia of the body they name, the difference of the two, and extremal ellipsoids of the right sizes, and plot points inside or on the ellipsoid. The experiment's problems exclude no realizable body, higher relaxation orders and the specialized constraints are at least as tight, data are recorded under the documented names, and the summary reports the differences and average times that are in the data.",
     ["inputs"], "all sizes substituted in the derivations, all objectives, shapes and masses of the experiment, all recorded data",
     "No test runs any script.",
     ["scripts/theory/*.py", "scripts/examples/*.py", "scripts/experiments/*.py", S + "box.py", S + "ellipsoid.py", S + "cylinder.py"],
     [("symbolic integrals", "scripts/theory"), ("optimization problems and summary", "scripts/experiments"), ("Monte Carlo estimates", "scripts/examples")],
     ["printed output, plotted points, optimal values, data files"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
