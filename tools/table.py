TESTS = "The repository's tests evaluate a few literal inputs; "
SYMT = "symbolic execution of the generic Rust code at a symbolic real scalar, path conditions and goals decided by z3"
IRT = "symbolic execution of the LLVM IR of the library against the IR of a reference function, equivalence decided by z3"
SYMIR = SYMT + "; component-wise operators at primitive types by symbolic execution of the LLVM IR against a reference"
IRN = ("Both functions are executed from rustc's LLVM IR over symbolic bit patterns and z3 decides that no input separates them; a separating input is run natively. "
       "Integers wrap (release profile); float arithmetic and mathematical functions are uninterpreted, so only identical arithmetic is accepted as proof and "
       "anything else must differ natively beyond rounding to be reported.")
SYMRING = SYMT + "; polynomial identities modulo 2^w at integer types by symbolic execution of the LLVM IR against a reference"
PROPS = [
 dict(id="C01", title="Vectors and points form a vector space and an affine space",
  statement="For vectors and points of every dimension, addition, subtraction, negation, scaling, division and remainder act component by component, identically in every owned, borrowed and assigning form. Point minus point is a vector, point plus that vector restores the point, and mapping to and from homogeneous coordinates round-trips. At floats an infinity or NaN stays in the component it belongs to.",
  text="all real component values of vectors of dimension 1..9 and 17 and points of dimension 1..5 and 7..9, every operator form; all bit patterns at u8, i16, i32, u64, f32, f64", technique=SYMIR,
  why=TESTS + "the laws quantify over all component values, all primitive types and all by-value/by-reference/assign forms, most of which no test calls with distinguishable operands.",
  files=["cglinalg_core/src/vector.rs", "cglinalg_core/src/point.rs"],
  mech=[("component-wise operator impls", "cglinalg_core/src/vector.rs"), ("affine operator impls", "cglinalg_core/src/point.rs"), ("homogeneous conversions", "cglinalg_core/src/vector.rs")]),
 dict(id="C02", title="Dot products, norms, normalization and projection obey metric laws",
  statement="The dot product is bilinear, symmetric and positive; every norm and distance is non-negative, vanishes exactly at zero and scales with the absolute value; the squared Euclidean norm is the dot product with itself. A normalized vector has the requested length and the original direction, or is refused exactly when the norm is at or below the threshold. Projection, rejection and reflection decompose a vector orthogonally.",
  text="all real vectors of dimension 1..9 and 17 (dot products and norms) and 1..5 and 9 (normalization, projection), points of dimension 1..5 and 9, all thresholds and magnitudes; dot products and squared lengths also for all bit patterns at u8, i32, i64 and for infinities and NaN at f32, f64", technique=SYMRING,
  why=TESTS + "positivity, Cauchy-Schwarz and threshold behaviour are universally quantified inequalities.",
  files=["cglinalg_core/src/vector.rs", "cglinalg_core/src/normed.rs", "cglinalg_core/src/unit.rs", "cglinalg_core/src/point.rs"],
  mech=[("dot / norm family", "cglinalg_core/src/vector.rs"), ("unit wrappers", "cglinalg_core/src/unit.rs"), ("norm types", "cglinalg_core/src/normed.rs")]),
 dict(id="C03", title="The cross product is the right-handed bilinear alternating product",
  statement="The three-dimensional cross product is bilinear, anticommutative, orthogonal to both operands, right-handed on the coordinate axes, and satisfies the Lagrange and Jacobi identities.",
  text="all triples of real 3-vectors and all scalars; the product also for all bit patterns at u8, i32, i64", technique=SYMRING,
  why=TESTS + "the identities are polynomial identities over six to nine free components.",
  files=["cglinalg_core/src/vector.rs"], mech=[("cross", "cglinalg_core/src/vector.rs")]),
 dict(id="C04", title="Matrices of every shape compose as linear maps",
  statement="A matrix acts on a vector as the sum of its columns weighted by the components; the product of two matrices of any compatible shapes is composition of those maps. Addition, scaling, negation, remainder and the in-place forms act entrywise, transposition reverses products, and the identity is neutral. At floats an infinity or NaN reaches exactly the entries whose sum it takes part in.",
  text="all real entries of every R x C shape with R, C in 1..4 and selected shapes up to 9 x 9, every product shape the library accepts with an inner dimension in 1..9 or 17, every operator form; entrywise operators for all bit patterns at u8, i16, i32, u64, f32, f64; products at u8, i32, i64, and for infinities and NaN at f32, f64", technique=SYMIR,
  why=TESTS + "the product has dozens of shape/ownership instantiations, each a polynomial identity in up to 32 entries; tests touch a handful with small integers.",
  files=["cglinalg_core/src/matrix.rs"], mech=[("matrix product impls", "cglinalg_core/src/matrix.rs"), ("entrywise impls", "cglinalg_core/src/matrix.rs")]),
 dict(id="C05", title="Determinant and inverse of square matrices agree with linear algebra",
  statement="The determinant of a square matrix is the signed volume of its columns, is multiplicative and transposition-invariant, and vanishes exactly for singular matrices. Inversion succeeds exactly for invertible matrices and returns the two-sided inverse.",
  text="all real square matrices of order 1..4; determinants also for all bit patterns at i32, i64", technique=SYMRING,
  why=TESTS + "cofactor formulas for order 4 have hundreds of terms; a wrong sign in one cofactor is invisible to sparse test matrices.",
  files=["cglinalg_core/src/matrix.rs"], mech=[("determinant", "cglinalg_core/src/matrix.rs"), ("inverse", "cglinalg_core/src/matrix.rs")]),
 dict(id="C06", title="Matrix construction, access, row and column edits put entries where stated",
  statement="Every constructor stores its arguments column by column; rows, columns, diagonal, trace, sub-blocks, swaps, embeddings and predicates (diagonal, symmetric, identity, zero, invertible and so on) read and write exactly the entries they name and leave the rest unchanged.",
  text="all real entries for every shape up to 4 x 4 and selected shapes up to 9 x 9, and every row/column index",
  why=TESTS + "index permutations only show with all entries distinct and for every index pair.",
  files=["cglinalg_core/src/matrix.rs"], mech=[("constructors", "cglinalg_core/src/matrix.rs"), ("row/column operations", "cglinalg_core/src/matrix.rs"), ("predicates", "cglinalg_core/src/matrix.rs")]),
 dict(id="C10", title="Quaternions form the Hamilton division algebra",
  statement="Quaternion multiplication is the associative, distributive Hamilton product with i*j = k; conjugation reverses products, the norm is multiplicative, and every quaternion that reports itself invertible has a two-sided inverse and division by it undoes multiplication. Operator forms agree, and left and right division relate as stated.",
  text="all real quaternions, scalars and thresholds; component-wise operators for all bit patterns at the primitive types", technique=SYMIR,
  why=TESTS + "the laws are polynomial identities over eight to twelve components plus a threshold that must agree between the predicate and the inverse.",
  files=["cglinalg_core/src/quaternion.rs"], mech=[("Hamilton product", "cglinalg_core/src/quaternion.rs"), ("inverse / is_invertible", "cglinalg_core/src/quaternion.rs")]),
 dict(id="C11", title="Quaternion, matrix, axis-angle and Euler rotations describe the same rotation",
  statement="Converting a rotation between unit quaternion, rotation matrix, axis and angle, and Euler angles preserves the rotation it denotes: the same vectors map to the same vectors, every rotation matrix is orthogonal with determinant one, composition is preserved, and recovering a representation from another and converting back gives the original (quaternions up to sign).",
  text="all unit axes, all angles, all unit quaternions, all rotation matrices in every branch of the recovery code, including gimbal lock",
  why=TESTS + "matrix-to-quaternion recovery has several branches on the largest diagonal; tests reach only a few points of each.",
  files=["cglinalg_core/src/quaternion.rs", "cglinalg_core/src/matrix.rs", "cglinalg_core/src/euler.rs"],
  mech=[("from_matrix / to_matrix", "cglinalg_core/src/quaternion.rs"), ("from_axis_angle", "cglinalg_core/src/matrix.rs"), ("Euler angles", "cglinalg_core/src/euler.rs")]),
 dict(id="C12", title="Quaternion exponential, logarithm, powers, roots and trigonometry cohere",
  statement="The exponential, logarithm, principal argument, polar form, powers, square root and trigonometric and hyperbolic functions of quaternions satisfy their defining identities (exp undoes ln away from the negative real axis, squaring the square root restores the operand, the Pythagorean identities, polar recomposition) and extend the real functions on real quaternions.",
  text="all real quaternions on which each function is defined",
  why=TESTS + "identities between transcendental functions hold on a continuum and fail on thin sets such as the negative real axis.",
  files=["cglinalg_core/src/quaternion.rs"], mech=[("exp / ln / sqrt / trigonometric functions", "cglinalg_core/src/quaternion.rs")]),
 dict(id="C13", title="Interpolation hits its endpoints and stays on the segment or the sphere",
  statement="Linear, normalized linear and spherical interpolation return the first endpoint at 0 and the second at 1, depend on the amount as documented in between, and normalized and spherical interpolation of unit operands stay unit and follow the constant-speed great arc.",
  text="all endpoints, all amounts in and out of [0,1], including parallel and opposite endpoints",
  why=TESTS + "the amount and the angle between endpoints are continuous, and near-parallel operands take a different branch.",
  files=["cglinalg_core/src/quaternion.rs", "cglinalg_core/src/vector.rs", "cglinalg_core/src/matrix.rs"],
  mech=[("slerp / nlerp / lerp", "cglinalg_core/src/quaternion.rs"), ("lerp", "cglinalg_core/src/vector.rs")]),
 dict(id="C15", title="Complex numbers form a field with integer powers",
  statement="Complex addition, multiplication, conjugation and division satisfy the field laws in every operator form; the modulus is multiplicative; inversion succeeds exactly above the stated threshold and gives the reciprocal; a positive, zero or negative integer power equals repeated multiplication or its reciprocal.",
  text="all real and imaginary parts, thresholds, and integer exponents within -32..48 (and a selection up to the limits of the type at the fourth roots of unity); component-wise operators for all bit patterns at the primitive types", technique=SYMIR,
  why=TESTS + "field laws range over all pairs and each exponent takes a different squaring path.",
  files=["cglinalg_core/src/complex.rs"], mech=[("field operators", "cglinalg_core/src/complex.rs"), ("powi / powu", "cglinalg_core/src/complex.rs")]),
 dict(id="C16", title="Complex elementary functions satisfy their defining identities",
  statement="Complex exponential, logarithm, roots, powers and the circular, hyperbolic and inverse functions satisfy their defining identities and functional equations, return principal values (of the cube roots the one of least angle), and restrict to the real functions on the real axis, the roots, logarithm and powers on its positive half.",
  text="all complex arguments, in every quadrant and on the axes and branch segments; the argument also at every bit pattern of f32 and f64",
  why=TESTS + "branch choices depend on sign regions of the plane, and each identity ranges over a continuum.",
  files=["cglinalg_core/src/complex.rs"], mech=[("exp / ln / sqrt / cbrt / trigonometric functions", "cglinalg_core/src/complex.rs")]),
 dict(id="C07", title="Storage layout, indexing, conversions and swizzles agree on component order",
  statement="A vector, point, quaternion, complex number or matrix stores its components in one documented order (matrices column by column), and every view agrees on it: fields, indices and ranges, slices and pointers, arrays, tuples, nested columns, rows, iterator-style maps and conversions between types. Each named swizzle returns exactly the components its name spells, and writing through a mutable view changes exactly the named components. An index, range, row or column outside the value is refused rather than reaching another component.",
  text="all component values, every index and range form, all 432 swizzle methods, every shape up to 4 x 4, vectors to dimension 9 and selected matrices to 9 x 2",
  why=TESTS + "there are hundreds of accessors, each wrong only for one component position, and views go through raw pointer casts.",
  files=["cglinalg_core/src/vector.rs", "cglinalg_core/src/point.rs", "cglinalg_core/src/matrix.rs", "cglinalg_core/src/quaternion.rs", "cglinalg_core/src/complex.rs"],
  mech=[("Index / AsRef / From impls", "cglinalg_core/src/vector.rs"), ("column storage views", "cglinalg_core/src/matrix.rs"), ("swizzle impls", "cglinalg_core/src/vector.rs")]),
 dict(id="C14", title="Rotations between directions and viewing matrices do what they are asked",
  statement="The rotation between two directions carries the first onto the second along the shortest arc, fixing their common normal, for matrices and quaternions and for any non-zero lengths; equal directions give the identity and opposite ones no answer. A viewing rotation sends the viewing direction to the depth axis with the stated handedness and up into the upper half plane, a viewing matrix also sends the eye to the origin, and the inverse forms undo them.",
  text="all pairs of directions away from parallel (and the parallel and opposite cases exactly), all eye positions, targets, viewing directions and up vectors that are not parallel",
  why=TESTS + "handedness and orientation errors cancel on symmetric or counterclockwise test inputs.",
  files=["cglinalg_core/src/matrix.rs", "cglinalg_core/src/quaternion.rs"],
  mech=[("rotation_between", "cglinalg_core/src/matrix.rs"), ("look_to / look_at", "cglinalg_core/src/matrix.rs"), ("rotation_between / look_*", "cglinalg_core/src/quaternion.rs")]),
 dict(id="C17", title="Angles of both units share one arithmetic and one trigonometry",
  statement="Radians and degrees add, subtract, scale, negate, compare and take remainders as numbers; converting between the units preserves the angle. Normalization returns the equivalent angle in [0, full turn), signed normalization the one in (-half, half], opposite and bisect their documented angles, and every trigonometric function and inverse gives the same answer in both units.",
  text="all real angles, including multiples of the full turn and negative angles; arithmetic in all operator forms and the circular functions of radians for all bit patterns at i32, u8, f32, f64",
  why=TESTS + "wrap-around depends on sign and on exact multiples of the period, which the few sampled angles avoid.",
  files=["cglinalg_trigonometry/src/lib.rs"],
  mech=[("angle arithmetic", "cglinalg_trigonometry/src/lib.rs"), ("normalization", "cglinalg_trigonometry/src/lib.rs"), ("unit conversion", "cglinalg_trigonometry/src/lib.rs")]),
 dict(id="C18", title="Scale, shear, reflection, rotation and translation matrices act as named",
  statement="Each matrix constructor for a scaling, translation, shear, reflection or rotation, linear or affine, in dimension two or three, produces the matrix whose action on every vector is the named transformation with the given factor, axis, plane, origin, normal or angle; the shearing and mirror planes stay fixed.",
  text="all factors, unit directions and normals, plane points and angles, every coordinate-axis variant",
  why=TESTS + "off-axis planes and non-zero origins mix every entry; tests use coordinate planes and few factors.",
  files=["cglinalg_core/src/matrix.rs"],
  mech=[("from_affine_* constructors", "cglinalg_core/src/matrix.rs"), ("from_shear / from_reflection", "cglinalg_core/src/matrix.rs")]),
 dict(id="C19", title="Transformation types act on points and vectors as their homogeneous matrix",
  statement="A translation, scaling, rotation, reflection, shear, isometry, similarity or general transform, built from its parts, moves every point by its linear part plus its translation and every vector by the linear part alone; its method, operator and reference forms, its exported matrix, its conversion into a general transform and its accessors all agree. A projective transform divides by the homogeneous coordinate.",
  text="all parameters of every transformation type in dimensions two and three, and of the types for any dimension also in one, four, five and seven, all points and vectors",
  why=TESTS + "agreement of five application forms and four exports must hold for every parameter value; tests use axis-aligned instances.",
  files=["cglinalg_transform/src/translation.rs", "cglinalg_transform/src/scale.rs", "cglinalg_transform/src/rotation.rs", "cglinalg_transform/src/reflection.rs", "cglinalg_transform/src/shear.rs", "cglinalg_transform/src/isometry.rs", "cglinalg_transform/src/similarity.rs", "cglinalg_transform/src/transform.rs"],
  mech=[("apply_point / apply_vector", "cglinalg_transform/src/isometry.rs"), ("to_affine_matrix", "cglinalg_transform/src/similarity.rs"), ("homogeneous action", "cglinalg_transform/src/transform.rs")]),
 dict(id="C20", title="Inverses undo transformations and products compose them",
  statement="For every invertible translation, scaling, rotation, reflection, shear, isometry, similarity and general transform, the inverse, the in-place inverse and the inverse-apply methods undo the transformation from both sides on points and vectors; a general transform has an inverse exactly when its matrix is invertible. The product of two transformations of one type applies the right factor first, in every operator form.",
  text="all invertible parameters in dimensions two and three, and of the types for any dimension also in one, four, five and seven, all points and vectors, all pairs of factors",
  why=TESTS + "an inverse that misplaces scale and rotation passes for unit scale or zero translation, the usual test inputs.",
  files=["cglinalg_transform/src/translation.rs", "cglinalg_transform/src/scale.rs", "cglinalg_transform/src/rotation.rs", "cglinalg_transform/src/reflection.rs", "cglinalg_transform/src/shear.rs", "cglinalg_transform/src/isometry.rs", "cglinalg_transform/src/similarity.rs", "cglinalg_transform/src/transform.rs"],
  mech=[("inverse / inverse_mut", "cglinalg_transform/src/similarity.rs"), ("inverse_apply_*", "cglinalg_transform/src/isometry.rs"), ("products", "cglinalg_transform/src/similarity.rs")]),
 dict(id="C21", title="Products of different transformation types compose in the stated order",
  statement="A product of a rotation, translation, isometry and similarity of mixed types is the transformation that applies the right factor first and the left factor second, for every ordered pair of types that can be multiplied and every owned or borrowed form.",
  text="all parameters of both factors in dimensions two and three, all points and vectors",
  why=TESTS + "each of the ordered type pairs has four hand-written forms, and order errors vanish when either factor is trivial.",
  files=["cglinalg_transform/src/isometry_ops.rs", "cglinalg_transform/src/similarity.rs"],
  mech=[("mixed products", "cglinalg_transform/src/isometry_ops.rs"), ("similarity times isometry", "cglinalg_transform/src/similarity.rs")]),
 dict(id="C22", title="Projections map the view volume onto the clip cube and back",
  statement="A perspective or orthographic projection maps the corners of its view volume to the corners of the clip cube; projecting agrees with its matrix and unprojecting undoes it; the getters recover the parameters it was built from, including the vertical field of view of asymmetric and wide volumes; and building from a field of view equals building from the corresponding planes.",
  text="all view volumes with positive extents and 0 < near < far, all points in front of the eye, all fields of view below 180 degrees",
  why=TESTS + "getters invert rational functions of the parameters and agree by accident on symmetric volumes.",
  files=["cglinalg_transform/src/projection.rs", "cglinalg_core/src/matrix.rs"],
  mech=[("Perspective3", "cglinalg_transform/src/projection.rs"), ("Orthographic3", "cglinalg_transform/src/projection.rs"), ("from_perspective / from_orthographic", "cglinalg_core/src/matrix.rs")]),
 dict(id="C26", title="Rotation and rigid-motion constructors denote the requested rotation",
  statement="Rotations, isometries and similarities built from an angle, axis and angle, quaternion, Euler angles, a pair of directions or a viewing direction denote the rotation by that angle about that axis, carry the first direction onto the second, or view along the direction; the recovered angle, axis, quaternion and Euler angles denote the same rotation. Viewing motions send the eye to the origin, their inverse forms the origin to the eye.",
  text="all angles, unit axes, unit quaternions, Euler angles, non-parallel direction pairs, eyes, targets and up vectors",
  why=TESTS + "recovery formulas and handedness are only distinguishable on generic axes and asymmetric inputs.",
  files=["cglinalg_transform/src/rotation.rs", "cglinalg_transform/src/isometry.rs", "cglinalg_transform/src/similarity.rs"],
  mech=[("Rotation2 / Rotation3 constructors", "cglinalg_transform/src/rotation.rs"), ("look_to / look_at", "cglinalg_transform/src/isometry.rs")]),
 dict(id="C08", title="Casting a composite value casts every component or refuses as a whole",
  statement="Casting a scalar, vector, point, matrix, quaternion or complex number to another scalar type yields, at every position, the cast of the component at that same position, and is refused (try_cast by None, the scalar cast by a panic) exactly when at least one component does not fit the target type.",
  text="all component values, every shape up to 4 x 4, every subset of components that do not fit; scalars: all bit patterns, all 196 pairs of primitive types",
  technique=SYMT + "; scalar casts by symbolic execution of the LLVM IR against a reference",
  why=TESTS + "they cast values that always fit, so which components are looked at and where they land is never exercised for every position.",
  files=["cglinalg_numeric/src/lib.rs", "cglinalg_core/src/vector.rs", "cglinalg_core/src/point.rs", "cglinalg_core/src/matrix.rs", "cglinalg_core/src/quaternion.rs", "cglinalg_core/src/complex.rs"],
  mech=[("try_cast", "cglinalg_core/src/vector.rs"), ("scalar casts", "cglinalg_numeric/src/lib.rs")]),
 dict(id="C23", title="Approximate comparison of composite types is the conjunction over components",
  statement="For every composite type (vectors, points, matrices, quaternions, complex numbers, angles, Euler angles, unit wrappers and every transformation and projection type), absolute, relative and ulps comparison holds exactly when it holds for each pair of corresponding components with the tolerance given, or with the tolerance component at that position in the per-component forms; the negated, debug and asserting forms report those same component results and tolerances.",
  text="all values, all non-negative tolerances, every position, all three comparison kinds in their plain, all-, debug- and asserting forms; at f32 and f64 every bit pattern of values and tolerances (all components free up to two, one free component in turn above)",
  why=TESTS + "a comparison that skips a component or reads a neighbour's tolerance differs only when that one component alone is out of tolerance.",
  files=["cglinalg_core/src/vector.rs", "cglinalg_core/src/point.rs", "cglinalg_core/src/matrix.rs", "cglinalg_core/src/quaternion.rs", "cglinalg_core/src/complex.rs", "cglinalg_core/src/unit.rs", "cglinalg_core/src/euler.rs", "cglinalg_trigonometry/src/lib.rs", "cglinalg_transform/src/isometry.rs", "cglinalg_transform/src/similarity.rs", "cglinalg_transform/src/projection.rs"],
  mech=[("AbsDiff/Relative/Ulps impls", "cglinalg_core/src/vector.rs"), ("approximate comparison of transforms", "cglinalg_transform/src/isometry.rs"), ("angles", "cglinalg_trigonometry/src/lib.rs")]),
 dict(id="C24", title="Scalar functions of the primitive types compute what their names say", technique=IRT, note=IRN,
  statement="For every primitive float the rounding, trigonometric, hyperbolic, logarithm, exponential, power and root functions of the scalar traits compute the standard function of that name on every input; for every primitive signed integer and float, sign, absolute value, sign copying, minimum, maximum, clamp, classification, constants and bounds agree with the language's definition on every bit pattern, special values included.",
  text="all bit patterns of every argument, i8..i128, isize, f32, f64; integer powers from -24 to 24 and at ±31, 32, 33, 63, 64, 100",
  why=TESTS + "one table of one-line forwarders per primitive type; a forwarder to a neighbouring function agrees on the few values tests use.",
  files=["cglinalg_numeric/src/lib.rs"],
  mech=[("impl_simd_scalar_float", "cglinalg_numeric/src/lib.rs"), ("impl_simd_scalar_signed_ord_float", "cglinalg_numeric/src/lib.rs"), ("impl_simd_scalar_signed_ord_integer", "cglinalg_numeric/src/lib.rs")]),
 dict(id="C25", title="A scalar on the left of an operator acts on every component", technique=IRT, note=IRN,
  statement="For every primitive scalar type, scalar times vector, point, matrix or quaternion multiplies every component, and scalar plus, minus, times or divided by a complex number is that complex arithmetic with the scalar as a real number, in every owned and borrowed form.",
  text="all bit patterns of the scalar and of every component, all 14 primitive types, vectors up to 4, points up to 3, matrices up to 4 x 4; complex division and negated imaginary parts at signed types",
  why=TESTS + "the operators are written per primitive type because generic code cannot express them; tests use one or two types and values.",
  files=["cglinalg_core/src/vector.rs", "cglinalg_core/src/point.rs", "cglinalg_core/src/matrix.rs", "cglinalg_core/src/quaternion.rs", "cglinalg_core/src/complex.rs"],
  mech=[("scalar * Vector", "cglinalg_core/src/vector.rs"), ("scalar op Complex", "cglinalg_core/src/complex.rs"), ("scalar * Matrix", "cglinalg_core/src/matrix.rs")]),
 dict(id="C27", title="Complex functions have the standard limits at infinite and NaN arguments", technique=IRT, note=IRN,
  statement="At arguments with an infinite or NaN part, and at zero and plus or minus one where they are singular, the complex hyperbolic, circular, inverse hyperbolic and inverse circular functions return the limit value of the C99 standard (its infinities, multiples of a quarter of pi, zeros and NaNs, apart from the sign of zeros), and the finiteness and NaN predicates of complex numbers, vectors, quaternions, matrices and angles look at every component.",
  text="all bit patterns of both parts (or all components) with an infinite, NaN, zero or singular part for which the standard states the limit without evaluating a function, f32 and f64",
  why=TESTS + "each function has a dozen special-value branches, one per combination of infinite, NaN and signed parts; a test hits a few of them.",
  files=["cglinalg_core/src/complex.rs", "cglinalg_core/src/vector.rs", "cglinalg_core/src/quaternion.rs", "cglinalg_core/src/matrix.rs"],
  mech=[("acos / acosh / asinh / atanh special values", "cglinalg_core/src/complex.rs"), ("is_finite / is_nan / is_infinite", "cglinalg_core/src/complex.rs")]),
 dict(id="C09", title="Shapes that do not fit are rejected by the compiler, shapes that fit accepted",
  technique="acceptance relations resolved by the compiler on the current source, decided against dimension arithmetic by z3 over symbolic dimensions",
  note="Which dimensions each constraint and operation accepts is read from rustc's trait resolution for every combination within the bounds; z3 decides over symbolic dimensions that acceptance and arithmetic agree; a disagreement is compiled by itself. Trusts rustc and z3.",
  statement="The compile-time shape constraints hold exactly when the dimensions do what they say: sum, difference and product have the arithmetic result, less-than and equality hold exactly when true, two shapes can be multiplied exactly when the inner dimensions agree (transpose-multiplied: the row counts), extension and contraction change the dimension by one. Generic code that assumes such a constraint may use the arithmetic it stands for. So a product, sum, comparison, dot or cross product, transpose, diagonal, determinant, inverse, construction from rows, columns or a diagonal, component access or swizzle, embedding, extension, homogeneous conversion or array view of matrices, vectors and points, and applying, composing or exporting a transformation, type-checks exactly when the shapes fit.",
  over=["inputs"], text="all combinations of dimensions 0..17, twelve larger ones up to 2^64 - 1 and up to nine the constraints themselves mention (two-place constraints), 0..6 (four-place), 1..5 (operations on vectors, points and transformations), 1..4 (matrix operations, arrays up to 17 entries); generic code over all dimensions at once",
  why="A test can only contain programs that compile, so it can never observe that a shape which does not fit is rejected; the existing tests list the accepted cases one by one.",
  files=["cglinalg_core/src/constraint.rs", "cglinalg_core/src/matrix.rs", "cglinalg_core/src/vector.rs", "cglinalg_core/src/point.rs", "cglinalg_transform/src/transform.rs"],
  mech=[("ShapeConstraint impls", "cglinalg_core/src/constraint.rs"), ("bounds on products and conversions", "cglinalg_core/src/matrix.rs")]),
 dict(id="C28", title="The printed form of a value shows its components in order",
  statement="Printing a vector, point, matrix, quaternion, complex number, angle, Euler angles, unit value, transformation or projection shows each of its components exactly once, in storage order (matrices column by column) or under the part's name, and no other numbers; layout and wording are not judged.",
  text="all component values (carried through the formatting code as symbols), every printable type, vectors 1..5 and 9, points 1..5, twelve matrix shapes, transformations in dimensions two and three",
  why=TESTS + "no test prints anything; a component left out or printed twice shows only when the components differ.",
  files=["cglinalg_core/src/vector.rs", "cglinalg_core/src/point.rs", "cglinalg_core/src/matrix.rs", "cglinalg_core/src/quaternion.rs", "cglinalg_core/src/complex.rs", "cglinalg_core/src/euler.rs", "cglinalg_trigonometry/src/lib.rs", "cglinalg_transform/src/isometry.rs", "cglinalg_transform/src/shear.rs"],
  mech=[("fmt::Display impls", "cglinalg_core/src/matrix.rs"), ("fmt::Display impls of transformations", "cglinalg_transform/src/shear.rs")]),
 dict(id="C29", title="Two values are equal exactly when all their components are",
  statement="Two vectors, points, matrices, quaternions, complex numbers, Euler angles, unit values, transformations or projections of one type are equal exactly when every pair of corresponding components is equal; inequality is the negation, and the order of the operands does not matter. Angles compare and order as their numbers do. At floats a value with a NaN component equals nothing, itself included, and zeros of either sign are equal.",
  text="all component values, exact reals at every type (vectors to 9, points 1..4, matrices to 4 x 4 and selected larger shapes, transformations in dimensions two and three) and bit patterns of u8, i32, u64, f32, f64",
  why=TESTS + "a comparison that skips one component is wrong only for values that differ in that component alone.",
  files=["cglinalg_core/src/vector.rs", "cglinalg_core/src/point.rs", "cglinalg_core/src/matrix.rs", "cglinalg_core/src/quaternion.rs", "cglinalg_core/src/complex.rs", "cglinalg_core/src/euler.rs", "cglinalg_core/src/unit.rs", "cglinalg_trigonometry/src/lib.rs", "cglinalg_transform/src/isometry.rs", "cglinalg_transform/src/similarity.rs", "cglinalg_transform/src/projection.rs"],
  mech=[("PartialEq of matrices", "cglinalg_core/src/matrix.rs"), ("PartialEq of transformations", "cglinalg_transform/src/similarity.rs"), ("PartialOrd of angles", "cglinalg_trigonometry/src/lib.rs")]),
]
NOT_APPLICABLE = []
PROPS.sort(key=lambda p: p["id"])
