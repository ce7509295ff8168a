#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to keep the wording)."""
import json, os
P = []
def prop(id, title, statement, files, mech, text, why, over=("inputs",), observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    a["observe_at"] = observe or ["return value and final object state of the public function"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why, "anchors": a})

ALLF = "for all values of every float component, including NaN, infinities, signed zeros and subnormals"
S = "src/"

prop("C01", "Float vector arithmetic is exact, component-wise and scalar-broadcast",
 "For vec2, vec3 and vec4, every arithmetic operator (+ - * /, unary + and -, ++ and --, and every compound assignment) yields in each component exactly the IEEE single-precision result of the same scalar operator applied to the corresponding components, a scalar operand acting as a vector with that value in every component. Operand order is respected for - and /, the compound form gives the same value as the binary form, prefix ++/-- return the updated object and postfix the previous value, and no operand other than the assigned object changes.",
 [S+"vec2.cpp", S+"vec3.cpp", S+"vec4.cpp", "include/zcm/detail/impl_op_macro.hpp"],
 [("operator definition macros", "include/zcm/detail/impl_op_macro.hpp"), ("compound operators", "src/vec3.cpp")],
 ALLF+", for every operator and every operand shape (vec-vec, vec-scalar, scalar-vec)",
 "The vec tests use a handful of small integers, so a transposed operand, a reciprocal multiply, a lane swap or a special-value shortcut that coincides on those samples passes.")

prop("C02", "Integer vector arithmetic, bitwise and shift operators are component-wise",
 "For ivec2, ivec3 and ivec4, every operator (+ - * / % & | ^ << >>, unary + and -, ++ and --, and every compound assignment, with vector or scalar right or left operand) yields in each component the int operator applied to the corresponding components, whenever that int operation is defined. The compound and binary forms agree, operand order is respected, prefix and postfix ++/-- return the new and the old value respectively, and every declared operator exists.",
 [S+"ivec2.cpp", S+"ivec3.cpp", S+"ivec4.cpp", "include/zcm/detail/impl_op_macro.hpp"],
 [("operator definition macros", "include/zcm/detail/impl_op_macro.hpp")],
 "for all 32-bit component values for which the scalar operation has no overflow, zero divisor or out-of-range shift",
 "The ivec tests evaluate single small constants per operator; wrong signedness of a shift, a wrong lane, or an operator only declared in the header are not visible there.")

prop("C03", "Boolean vectors, all/any and float relational functions are component-wise",
 "bvec2, bvec3 and bvec4 conversions, negation, conjunction, disjunction, comparison and element access act on each component independently, and all/any are the conjunction/disjunction over every component. lessThan, lessThanEqual, greaterThan, greaterThanEqual, equal, notEqual, isnan and isinf return per component exactly the C++ float relation of the corresponding components (so a NaN component is never less, greater or equal, and is always notEqual).",
 [S+"bvec2.cpp", S+"bvec3.cpp", S+"bvec4.cpp", S+"common.cpp"],
 [("bvec operators", "src/bvec4.cpp"), ("relational functions", "src/common.cpp")],
 "for all boolean component combinations and "+ALLF[8:],
 "Tests enumerate a few boolean combinations and never feed NaN or infinities to the relational functions.")

prop("C04", "Constructors, indexing and raw data access agree on component order",
 "For every vector and quaternion type, the element constructors, composite constructors, scalar-broadcast, default (zero; identity for quat) and conversion constructors, make_* from memory, operator[] and value_ptr all agree on one contiguous component order: the i-th constructor value is the i-th component read by operator[] and by value_ptr()[i]. Writing through operator[] or value_ptr changes that component only, and reading changes nothing.",
 [S+"vec2.cpp", S+"vec3.cpp", S+"vec4.cpp", S+"ivec2.cpp", S+"ivec3.cpp", S+"ivec4.cpp", S+"quat.cpp", S+"type_ptr.cpp"],
 [("constructors and operator[]", "src/vec4.cpp"), ("value_ptr", "src/type_ptr.cpp")],
 ALLF+"; for every valid index; for every constructor",
 "Tests construct with few values; type_ptr and most composite constructors are not exercised at all.")

prop("C05", "Every swizzle and component name selects exactly its letters' components",
 "For every vec and ivec type, each component name (xyzw/rgba/stpq) and each swizzle of two to four letters reads exactly the components its letters denote, in that order. Assigning a scalar to a component name, and compound assignment or ++/-- through it, updates that component as the scalar operator would and leaves every other component untouched; a component assigned from another vector's component behaves the same way.",
 ["include/zcm/detail/vec2_access.hpp", "include/zcm/detail/vec3_access.hpp", "include/zcm/detail/vec4_access.hpp", "include/zcm/vec2.hpp", "include/zcm/vec3.hpp", "include/zcm/vec4.hpp", "include/zcm/ivec4.hpp", S+"vec4_access.cpp"],
 [("scalar and shuffle accessors", "include/zcm/detail/vec4_access.hpp"), ("member name tables", "include/zcm/vec4.hpp")],
 "for every one of the several thousand swizzle names, for all component values",
 "There are thousands of names in hand-written tables; the tests touch a few dozen of them with one value each.",
 over=("inputs", "programs"))

prop("C06", "Equality and ordering are component-wise and lawful",
 "operator== on every vector, matrix, quaternion and boolean vector type is true exactly when all corresponding components compare equal, and operator!= is always its negation, including for NaN and signed zeros. The ivec ordering operators are the lexicographic order, hence <, <=, >, >= are mutually consistent and form a strict total order usable as a map key.",
 [S+"vec2.cpp", S+"vec3.cpp", S+"vec4.cpp", S+"ivec2.cpp", S+"ivec3.cpp", S+"ivec4.cpp", S+"bvec2.cpp", S+"bvec3.cpp", S+"bvec4.cpp", S+"quat.cpp", S+"mat2.cpp", S+"mat3.cpp", S+"mat4.cpp"],
 [("comparison operators", "src/ivec4.cpp")],
 "for all pairs (and for order laws all triples) of values",
 "A comparison that ignores or confuses one component, or mishandles a tie, only shows on inputs differing in exactly that component; the tests try few pairs and no matrix.")

prop("C07", "Hashing is consistent with equality and uses every component",
 "Values that compare equal with operator== have equal hashes, for every hashable type, and std::hash and zcm::hash agree. The hash depends on every component: for each component position there are values differing in that position only whose hashes differ.",
 [S+"hash.cpp", "include/zcm/hash.hpp"],
 [("hash and hash combining", "src/hash.cpp")],
 "for all pairs of equal values, including those that differ in representation (signed zeros); for every component position of every type",
 "No test exercises hashing; a container lookup failure needs equal values with different representation.")

prop("C08", "min, max, clamp, abs, sign, step and mix follow GLSL in every component",
 "abs, sign, signNotZero, min, max, clamp, step, mix (float, vector and boolean selector) and smoothstep on floats, ints and vectors return in every component the GLSL value of the same scalar function: sign(0)=0, signNotZero(0)=1, min(x,y) is y if y<x and otherwise x, max(x,y) is y if x<y and otherwise x (so x when y is NaN), min/max/clamp always return one of their arguments, step(edge,x) is 0 exactly when x<edge, mix(x,y,0)=x, mix(x,y,1)=y (in real arithmetic), mix with a bool selects exactly, and smoothstep is 0 below edge0, 1 above edge1 and the cubic Hermite in between. The vector overloads equal the scalar overload applied to the corresponding components.",
 [S+"common.cpp"],
 [("component-wise common functions", "src/common.cpp"), ("applyOp", "src/detail/utils.hpp")],
 "for all float and int inputs (NaN excluded only where GLSL leaves it undefined), for every overload",
 "The tests do not sample ties, signed zeros, out-of-range t, or every lane of every overload.")

prop("C09", "Rounding, fract, mod and fma have their exact mathematical meaning",
 "floor, ceil, trunc, round and roundEven return, in each component, the correctly rounded integral value in the named direction (halves away from zero for round, to even for roundEven); fract(x) is x-floor(x), and mod(x,y) is x-y*floor(x/y) in float arithmetic. fma(a,b,c) is the fused multiply-add (a single rounding), and every vector overload equals the scalar overload per component.",
 [S+"common.cpp"],
 [("rounding functions", "src/common.cpp")],
 ALLF,
 "Half-way cases, negative operands, large magnitudes and signed zeros are not sampled by the tests.")

prop("C10", "Trigonometric and exponential functions map each component to its function",
 "Each of sin, cos, tan, asin, acos, atan (one and two arguments), sinh, cosh, tanh, asinh, acosh, atanh, exp, exp2, log, log2, pow, sqrt, inversesqrt and cbrt returns, for floats, vectors and quaternions, in every component the single-precision mathematical function of that name of the corresponding component(s), with the two-argument forms taking their arguments in the documented order. degrees and radians convert by the factor 180/pi and pi/180 to float precision.",
 [S+"angle_and_trigonometry.cpp", S+"exponential.cpp"],
 [("trigonometry wrappers", "src/angle_and_trigonometry.cpp"), ("exponential wrappers", "src/exponential.cpp")],
 ALLF+", for every function and overload",
 "No test calls these functions; an overload that forwards to the neighbouring function or lane is plausible almost everywhere.")

prop("C11", "Component reductions cover every component exactly once",
 "compAdd, compMul, compMin and compMax of a float or integer vector are the sum, product, minimum and maximum over all its components, each used exactly once. The minimum and maximum are always one of the components and bound all of them.",
 [S+"component_wise.cpp"],
 [("reductions", "src/component_wise.cpp")],
 "for all component values (finite floats for sum/product up to rounding; ints without overflow)",
 "Tests use few vectors in which a wrong or repeated lane can coincide with the right result.")

prop("C12", "dot, length, distance and normalize obey the Euclidean norm laws",
 "For floats, vectors and quaternions, dot is the sum of products of all corresponding components, length is the non-negative square root of dot(v,v), length2 is dot(v,v), distance and distance2 are length and length2 of the difference, up to float rounding. normalize of a non-zero vector returns the vector divided by its length, so the result has unit length and the same direction. In machine arithmetic none of them overflows, underflows or yields NaN while the magnitudes stay between 1e-15 and 1e15.",
 [S+"geometric.cpp"],
 [("dot/length/distance/normalize", "src/geometric.cpp")],
 "for all real-valued inputs (normalize: non-zero), for every overload",
 "Tests compare a few vectors; some overloads (distance2, float, quat) are not called at all.")

prop("C13", "cross, reflect, refract, faceforward and orthogonal satisfy their geometric laws",
 "cross(a,b) is the right-handed cross product (hence orthogonal to both arguments and anti-commutative); reflect(I,N)=I-2*dot(N,I)*N; refract follows Snell's law eta*I-(eta*dot(N,I)+sqrt(k))*N and is zero exactly on total internal reflection (k<0); faceforward returns N when dot(Nref,I)<0 and -N otherwise, up to float rounding. orthogonal of a non-zero vector, and orthogonal_branchless of a unit vector, return a non-zero vector perpendicular to the argument. refract of vectors of moderate size never yields NaN.",
 [S+"geometric.cpp"],
 [("geometric functions", "src/geometric.cpp")],
 "for all real-valued inputs satisfying the documented preconditions, for every overload",
 "Branch boundaries (total internal reflection, equal components, axis-aligned and tiny vectors) are not sampled.")

prop("C14", "Octahedral encoding stays in range and decodes back to the same direction",
 "For every unit vector, encode_octahedral returns both components within [-1,1], and decode_octahedral of that encoding returns the original unit vector, up to float rounding. decode_octahedral of any point of the square [-1,1]x[-1,1] is a unit vector. The range holds in machine arithmetic too, and no input of that kind yields NaN.",
 [S+"geometric.cpp"],
 [("encode/decode_octahedral", "src/geometric.cpp")],
 "for all unit vectors in all eight octants including the fold lines; for all points of the square",
 "There is no test of it; an error confined to one hemisphere or octant needs inputs from there.")

prop("C15", "Matrix constructors, conversions and indexing are consistently column-major",
 "For mat2, mat3 and mat4: the default and diagonal constructors give (scaled) identity, the element constructors and make_mat* take elements in column-major order, the column constructor stores each column, m[c][r] reads and writes exactly that element, and value_ptr exposes the same contiguous column-major order. Conversions between sizes keep the common upper-left block and fill the rest with the identity.",
 [S+"mat2.cpp", S+"mat3.cpp", S+"mat4.cpp", S+"type_ptr.cpp"],
 [("matrix constructors and operator[]", "src/mat4.cpp")],
 "for all element values, for every index and every constructor",
 "No test constructs matrices.")

prop("C16", "Matrix arithmetic is linear algebra: sums, products and matrix-vector forms",
 "For mat2, mat3 and mat4: +, - and unary operators, matrixCompMult and scalar * and / act element-wise; m*n is the matrix product, m*v the product with a column vector and v*m the product with a row vector, up to float rounding, so (m*n)*v = m*(n*v). m/n is m*inverse(n), m/v is inverse(m)*v, v/m is v*inverse(m) for invertible operands, scalar/m divides the scalar by each element, and every compound operator equals its binary form even when the operand is the object itself.",
 [S+"mat2.cpp", S+"mat3.cpp", S+"mat4.cpp", S+"matrix.cpp"],
 [("matrix operators", "src/mat4.cpp")],
 "for all real element values (invertible divisor matrices), including aliased operands",
 "No test multiplies matrices; index transpositions agree on symmetric or diagonal samples.")

prop("C17", "transpose, determinant, adjugate and inverse satisfy their algebraic identities",
 "For mat2, mat3 and mat4, up to float rounding: transpose swaps rows and columns; determinant is the Leibniz determinant; inverse(m)*m = m*inverse(m) = identity for every invertible m; adjugate(m)*m = determinant(m)*identity for every m. inverseTranspose and adjugateTranspose are the transposes of inverse and adjugate.",
 [S+"matrix.cpp"],
 [("matrix functions", "src/matrix.cpp")],
 "for all real matrices (invertible where an inverse is taken)",
 "No test calls them; a sign or cofactor error cancels for sparse, symmetric or orthogonal samples.")

prop("C18", "translate, rotate and scale post-multiply the documented affine transform",
 "translate(m,v), scale(m,v) and rotate(m,angle,axis) return m times the translation by v, the scaling by v and the right-handed rotation by angle about the (not necessarily unit, non-zero) axis, for every m, up to float rounding. In particular the rotation block is orthogonal with determinant 1 and fixes the axis.",
 [S+"matrix_transform.cpp"],
 [("translate/rotate/scale", "src/matrix_transform.cpp")],
 "for all real matrices, vectors, angles and non-zero axes",
 "No test calls them; wrong terms vanish for identity matrices, axis-aligned axes or special angles.")

prop("C19", "Orthographic and perspective projections map the view volume to clip space",
 "ortho*, for left!=right, bottom!=top, near!=far, maps the box [left,right]x[bottom,top]x[near,far] in front of the viewer affinely onto [-1,1]x[-1,1]x[0,1] (ZO) or [-1,1]^3 (NO), looking along +z (LH) or -z (RH). perspective* maps near and far planes to those same depth limits after the perspective divide with w equal to the forward distance, and points on the frustum edge given by the vertical field of view and aspect ratio to x,y=+-1, up to float rounding.",
 [S+"matrix_transform.cpp"],
 [("ortho*/perspective*", "src/matrix_transform.cpp")],
 "for all real parameter values satisfying the documented non-degeneracy, for every LH/RH and ZO/NO variant",
 "No test calls them; handedness and depth-range variants differ in few signs and terms.")

prop("C20", "lookAt is the rigid view transform for eye, centre and up",
 "lookAtLH/RH, for eye!=center and up not parallel to the view direction, return the rigid transform (orthonormal rotation, determinant 1, last row 0,0,0,1) that maps eye to the origin, the view direction to +z (LH) or -z (RH), and up into the half-plane x=0, y>0, up to float rounding. quatLookAtLH/RH, for a unit direction and up not parallel to it, return the unit quaternion of the rotation whose z axis is the direction (LH) or its opposite (RH) and whose x axis is orthogonal to up.",
 [S+"matrix_transform.cpp", S+"quaternion.cpp"],
 [("lookAtLH/RH", "src/matrix_transform.cpp"), ("quatLookAtLH/RH", "src/quaternion.cpp")],
 "for all real eye, center and up in general position",
 "No test calls them; axis-aligned set-ups hide sign and order errors.")

prop("C21", "decompose_orthogonal recovers scale, rotation and translation of an affine map",
 "For every matrix T*R*S built from a translation T, a rotation R and a positive scale S, decompose_orthogonal returns exactly that translation, that scale and a unit quaternion whose rotation matrix is R, up to float rounding. It does not modify its input.",
 [S+"matrix_transform.cpp"],
 [("decompose_orthogonal", "src/matrix_transform.cpp")],
 "for all translations, rotations and positive scales",
 "No test calls it; errors appear only for rotations selecting a particular branch or for non-uniform scale.")

prop("C22", "Quaternion arithmetic is Hamilton's algebra",
 "quat +, -, unary and scalar * and / act component-wise, q*r is the Hamilton product (up to float rounding), conjugate negates the vector part, inverse(q)*q is the identity for every non-zero q, and compound forms equal their binary forms even when the operand is the object itself. All constructors and make_quat agree with operator[] and the named members on which value is w, x, y, z.",
 [S+"quat.cpp", S+"quaternion.cpp"],
 [("quaternion operators", "src/quat.cpp"), ("conjugate/inverse", "src/quaternion.cpp")],
 "for all real quaternions, including aliased operands",
 "Tests touch a few constructors; sign errors in one product term vanish for samples with zero components.")

prop("C23", "Quaternion, mat3 and mat4 represent the same rotation",
 "For every unit quaternion q and vector v: q*v, mat3_cast(q)*v and the upper-left block of mat4_cast(q) give the same rotated vector, q*v preserves length, v*q is the inverse rotation, and (p*q)*v = p*(q*v), up to float rounding. quat_cast(mat3_cast(q)) and quat_cast(mat4_cast(q)) return q or -q; quat_cast of a rotation matrix whose entries rounding has disturbed never yields NaN.",
 [S+"quat.cpp", S+"quaternion.cpp"],
 [("quat*vec", "src/quat.cpp"), ("mat3_cast/mat4_cast/quat_cast", "src/quaternion.cpp")],
 "for all unit quaternions and all vectors, on every branch of the conversion",
 "No test calls the casts; each branch of quat_cast covers a region of rotations samples may miss.")

prop("C24", "Rotation constructors and queries agree: angle-axis, Euler, shortest arc",
 "angleAxis(angle,axis) for a unit axis rotates by angle about it (right-handed) and angle()/axis() recover both for angles in (0,2*pi); axis() of a unit quaternion is a unit vector, also when it turns by nothing; rotate(q,angle,v) is q times that rotation about normalised v; the Euler-angle constructor is the yaw-pitch-roll product Rz(z)*Ry(y)*Rx(x) of the three elementary rotations, and pitch, yaw, roll, eulerAngles return angles that rebuild the same rotation away from gimbal lock, up to float rounding. quat(u,v) for non-zero vectors is a unit quaternion rotating the direction of u onto that of v by the shortest arc, also when they are opposite (within the float tolerance that decides so). Rounding that takes a unit quaternion slightly off unit length never makes a query return NaN.",
 [S+"quaternion.cpp", S+"quat.cpp"],
 [("angleAxis/axis/angle/rotate/euler", "src/quaternion.cpp"), ("quat(u,v)", "src/quat.cpp")],
 "for all angles, unit axes, Euler angles and non-zero vector pairs (including parallel and opposite ones)",
 "No test calls these; special branches (near pi, near zero, opposite vectors) are single regions of the input space.")

prop("C25", "Quaternion interpolation hits its end points and stays on the arc",
 "lerp(x,y,t) is x*(1-t)+y*t, nlerp is that value normalised (where it is not zero), and slerp is the constant-speed interpolation along the shorter arc: for unit x,y all give x at t=0 and y (for slerp up to sign) at t=1, and nlerp and slerp results are unit quaternions, up to float rounding. slerp falls back to linear interpolation only when the arguments are nearly equal (up to sign), and never yields NaN for arguments that are unit up to rounding.",
 [S+"quaternion.cpp"],
 [("lerp/nlerp/slerp", "src/quaternion.cpp")],
 "for all unit quaternion pairs (either sign of their dot product) and all t in [0,1]",
 "No test calls them; the negative-dot and the near-parallel branch need specific pairs.")

prop("C26", "sRGB and linear colour conversions are the IEC curves and leave alpha alone",
 "convertSRGBToLinear applies, to each colour channel independently, the piecewise IEC 61966-2-1 transfer function, with exponent 2.4 or the given gamma on its power segment. convertLinearToSRGB(c,gamma) clamps each channel to [0,1] and applies the inverse curve with exponent 1/gamma; convertLinearToSRGB(c) is, per non-negative channel, the documented square-root fit 0.662002687*c^(1/2)+0.684122060*c^(1/4)-0.323583601*c^(1/8)-0.0225411470*c. The vec4 forms return alpha unchanged. No channel of moderate size (non-negative for the fit) becomes NaN.",
 [S+"color_space.cpp"],
 [("transfer functions", "src/color_space.cpp")],
 "for all float channel values (non-negative for the square-root fit) and all positive gammas, for every overload",
 "No test calls them; the low (linear) segment, out-of-range channels and the gamma forms need specific inputs.")

prop("C27", "Mathematical constants are the nearest float to their true value",
 "Every named constant function returns the single-precision float nearest to the mathematical constant its name denotes (epsilon: the float machine epsilon).",
 [S+"constants.cpp", "include/zcm/constants.hpp"],
 [("constant functions", "src/constants.cpp")],
 "for every constant; no inputs",
 "No test reads the constants.")

prop("C28", "Operations are memory-safe, total and free of side effects",
 "Every public operation, on all inputs satisfying its documented precondition (valid index, defined int operation), reads and writes only its arguments and its result, reads nothing uninitialised, triggers no undefined behaviour and no assertion, terminates, and changes no global state. Its result therefore depends on its arguments only.",
 [S+"*.cpp", "include/zcm/*.hpp"],
 [("all functions", "src/"), ("index assertions", "src/vec4.cpp")],
 "for all inputs of every public function under contract",
 "Out-of-bounds columns, uninitialised lanes or hidden state do not change the result on the sampled inputs, and most functions are not called by any test.")

prop("C29", "Every build configuration computes the same results",
 "A release build (assertions off) and a build with swizzles disabled compute, for every public operation available in them and every valid input, the same result as the default debug build.",
 ["CMakeLists.txt", "include/zcm/detail/vec4_access.hpp", S+"vec4_access.cpp", S+"*.cpp"],
 [("ZCM_RELEASE_BUILD / NDEBUG / ZCM_DISABLE_SWIZZLE conditionals", "include/zcm/detail/vec4_access.hpp")],
 "for all inputs of every public function, across the debug, release and no-swizzle configurations",
 "The tests run in one configuration only.",
 over=("inputs", "configurations"))

prop("C30", "Every operation the headers declare is provided by the library",
 "Each function and operator declared in a public header is defined in the library, so that a program using any declared operation links.",
 ["include/zcm/*.hpp", "CMakeLists.txt"],
 [("declarations", "include/zcm/"), ("definitions", "src/")],
 "for all programs that use the declared API",
 "Tests only link what they call.", over=("programs",))

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
