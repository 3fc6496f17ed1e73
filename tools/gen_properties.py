#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays in one reviewable place)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                          "observe_at": observe, "hook_needed": None}})
CU, SU, KV, GR, BB = "src/Curve/Curve.cpp", "src/Surface/Surface.cpp", "src/Core/KnotVector.cpp", "include/libnurbs/Core/Grid.hpp", "include/libnurbs/Core/BoundingBox.hpp"
SE, KR, DA, BS = "src/Utils/Serialization.cpp", "src/Algorithm/KnotRemoval.cpp", "src/Algorithm/DegreeAlgo.cpp", "src/Basis/BSplineBasis.cpp"
TD, MU = "include/libnurbs/Core/Typedefs.hpp", "include/libnurbs/Algorithm/MathUtils.hpp"

prop("C01", "Operations leave their inputs untouched and keep no hidden state",
     "Every operation that returns a value or a new object (evaluation, derivatives, parameter search, knot insertion and removal, degree elevation, transformation, parameter alignment, Bezier extraction, bounding box, saving, knot queries) leaves the receiver and every argument object observably unchanged, the elements of a passed knot list included. "
     "Its outcome is a function of the receiver and the arguments alone: nothing is remembered from one call to the next, so calls on a shared object may run concurrently.",
     ["inputs", "schedules", "histories"], "all objects, arguments, previous calls and concurrent callers",
     "Tests call each operation once, from one thread, on a fresh object and look at the result only; hidden state or a modified input shows up on later or concurrent calls.",
     [CU, SU, KV, BS, "src/Geometry/GeomRect.cpp", "src/Geometry/GeomSegment.cpp", KR, DA, TD],
     [("operations copy the receiver before changing it", CU), ("no mutable members, no mutable statics", "include/libnurbs")],
     ["receiver and argument values after the call", "result of repeated calls"])
prop("C02", "Loading rejects every malformed or truncated input",
     "LoadFromFile throws whenever the file cannot be opened, the magic, the mode or the object type in the header is not the expected one, a keyword is unknown, or any degree, count, knot or coordinate cannot be read in full. "
     "Negative element counts, non-positive or overflowing grid dimensions and a number of control points that contradicts the announced grid are rejected the same way; a value that was not read successfully is never kept as if it had been.",
     ["inputs", "fault_sequences"], "all byte streams, truncation points and read failures, text and binary",
     "The load tests feed a handful of well-formed strings; each missing check needs its own malformed or truncated stream.",
     [CU, SU, SE], [("stream state tested after every extraction, before the value is used", SE), ("header, key and count validation", CU), ("header, key and count validation", SU)],
     ["exception thrown by LoadFromFile"])
prop("C03", "A failed save is always reported",
     "If SaveToFile returns normally, every byte was handed to the stream and the stream reported no failure after it was flushed; if the file cannot be opened or any write or the flush fails, SaveToFile throws.",
     ["fault_sequences"], "all write failure points (disk full, closed pipe, failed open), text and binary",
     "No test makes a write fail.", [CU, SU, SE],
     [("open check", CU), ("flush and fail check before every normal return", CU), ("open check", SU), ("flush and fail check before every normal return", SU)],
     ["exception thrown by SaveToFile"])
prop("C04", "Saving and loading agree: a round trip is lossless",
     "Whatever curve or surface is saved, in text or in binary mode, loading the result restores the same degrees, knots, grid dimensions and control points, each in its own place and to the last bit for finite numbers. "
     "Writer and reader agree on header tokens, keywords, order, element widths, counts and separators, and text output keeps enough digits for every double.",
     ["inputs"], "all objects, both modes",
     "The tests load hand-written text; hardly any value is written and read back, none needs more than a few digits and no surface with distinguishable U and V data is.",
     [CU, SU, SE], [("SaveToFile / LoadFromFile pairs", CU), ("SaveToFile / LoadFromFile pairs", SU), ("Read*/Write* helpers", SE)],
     ["object after SaveToFile + LoadFromFile"])
prop("C05", "Loading replaces the previous content of the object",
     "After a successful LoadFromFile the object's degrees, knots, grid dimensions and control points are determined by the stream alone, whatever the object held before, and the call returns a reference to that same object.",
     ["histories", "inputs"], "all previous object states and all streams",
     "Tests load into fresh objects only.", [CU, SU], [("content reset before the sections are read", CU), ("content reset before the sections are read", SU)],
     ["object after a second LoadFromFile"])
prop("C06", "Results are structurally consistent: knots = points + degree + 1",
     "Every curve or surface an operation returns for a consistent input (knot insertion, knot removal whether it removes all, some or none of the requested knots, degree elevation, Bezier extraction, transformation, alignment, segment and rectangle construction) is consistent itself: in each direction the number of knots equals the number of control points plus the degree plus one, and a control grid stores exactly columns times rows points. "
     "Knot insertion adds as many knots as were asked for, removal takes away exactly as many as it reports, elevation raises the degree by exactly the requested amount.",
     ["inputs"], "all degrees, knot multiplicities, grid sizes, repeat counts and tolerances",
     "Tests check a few low-degree examples; partial removal, multi-span elevation and unequal grid dimensions are not reached.",
     [CU, SU, KR, DA, GR, KV, "src/Geometry/GeomRect.cpp", "src/Geometry/GeomSegment.cpp"],
     [("size bookkeeping in insert/remove/elevate", KR), ("size bookkeeping", DA), ("grid re-dimensioning", SU)], ["sizes of the result"])
prop("C07", "No out-of-range element access on valid objects",
     "For every valid curve or surface and every parameter in [0,1], evaluation, derivatives, knot insertion, Bezier extraction, alignment, transformation, primitive construction, grid row and column access and knot queries only access elements that exist, and never read a variable that was not given a value.",
     ["inputs"], "all valid objects, parameters (both domain ends included), derivative orders and grid shapes",
     "Tests sample interior parameters of small objects and are not run with bounds checking; an off-by-one often reads adjacent memory without failing.",
     [CU, SU, KV, GR, BS, "src/Geometry/GeomRect.cpp", "src/Geometry/GeomSegment.cpp"],
     [("span lookup bounds", KV), ("loop limits", CU), ("loop limits", SU), ("grid index arithmetic", GR)], ["element accesses"])
prop("C08", "Evaluation is the rational combination of the supporting points",
     "Evaluate returns, for every parameter, the weighted combination of exactly the degree+1 (per direction) control points that support the parameter's knot span: the sum of basis value times weight times position, divided by the sum of basis value times weight, for curves and for tensor-product surfaces with each direction using its own degree, knots and parameter. "
     "IsRational tells exactly whether two control points differ in weight.",
     ["inputs"], "all degrees, knots, control nets, weights and parameters",
     "Evaluation tests use a few curves and one or two surfaces, mostly with equal weights or equal degrees in U and V; Curve evaluation is not compiled into the stable tests at all.",
     [CU, SU, TD], [("Curve::Evaluate", CU), ("Surface::Evaluate", SU), ("ToHomo/FromHomo", TD)], ["returned point"])
prop("C09", "Derivatives obey the rational quotient rule at every order",
     "The derivatives returned for a point satisfy, for every order (and pair of orders for surfaces), the Leibniz identity: the sum over all lower orders of binomial coefficients times weight derivatives times lower point derivatives equals the homogeneous derivative, where homogeneous derivatives combine the supporting weighted points with the basis derivatives of that order and direction. "
     "A single requested derivative is the corresponding entry of the full table, and the zeroth entry is the evaluated point.",
     ["inputs"], "all orders, degrees, weights, control nets and parameters",
     "Tests check first and second derivatives of a few (mostly polynomial) examples; mixed orders of rational surfaces have many terms that vanish there.",
     [CU, SU, MU], [("quotient rule loops", CU), ("quotient rule loops", SU), ("HomogeneousDerivative", SU)], ["returned derivative table"])
prop("C10", "Knot insertion applies the exact refinement and overloads agree",
     "Inserting a knot places the new value in its sorted position, keeps every control point outside the affected range, and replaces the affected ones by the convex combinations (in homogeneous coordinates) prescribed by the knot ratio, so that the shape is unchanged; on surfaces this happens for every row or column along the chosen direction and nothing changes in the other direction. "
     "Inserting a value n times or inserting a list of values equals inserting the values one after the other.",
     ["inputs"], "all degrees, knots, weights, inserted values and lists",
     "Tests insert a few values into small examples and compare a few evaluated points; rational weights, lists and U/V asymmetries are not covered.",
     [CU, SU, KV, GR, TD], [("InsertKnot family", CU), ("InsertKnotU/V family", SU), ("KnotVector::InsertKnot", KV), ("Grid::InsertU/InsertV", GR)], ["knots and control points of the result"])
prop("C11", "Directional surface operations act on their own direction only",
     "Knot removal and degree elevation of a surface in one direction apply the curve algorithm to every row (or column) of the control net with that direction's degree and knots, store each processed row back in its own place, and leave degree, knots and point count of the other direction as they were. "
     "A removal reports success only if every row allowed the same number of removals, and otherwise returns the surface unchanged with count zero.",
     ["inputs"], "all surfaces, both directions, repeat counts and tolerances",
     "The tests use surfaces whose rows are alike or whose U and V data agree; a swapped direction or a skipped row is not visible there.",
     [SU, GR], [("RemoveKnotU/V", SU), ("ElevateDegreeU/V", SU), ("GetU/GetV/SetU/SetV", GR)], ["knots, degrees, grid of the result"])
prop("C12", "Removal and elevation hand back Cartesian points and the right knots",
     "Knot removal and degree elevation work on weighted (homogeneous) points internally and hand back Cartesian points with their weights on every outcome, partial and failed removal included. "
     "A removal reports a number between zero and the smaller of the request and the knot's multiplicity; the knots afterwards are the previous ones less exactly that many copies of the removed value, and when it reports zero, knots and points are returned unchanged. Copies of a knot that the shape does not need (it was inserted before) are always removed when asked for, and what is left is the shape without them.",
     ["inputs"], "all degrees, weights, knots, repeat counts and tolerances; every exit",
     "Tests remove and elevate examples with unit weights, where homogeneous and Cartesian coordinates coincide, and full removals only.",
     [KR, DA, CU], [("conversion on entry and exit", KR), ("conversion on entry and exit", DA), ("removal bookkeeping", KR)], ["points and knots after the call"])
prop("C13", "Knot vectors are validated when they are built",
     "Building a knot vector succeeds exactly if the values are non-empty, start at or above zero, never decrease, contain no NaN and end at one, and then holds exactly those values (each pair's value repeated as often as its multiplicity says); otherwise it throws. "
     "The uniform constructor yields degree+1 zeros, evenly spaced interior knots and degree+1 ones, of exactly the requested total count.",
     ["inputs"], "all value lists, pair lists, degrees and counts",
     "Tests try a few valid and invalid lists.", [KV], [("validation in both constructors", KV), ("Uniform", KV)], ["exception or stored values"])
prop("C14", "Knot queries report exactly what the knot vector contains",
     "The span lookup returns, for every parameter in [0,1], an index between degree and (number of knots - degree - 2) whose knots bracket the parameter, the last span for the domain's end. "
     "Multiplicity counts the knots matching a value; the pair list gives each distinct value once, in order, with the index of its first occurrence and its multiplicity; validity, clampedness, uniformity and degree detection report what the values show; inserting keeps the values sorted and returns the span index; reversing maps every value t to 1-t in reverse order.",
     ["inputs"], "all valid knot vectors and parameters, knots and domain ends included",
     "Tests query a few vectors at a few parameters.", [KV, "include/libnurbs/Core/KnotVector.hpp", MU],
     [("FindSpanIndex, GetKnotPairs, GetMultiplicity, IsValid, IsClamped, IsUniform, DetectDegree, FindSpan, InsertKnot, Reverse", KV)], ["returned values", "stored knots"])
prop("C15", "Bounding boxes obey the lattice laws",
     "A box built from two points, and a box expanded by a point or a box, is the smallest axis-aligned box containing what it was given and what it contained before, per coordinate and for every order of the arguments. "
     "Containment is true exactly if every coordinate lies between the bounds, inclusive; centre, extents and volume follow from the corners.",
     ["inputs"], "all points and boxes, including degenerate and negative ones",
     "There is no bounding-box test at all.", [BB], [("BoundingBox members", BB)], ["Min, Max, returned values"])
prop("C16", "Bezier extraction cuts the curve into its own pieces",
     "Extracting Bezier segments inserts every interior knot until its multiplicity equals the degree and yields consecutive segments of the curve's own degree, each with degree+1 control points taken in order from the refined curve, neighbouring segments sharing their end point, each with a clamped single-span knot vector.",
     ["inputs"], "all valid curves, knot multiplicities and degrees",
     "Tests extract from one or two curves; Curve is not part of the stable tests.", [CU], [("ExtractBezier", CU)], ["returned segments"])
prop("C17", "Parameter searches stay in the domain, terminate and pin the fixed parameter",
     "Every parameter search returns parameters inside [0,1] when started inside it and evaluates the shape only inside [0,1], ends after at most the given number of iterations, and a search restricted to an iso-line returns the fixed parameter exactly as given, in the component the direction names, and evaluates only on that iso-line.",
     ["inputs"], "all shapes, query points, starting values, iteration limits and directions",
     "Tests search for points that lie on the shape from the default start and never reach the clamping, the iteration limit or the line-search fallback.",
     [CU, SU], [("clamping of trial parameters", CU), ("clamping of trial parameters", SU), ("iteration counters", CU), ("iteration counters", SU)], ["returned parameters", "evaluated parameters"])
prop("C18", "Alignment and transformation preserve the shape",
     "Aligning the parameter domain returns the same surface up to exchanging and reversing parameters: degrees, knots and control grid are exchanged together or not at all, and whenever a direction is reversed its knots are reversed and its control points are mirrored together, every point keeping its coordinates and weight. "
     "Transform applies the matrix to every control point's position and changes neither weights, knots nor degrees.",
     ["inputs"], "all surfaces and curves, axes and matrices; odd and even grid sizes",
     "Tests align a few symmetric patches and look at corner points; inner control points, unequal degrees and asymmetric knots are not checked.",
     [SU, CU, KV], [("AlignParameterDomain", SU), ("Transform", SU), ("Transform", CU), ("KnotVector::Reverse", KV)], ["degrees, knots, grid of the result"])
prop("C19", "Primitive constructors reproduce the requested geometry",
     "A segment becomes a curve of the requested degree with the requested number of control points, evenly spaced from the first point to the second, unit weights and a clamped uniform knot vector; a rectangle becomes the corresponding surface whose control point (i,j) is the left-bottom corner plus i equal steps towards right-bottom plus j equal steps towards left-top, each direction with its own degree, count and knots.",
     ["inputs"], "all corner points, degrees and counts",
     "Tests build a few primitives with equal degrees and counts.", ["src/Geometry/GeomRect.cpp", "src/Geometry/GeomSegment.cpp", "include/libnurbs/Geometry/GeomRect.hpp", "include/libnurbs/Geometry/GeomSegment.hpp"],
     [("GetSurface", "src/Geometry/GeomRect.cpp"), ("GetCurve", "src/Geometry/GeomSegment.cpp")], ["control points, knots, degrees"])
prop("C20", "The public headers compile on their own and what they declare exists",
     "Every public header can be included first and alone, in any program, and every function declared in a public header has exactly one definition in the library, so that a program using only the documented interface compiles and links.",
     ["programs"], "all client programs",
     "Tests include headers in one fixed order and call a subset of the functions.", ["include/libnurbs"], [("include hygiene", "include/libnurbs"), ("definitions", "src")], ["compiler and linker"])
prop("C21", "The control grid is a faithful two-dimensional array",
     "For every grid size, element (u,v) is one and the same storage cell through every accessor: reading a row or column returns exactly the elements of that row or column in order, writing one changes exactly those elements, and inserting a row or column shifts the later ones by one, keeps every old element, and fills the new cells with the given value, also when that value is an element of the grid itself.",
     ["inputs"], "all grid dimensions (unequal ones included) and indices",
     "Tests use one or two small grids.", [GR], [("row-major index arithmetic", GR), ("InsertU/InsertV", GR)], ["grid contents and dimensions"])
prop("C22", "Basis functions follow the Cox-de Boor recurrence and sum to one",
     "The degree+1 basis values returned for a span and parameter are those of the Cox-de Boor recurrence, built degree by degree from the span's own knots, and therefore sum to one for every parameter and knot vector; looking up by parameter uses the span the knot vector reports. "
     "A derivative request returns the requested row of the full table; its zeroth row holds the basis values, and row k follows the derivative recurrence over the same triangle of lower-degree values and knot differences, scaled by degree times (degree-1) down to (degree-k+1).",
     ["inputs"], "all degrees, knot vectors, spans and parameters",
     "Tests compare a few tabulated values.", [BS], [("triangular recurrence", BS)], ["returned basis values"])
prop("C23", "The curve's bounding box accounts for every piece",
     "The bounding box of a curve is accumulated over all Bezier pieces: every piece either contributes its end points' box or is split at its middle parameter into two exact halves, in homogeneous coordinates, both of which are processed.",
     ["inputs"], "all valid curves, rational ones included, and tolerances",
     "There is no bounding-box test.", [CU, BB], [("GetBoundingBox work list and midpoint subdivision", CU)], ["returned box"])
prop("C30", "Knot removal keeps the shape within the tolerance",
     "A copy of a knot is removed only if the curve (every row of the surface) stays within the given tolerance of what it was, for every copy removed.", ["inputs"], "all curves, knots, tolerances",
     "Tests remove knots that were inserted before.", [KR], [("tolerance test", KR)], ["distance between shapes"])
prop("C31", "Degree elevation keeps the shape exactly",
     "The elevated curve or surface traces the same points at the same parameters as the original: its knots are the original ones, each distinct value repeated as many more times as the degree was raised, and its control points and weights are the ones degree raising prescribes.", ["inputs"], "all shapes and amounts",
     "Tests elevate a few examples.", [DA], [("Bezier decomposition, elevation and recomposition", DA)], ["evaluated points"])
prop("C32", "Parameter search finds the closest point",
     "For a point on the shape, the searches return a parameter whose point lies within epsilon of it.", ["inputs"], "all shapes, points, starts",
     "Tests search for a few points.", [CU, SU], [("BFGS / bisection", CU)], ["distance at the returned parameter"])
prop("C33", "The curve's bounding box is tight and complete up to epsilon",
     "Every point of the curve lies in the returned box and the box reaches no further than the curve, each up to the given tolerance (at least 1e-6, the flatness test's).", ["inputs"], "all curves and tolerances",
     "There is no bounding-box test.", [CU], [("subdivision until flat or small", CU)], ["returned box"])
prop("C34", "Basis derivatives are the exact derivatives of the basis functions",
     "Row k of the basis derivative table holds the k-th derivatives, with respect to the parameter, of the basis functions that are not zero on the span, for every order up to the degree and beyond (where they vanish).", ["inputs"], "all degrees, orders, knots and parameters",
     "Tests compare a few tabulated values.", [BS], [("two-row difference table", BS)], ["returned table"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
