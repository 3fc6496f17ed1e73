"""Which groups of demands decide which property."""
import importlib
from . import headers, effects, iorules, alias

COMMON_ASSUMPTIONS = [
    "real arithmetic stands for double arithmetic: rounding is not modelled",
    "int arithmetic does not overflow (except where a rule states otherwise)",
    "Eigen and the standard library behave as documented (their effect on values is modelled in nv/models.py)",
    "valid input objects: degree >= 1, at least degree+1 points, clamped non-decreasing knots from 0 to 1, positive weights",
]


def use(*names):
    def f():
        out = []
        for n in names:
            mod, _, fn = n.partition(".")
            m = importlib.import_module("nv.specs." + mod)
            if fn:
                out.append((n, getattr(m, fn)))
            else:
                out += [("%s.%s" % (mod, g.__name__), g) for g in m.GROUPS]
        return out
    return f


VG = ("Every listed function is translated from its syntax tree into a gated value graph (all paths joined, loops as closed forms of their "
      "recurrences) and compared, for symbolic inputs of every size, with the term the property demands; ")
VGT = "gated value graph of the source compared with the demanded term (dataflow normal forms, linear facts)"
VGN = ("Proves the stated equalities for all inputs in exact real arithmetic, from the syntax tree of the current sources; trusts the front end, the models of "
       "the standard library and Eigen, and does not model rounding. A violation is reported only when the code's own value graph differs from the demand at a witness.")

PROPS = {}
FIX = ("curves and surfaces of fixed structure: degree, knot multiplicities and number of points are constants (a family of small ones), all knot values, control points "
       "and weights are symbols, so that loops have constant trip counts and the result is a closed term; ")
FIXT = "gated value graph specialised to constant structures, compared with the blossom of the input (rational identity test)"
FIXN = ("Decides the equalities for all real knot values, points and weights, but only for the listed degrees, multiplicities and counts; larger structures are not covered. "
        "Trusts the front end and the models of the standard library and Eigen; rounding is not modelled.")


def prop(pid, groups, here, technique=VGT, note=VGN, assumes=()):
    PROPS[pid] = {"groups": use(*groups), "explain": VG + "here: " + here, "technique": technique, "note": note, "assumes": list(assumes)}


PROPS["C01"] = {"groups": lambda: [("effects.g_effects", effects.g_effects), ("effects.g_state", effects.g_state)],
                "explain": "Interprocedural may-write analysis with aliases (references, spans, iterators, views, lambdas) over every function of the library; search for "
                           "state that survives a call (statics, globals, mutable members) and for ambient inputs.",
                "technique": "interprocedural effect (may-write) and hidden-state analysis over the exported syntax trees",
                "note": "Sound for the language features the library uses (references, views, lambdas, standard algorithms by table); const is trusted unless a cast or a mutable member gets around it.", "assumes": []}
prop("C06", ["sizesp"], "the sizes of every result: general ones for objects of every size (insertion, transformation, alignment, primitives, surface removal and elevation with the curve algorithm as a symbol), "
     "and for curves and surfaces of fixed structure (constant degree and multiplicities, symbolic values) list insertion, removal with each of its outcomes, elevation and Bezier extraction.",
     technique="sizes in the gated value graph compared with the demanded ones; constant-structure specialisation where sizes depend on data")
prop("C07", [], "every element access recorded while the value graph of a call is built (its index, the array's size, the path condition) must be provably inside the array, and no component of the result may "
     "depend on a variable that was never set; no reference into a container is used after the container grew; all calls of the other demands are covered, for objects of every size and for the fixed structures.",
     technique="bounds obligations (index, size, path condition) over the gated value graph, decided by linear facts; definite-assignment on the same graph")
PROPS["C07"]["groups"] = lambda: [("alias.g_alias", alias.g_alias)] + list(importlib.import_module("nv.specs.boundsp").NAMED)
prop("C08", ["evalp", "knots.g_span"], "point evaluation, rationality, homogeneous conversion and the span lookup.")
prop("C10", ["insertp", "knots.g_insert", "knots.g_span", "evalp.g_homo", "grid.g_insert", "grid.g_get", "shapes.g_insert", "shapes.g_sheet_insert"],
     "single insertion into curves and surfaces against the refinement formula; the overloads for lists and repeated values by induction over their loop (start, trip count, step) and, for curves and surfaces of fixed structure (degree and multiplicities constants, all knots, points and weights symbols), against the refined control points.",
     technique="gated value graph compared with the refinement formula; loop induction on the recorded step relation")
prop("C11", ["rowsp", "grid", "shapes.g_sheet_insert", "shapes.g_sheet_elevate", "shapes.g_sheet_remove"], "removal and elevation of surfaces in both directions, the curve algorithm as a symbol; the grid accessors they use; whole operations on surfaces of fixed structure.")
prop("C12", ["shapes.g_remove", "shapes.g_elevate", "shapes.g_sheet_remove"], FIX + "removal of redundant and of needed copies (every outcome of its decisions) and elevation: sizes, knots, Cartesian points and weights.", technique=FIXT, note=FIXN)
prop("C16", ["shapes.g_bezier", "knots.g_multiplicity"], FIX + "the pieces of the extraction, their number, degree, knots and points against the refined curve.", technique=FIXT, note=FIXN)
prop("C31", ["shapes.g_elevate", "shapes.g_sheet_elevate"], FIX + "the elevated curve or surface against the control points that the blossom of the original prescribes.", technique=FIXT, note=FIXN)
prop("C13", ["knots.g_validate", "knots.g_uniform", "knotsp.g_from_pairs"], "knot vector construction; from pairs with constant multiplicities and arbitrary values.")
prop("C14", ["knots.g_span", "knots.g_multiplicity", "knots.g_insert", "knots.g_reverse", "knots.g_isvalid", "knots.g_isclamped", "knots.g_degree", "knotsp.g_pairs", "knotsp.g_findspan", "knotsp.g_isuniform"], "knot queries; the pair list, the span by value and uniformity for knot vectors of fixed structure.")
prop("C15", ["box"], "the bounding box operations.")
prop("C18", ["alignp", "knots.g_reverse"], "alignment: every combination of its decisions leads to one of the eight exchanged or reversed forms; transformation.")
prop("C19", ["geom", "knots.g_uniform"], "segment and rectangle construction.")
PROPS["C20"] = {"groups": lambda: [("headers.g_defined", headers.g_defined)], "pre": lambda: [("headers.g_alone", headers.g_alone)],
                "explain": "Witness programs that include each public header alone, twice, all in order and in reverse, and instantiate its templates, are type-checked "
                           "(never run) with both compilers in use; the exported declarations are matched with the definitions of all translation units.",
                "technique": "compile witnesses per public header; declaration/definition matching over the exported program",
                "note": "Decides compilation of every single-header client exactly; the declaration/definition match covers all declarations in public headers.", "assumes": []}
prop("C21", ["grid"], "the grid accessors, for both element types in use; in addition no reference to an element (an argument may be one) is used after its container grew.")
GRID = PROPS["C21"]["groups"]
PROPS["C21"]["groups"] = lambda: [("alias.g_alias", alias.g_alias)] + list(GRID())

prop("C22", ["basisp", "knots.g_span"], "basis values, the derivative table and their lookups; loops without a closed form by induction (start, number of rounds, one round over an arbitrary state).",
     technique="gated value graph; loop induction on the recorded step relation (Cox-de Boor and derivative recurrences)")

prop("C09", ["dersp", "evalp.g_homo", "knots.g_span"], "homogeneous derivatives and the quotient rule: every order by induction over the loops, orders up to 4 (surfaces: 2 by 2) entry by entry for all degrees and sizes; single derivatives; binomial coefficients.",
     technique="gated value graph with constant-trip unrolling for low orders; loop induction for all orders")
prop("C34", ["basisp.g_exact", "basisp.g_values", "basisp.g_table"], "for every degree up to 5 (thorough: 6) and order, the whole derivative table, for all knot vectors, spans and parameters, is compared with the derivative formula of the basis functions; other degrees: the recurrence of the table by induction.",
     technique="gated value graph specialised to constant degrees compared with the exact derivatives; loop induction on the table's recurrence")

IO = ("Abstract interpretation of every path of the load and save functions, helpers and lambdas inlined, over stream typestates "
      "(unknown / tested / failed / unflushed / cleared) and the provenance of every stored value; ")
IOT = "path-sensitive stream typestate and value provenance dataflow over the exported syntax trees"
ION = ("Covers every path through loading or saving with loops abstracted; the standard streams are modelled by their documented behaviour. "
       "A construct outside the abstraction is reported as not decided, never as a violation.")


def io(pid, fn, here, technique=IOT):
    PROPS[pid] = {"groups": lambda: [("iorules." + fn, getattr(iorules, fn))], "explain": IO + "here: " + here, "technique": technique, "note": ION, "assumes": []}


io("C02", "g_load", "nothing read from the stream is kept before the stream was tested; header fields, counts and dimensions are validated on every path to a normal return.")
io("C03", "g_save", "every normal return is dominated by a flush and a failure test that covers all output.")
io("C04", "g_format", "the sequence of items written (with loops) is matched with the sequence the reader expects, place by place.",
   "writer and reader grammars derived from the syntax trees by abstract interpretation and compared")
io("C05", "g_fresh", "no value held before the call reaches a member on any normal return, and the returned reference is the receiver; no static, global or ambient state takes part in a load.")
PROPS["C05"]["groups"] = lambda: [("iorules.g_fresh", iorules.g_fresh), ("effects.g_load_state", effects.g_load_state)]

PATHS = ("all paths through the function with at most a few decisions are enumerated; along each the value graph is built with the decisions as facts, ")
PATHT = "bounded path enumeration over the gated value graph, one closed term per path, decided by linear facts and rational identity tests"
PATHN = ("Covers every input that follows one of the enumerated paths (few decisions, few rounds); longer paths are not covered. Trusts the front end and the models of the standard "
         "library and Eigen; rounding is not modelled. A violation is reported only with an input that takes the path.")
prop("C17", ["searchp"], PATHS + "with evaluation an arbitrary function of the parameter: every parameter handed to an evaluation and every result lies in [0,1], the fixed parameter is the given one, and no path makes "
     "more rounds than allowed (0, 1 and 2 rounds).", technique=PATHT, note=PATHN, assumes=["the tolerance is positive, start values and the fixed parameter lie in [0,1]"])
prop("C23", ["boxp.g_ends1", "boxp.g_ends2", "boxp.g_ends3", "shapes.g_bezier", "box"], PATHS + "for curves of fixed structure: the result is the box of the curve's points at the ends of all pieces of a subdivision into halves.", technique=PATHT, note=PATHN)
prop("C33", ["boxp.g_tight1", "boxp.g_tight2", "boxp.g_tight3"], PATHS + "for curves of fixed structure: at every valuation on the path the result contains the curve's extent (bracketed by exact subdivision) up to the tolerance and exceeds it by no more.",
     technique=PATHT, note=PATHN)
prop("C30", ["closep", "rowsp.g_remove"], PATHS + "for curves of fixed structure that nearly allow a removal: at every valuation on a path that removes copies the distance between the curve before and after (exact evaluation "
     "of both) is at most the tolerance per removed copy; surfaces: every row goes through the same algorithm with the same tolerance.", technique=PATHT, note=PATHN, assumes=["tolerance at most 0.1; the distance is compared with 1.25 times the tolerance per removed copy, "
     "because the bound of the algorithm neglects the change of the weights themselves"])
NOT_APPLICABLE = {}
NOT_APPLICABLE.update({
    "C32": "convergence of BFGS/bisection to a global minimum depends on the shape and the start value; it is not a property of the program text",
})
