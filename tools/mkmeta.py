#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (development helper)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
import configs

P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, note=None, tech=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=note, tech=tech, na=na))

SYM = "symbolic execution of the compiled code (LLVM IR) with SMT-decided assertions"
prop("C01", "Box iteration visits every index set once, in order, both ways",
     "Iterating over a box of any number of dimensions and any low and high corners visits exactly the integer points with low <= i < high, each once, last index fastest; the count equals the product of the extents. The map from flat index to index set and the map back are inverse to each other for every flat index in range, and the side enumeration of a cube lists every side exactly once with the correct opposite pairs.",
     ["inputs"], "every low/high corner (symbolic integers, negative ones included) and every flat index, for 1 to 4 dimensions",
     "The tests iterate one or two fixed boxes; the order, the count and the inverse relation have to hold for all corners, also negative and empty ones.",
     ["cpp/SgBoxIterator.h", "cpp/SgBoxIterator.cpp", "cpp/SgSideIterator.h"], [("prodDims strides, getElement, getIndex", "cpp/SgBoxIterator.h:SgBoxIterator_type"), ("side enumeration", "cpp/SgSideIterator.h")], ["SgBoxIterator_getElement", "SgBoxIterator_getIndex", "SgBoxIterator_getNumberOfElements"])
prop("C03", "Shapes keep their points and have the topology of a simplex",
     "A line, triangle or tetrahedron hands back, point by point, exactly the coordinates it was created with, even if the caller's arrays change afterwards. Its edges and faces use valid vertex numbers, every pair (triple) of vertices occurs exactly once as an edge (face), and the triangle's edges form a closed loop.",
     ["inputs"], "all coordinates of all points (symbolic reals) of the three shapes",
     "The tests create one shape each and print the points; no test relates edges and faces to vertices.",
     ["cpp/SgLine.cpp", "cpp/SgTriangle.cpp", "cpp/SgTetrahedron.cpp"], [("copies of the points and connectivity tables", "cpp/SgTetrahedron.cpp:SgTetrahedron_new")], ["Sg*_getPoint", "Sg*_getEdge", "Sg*_getFace"])
prop("C04", "Linear solves return the solution, the least squares or the minimum norm one",
     "For a system of full rank the solution satisfies the normal equations: it solves a square or underdetermined system exactly and minimises the residual of an overdetermined one, with minimum norm when underdetermined. Solving again, or with new right-hand sides or matrices on the same solver, gives what a fresh solver would give, and a singular system is reported by a positive status.",
     ["inputs", "histories"], "all matrix and right-hand side entries within bounds (symbolic reals), shapes up to 4x4, two successive uses",
     "The tests solve one well-conditioned system per shape; correctness must hold for every matrix, and for every reuse.",
     ["cpp/SgLinearSolve.h"], [("dgels call with transposed dimensions and work copy", "cpp/SgLinearSolve.h:solve")], ["SgLinearSolve_getSolution"])
prop("C06", "Triangulation area is the convex hull's, whatever the points' order",
     "The area reported for a set of points is the area of their convex hull, for every position, order and multiplicity of the points; collinear and fewer than three points give zero. The input may contain the same point several times.",
     ["inputs"], "positions of one or two points of sets of up to 7 points (symbolic reals), all duplicates and orders listed in the configurations",
     "The tests triangulate a handful of fixed sets; the result must not depend on order, duplicates or near-degenerate positions.",
     ["cpp/SgTriangulate.h"], [("sorting, removal of degenerate points, visible boundary edges", "cpp/SgTriangulate.h")], ["SgTriangulate_getConvexHullArea"],
     note="points within 1e-12 of an edge line are outside (see known finding)")
prop("C07", "Common points of two convex quads span exactly their overlap",
     "The points reported for two convex quads lie in both quads, and their convex hull has the area of the intersection of the quads, whichever quad comes first and in whichever orientation the corners are given. This includes quads that touch, share edges or corners, contain one another or do not meet, and does not depend on earlier uses of the object.",
     ["inputs", "histories"], "all relative translations in the stated range, slides along an edge, scalings, rotations and corner moves of the shape pairs in the configurations",
     "The tests take about a dozen fixed placements; touching and coincident configurations are reached only at special real values that no sample hits.",
     ["cpp/SgQuadIntersect.h", "cpp/SgTriangulate.h", "cpp/SgLinearSolve.h"], [("edge/edge solves plus vertex-in-quad tests", "cpp/SgQuadIntersect.h:collectIntersectPoints")], ["SgQuadIntersect_getIntersectPoints"])
prop("C08", "Conservative weights are the overlap areas of source and destination cells",
     "For every pair of destination and source cell the weight is the area of their overlap divided by the area of the destination cell: no weight for cells that do not overlap, weights adding up to the covered fraction, exactly one entry per overlapping pair. It holds for all grids of convex cells, also sheared, rotated and left-handed ones, and whether or not the destination reaches beyond the source grid.",
     ["inputs", "configurations"], "all placements (symbolic translations of destination and source) of the grid pairs in the configurations, up to 5x5 source nodes",
     "The tests compare integrals over a few fixed grids, where misplaced or double counted weights cancel; per-pair exactness for every placement is out of their reach.",
     ["cpp/SgConserveInterp2D.h", "cpp/SgQuadIntersect.h", "cpp/SgTriangulate.h"], [("weights from intersection and triangulation", "cpp/SgConserveInterp2D.h:computeWeights")], ["SgConserveInterp2D_get via reset/next"])
prop("C09", "Conservative interpolation conserves integrals and reproduces constants",
     "For every source field the interpolated cell values are the area weighted means of the source over the destination cell, so the integral over the destination equals that of the source over the common region, constants are reproduced on covered cells, and values stay between the extremes of the source on covered cells. Destination values of cells outside of the source grid are left alone.",
     ["inputs"], "all source data (symbolic reals) and placements of the configurations",
     "The tests use one constant field per grid pair and a loose tolerance on the total.",
     ["cpp/SgConserveInterp2D.h"], [("apply", "cpp/SgConserveInterp2D.h:apply")], ["SgConserveInterp2D_apply"])
prop("C10", "Recomputing or reusing a conservative interpolator gives what a fresh one gives",
     "After any sequence of setting grids, computing weights, applying and enumerating, the weights and interpolated values depend only on the grids set last: earlier grids leave no trace, computing twice is the same as once, and the order in which the grids are set does not matter. Enumerating the weights yields each entry once and then reports the end, also when there is none.",
     ["histories", "inputs"], "all placements in the configurations for the histories: set twice, compute twice, both orders, nothing computed, no overlap",
     "Every test builds a fresh object, uses it once and deletes it.",
     ["cpp/SgConserveInterp2D.h", "cpp/SgConserveInterp2D.cpp"], [("weights.clear and iterator state", "cpp/SgConserveInterp2D.h:computeWeights")], ["SgConserveInterp2D_next", "SgConserveInterp2D_apply"])
prop("C11", "Interpolation weights at an index position are the multilinear ones",
     "For every position in index space inside the grid the returned nodes are distinct nodes of the grid and their weights are the multilinear weights: between 0 and 1, adding up to 1, exact at nodes and on the last node of each direction.",
     ["inputs"], "every index position inside grids of 1 to 3 dimensions and the sizes of the configurations",
     "The tests never look at the weights; boundary positions are measure zero.",
     ["cpp/SgFindPointInCell.h"], [("getSrcIndicesAndWeights", "cpp/SgFindPointInCell.h")], ["getSrcIndicesAndWeights"])
prop("C12", "Position and error at an index position are the multilinear interpolation",
     "The position reported for an index position is the multilinear interpolation of the grid's nodes, and the reported error is the distance of that position to the target; the grid's coordinates are copied when set, and a grid set earlier leaves no trace.",
     ["inputs", "histories"], "every index position, target and (in the configurations so marked) every coordinate value; 1 to 3 dimensions",
     "The tests check single points of fixed grids with loose tolerances.",
     ["cpp/SgFindPointInCell.h"], [("interp, getError", "cpp/SgFindPointInCell.h")], ["SgFindPointInCell_getPosition", "SgFindPointInCell_getError"])
prop("C13", "A converged point search has found the point",
     "When the search reports convergence the indices are inside the grid's index box and the position they stand for is within the tolerance of the target; on affine grids it converges for every target inside the grid and never for a target outside. The search does at most the allowed number of iterations and does not depend on earlier searches with the same object.",
     ["inputs", "histories"], "every target (symbolic), every start position in the configurations so marked, every sorted coordinate array in the symbolic 1D ones; iterations within the stated bound",
     "The tests search a handful of targets on one grid per test.",
     ["cpp/SgFindPointInCell.h", "cpp/SgLinearSolve.h"], [("Newton step, truncation to the index box, convergence test", "cpp/SgFindPointInCell.h:next")], ["SgFindPointInCell_next", "SgFindPointInCell_getIndices"])
prop("C14", "Nodal interpolation reproduces coordinates and never exceeds the source range",
     "Every destination node inside the source grid is interpolated: constants and the coordinates themselves are reproduced within the tolerance, the value lies between the smallest and largest source value, and coinciding nodes keep their value. Nodes beyond the source grid are left alone, and recomputing or reusing the object gives what a fresh one gives.",
     ["inputs", "histories"], "all placements (symbolic translations) of the grid pairs and all source data in the configurations so marked",
     "The tests interpolate one analytic field on fixed grids.",
     ["cpp/SgNodeInterp2D.h", "cpp/SgFindPointInCell.h"], [("search and second search from several starts", "cpp/SgNodeInterp2D.h:computeWeights")], ["SgNodeInterp2D_apply"])
prop("C15", "Every source cell under a polygon is reported, each once",
     "The list of source cells reported for a polygon contains every cell that overlaps it, also when the polygon reaches beyond the grid, covers it or lies beside it; every reported index is a cell of the grid and occurs once. For a polygon inside the grid no cell outside of its index box is reported, and earlier grids and polygons leave no trace.",
     ["inputs", "histories"], "all translations of the polygons over the grids in the configurations",
     "The tests check one polygon on one grid.",
     ["cpp/SgFindOverlappingCells2D.h", "cpp/SgFindPointInCell.h"], [("point searches, index box, flat indices", "cpp/SgFindOverlappingCells2D.h:findSrcCellIndices")], ["SgFindOverlappingCells2D_getSrcCellIndices"])
prop("C16", "Intersection points of a line and a quad delimit the part inside the quad",
     "The points reported for a segment and a convex quad lie on the segment and in the quad, are ordered from its start to its end, and the first and last are the ends of the part of the segment inside the quad; fewer than two distinct points are reported only if that part is empty or a point. It does not depend on earlier uses of the object nor on the orientation of the quad.",
     ["inputs", "histories"], "all end points (symbolic) of the segment for the quads in the configurations",
     "The tests take a few fixed segments; segments through corners and along edges are measure zero.",
     ["cpp/SgQuadLineIntersect.h"], [("edge solves and end point tests, sorting", "cpp/SgQuadLineIntersect.h:collectIntersectPoints")], ["SgQuadLineIntersect_collectIntersectPoints"])
prop("C17", "Edge projections of a segment are the path integrals of the edge functions",
     "For a parallelogram and any segment inside it the four projections are the path integrals of the four edge basis functions: an edge itself projects to one on its own basis function and zero on the others, reversing the segment negates and splitting it adds up the projections, and a gradient field gives the difference of its potential at the ends. An end outside of the quad is reported, and none is for a segment inside. Reuse of the object does not change them.",
     ["inputs", "histories"], "all end points (symbolic) inside the quads in the configurations",
     "The tests check a few fixed segments of the unit square.",
     ["cpp/SgQuadLineFlows.h", "cpp/SgFindPointInCell.h"], [("index search of the end points, products of differences and means", "cpp/SgQuadLineFlows.h:computeProjections")], ["SgQuadLineFlows_getProjection"])
prop("C18", "Flow interpolation of a gradient field gives the potential difference",
     "For edge data that are the differences of a nodal potential, the interpolated value of every destination segment inside the source grid is the difference of the interpolated potential between its ends, whichever cells the segment crosses; the closed sum around a loop is zero, and the result is linear in the data. Computing again or resetting the grids gives what a fresh object gives.",
     ["inputs", "histories"], "all placements of the segments in the configurations (symbolic translations), away from the grid lines' directions, and all edge data where marked",
     "The tests take one stream function and compare totals with loose tolerances.",
     ["cpp/SgFlowInterp2D.h", "cpp/SgQuadLineIntersect.h", "cpp/SgQuadLineFlows.h"], [("sum over cells of projections", "cpp/SgFlowInterp2D.h:computeWeights")], ["SgFlowInterp2D_apply"])
prop("C19", "Octree boxes partition the domain and each point's key names its box",
     "The boxes of each level partition the bounding box of the points: the children of a box tile it, and the box named by the key of a point at any level contains the point. The key of a point at a coarser level is the beginning of its key at a finer one.",
     ["inputs"], "all positions of the points (symbolic), levels and dimensions in the configurations",
     "The test builds one octree of fixed points and prints it.",
     ["cpp/SgOctreePoints.h"], [("getKey and computeLoHi", "cpp/SgOctreePoints.h")], ["getKey", "getLo", "getHi"])
prop("C20", "Generated grids have the shape they are asked for",
     "The rectangular grid spans exactly the box, evenly; the polar grid is centred where asked, each node at its radius, closed in the angle; every node of the rotated pole grid has latitude in [-90, 90], longitude in [-180, 180] and is the rotation of the node of the unrotated grid, for all rotation angles. Every coordinate of the output is written, last index fastest.",
     ["inputs"], "all corners, centres, radii and rotation angles (symbolic), grid sizes in the configurations",
     "The tests create one grid each.",
     ["utils/createGrids2D.cpp"], [("grid loops and rotation matrices", "utils/createGrids2D.cpp")], ["createRectangularGrid", "createPolarGrid", "createRotatedPoleGrid"])
prop("C21", "The tripolar grid is regular below the cap and closed",
     "Every node of the tripolar grid has a latitude in [-90, 90] and a finite longitude, the part south of the cap is the regular latitude-longitude grid, and the two halves of the cap join.",
     ["inputs"], "all grid sizes and cap indices", "The test creates one grid and prints it.",
     ["cpp/SgTripolarGrid.h"], [("getGrid", "cpp/SgTripolarGrid.h")], ["SgTripolarGrid_getGrid"],
     na="the only inputs are three small integers; for given sizes everything is a constant computed by libm, so a solver has nothing to decide and a check would be an enumeration of concrete runs (its memory safety for symbolic sizes is covered by C24)")
prop("C22", "Command line values reach the option they follow, and only that one",
     "After parsing, each option has the value of the argument that follows its name (the last one if repeated) and all others keep their defaults; flags are flipped; an unknown option makes parsing fail and leaves all options as they were. Number and list values are read as the C library reads them, every element of a list in order.",
     ["inputs"], "all argument strings up to the lengths in the configurations (symbolic bytes)",
     "The test parses one command line.",
     ["utils/CmdLineArgParser.cpp"], [("parse and get", "utils/CmdLineArgParser.cpp")], ["CmdLineArgParser::parse", "CmdLineArgParser::get"])
prop("C23", "The Python interpolator never applies weights of other grids",
     "For every sequence of calls on the Python conservative interpolator, apply either raises an error or returns the data interpolated with weights of the grids set last, into an array of the shape of the current destination grid that is zero where the grids do not overlap, whatever the element type and memory layout of the arrays passed. After the weights of the current grids were computed apply does not fail; computing weights fails if and only if a grid is missing. Arrays returned by earlier calls keep their values, and arguments are not modified.",
     ["histories"], "all call sequences up to the bound, over one or two objects, with arbitrary grid sizes, coordinates, data, element types and layouts (symbolic)",
     "No test of the suite imports the Python wrapper.",
     ["py/conserveInterp2D.py"], [("hasSrcCoords/hasInterpWeights/dstData", "py/conserveInterp2D.py")], ["ConserveInterp2D.apply"], tech="symbolic execution of the wrapper by the Python interpreter over z3 terms (sizes, contents, types, layouts, order of calls), with a contract for the library; z3 decides the assertions; counterexamples are run with the real numpy, ctypes and library")
prop("C24", "No invalid memory access, uninitialised read or leak in any call history",
     "Every object can be created, used in any order of its calls, set up repeatedly, and deleted: no call (weights of a replaced source grid being recomputed before they are applied) reads or writes memory outside of its objects, reads uninitialised values or releases memory twice, and after deletion everything it allocated has been released. Every call of the C interface made as documented reports success.",
     ["histories", "inputs"], "all call sequences up to the bounds for each class, with symbolic coordinates",
     "The tests use each object once, in one order, without a memory checker.",
     ["cpp/*.h", "cpp/*.cpp"], [("constructors, destructors, resize on set", "cpp/Sg*.h")], ["Sg*_new", "Sg*_del"])

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        d["anchors"]["hook_needed"] = None
        f.write(json.dumps(d) + "\n")
done = set(configs.CONFIGS) | set(configs.PYTHON_CHECKS)
m = {"version": 1, "setup_cmd": "bash engine/build.sh build && python3 check.py --stamp", "checks": [], "not_applicable": []}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    elif p["id"] not in done:
        m["not_applicable"].append({"property": p["id"], "reason": "no check yet"})
    else:
        b = configs.BOUNDS.get(p["id"], "")
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["tech"] or SYM, "level": "model_checking",
            "level_note": "Holds for all values within the bounds (%s), doubles treated as exact reals; a counterexample counts only when the compiled code reproduces it%s." % (b, "; " + p["note"] if p["note"] else "")})
m["notes"] = "See DESIGN.md. Known findings: known_findings.txt. No hooks in /repo."
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
for p in P:
    assert len(p["title"]) <= 80, p["id"]
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    for l in open(os.path.join(HERE, "properties.jsonl")): jsonschema.validate(json.loads(l), json.load(open("/root/.vp/PROPERTIES.schema.json")))
    print("valid")
except ImportError:
    print("not validated")
