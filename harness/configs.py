"""Which symbolic executions decide which property, and within which bounds."""

def cfg(name, file, time=60, **kw):
    d = {"name": name, "file": file, "time": time}
    for k in ("threads", "tier", "defs", "opts", "assert_timeout", "branch_timeout", "samples", "weight", "no_validate", "thorough_time"):
        if k in kw:
            d[k] = kw.pop(k)
    d["params"] = kw
    return d

ASSUMPTIONS = [
    "floating point numbers are exact real numbers in the symbolic execution (the tolerances in the code and in the assertions cover rounding); NaN and infinities as inputs are outside",
    "LAPACK dgels_ is replaced by its contract: exact solution/least squares/minimum norm, info>0 when rank deficient (with arbitrary contents of the solution then); sin, cos, tan, asin, acos, atan, atan2, sqrt, pow and exp are constrained by their ranges and defining identities, exact at constants",
    "memory allocation succeeds; output to cout/cerr is discarded",
    "clang 18 -O1 without optimisation passes produces the IR that is executed; counterexamples count only when the native build (clang, address and undefined behaviour sanitizers, or valgrind) reproduces them",
]
EXTRA_ASSUMPTIONS = {
    "C06": ["points are not within 1e-12 of the line of an edge without being on it, except in the known finding"],
    "C07": ["corners of one quad are on the line of an edge of the other or at least 1e-6 (cross product) away from it"],
    "C08": ["grids of strictly convex cells"],
    "C17": ["parallelograms (the projections of a general quad are those in its index space)"],
    "C18": ["no destination segment within 1e-9 of a source grid line's direction and position"],
}
BOUNDS = {
    "C01": "1 to 6 dimensions, extents up to 4 in iteration, corners within +-1000 in 1D, +-16 in 2D, +-8 in 3D, +-4 in 4D, +-3 beyond; sides in 1 to 4 dimensions",
    "C03": "the three shapes, coordinates within 1e6",
    "C04": "shapes up to 4x4 with symbolic entries, up to 9x9, 14x5 and 6x17 with a dominant diagonal and few or no symbolic entries; singular matrices up to 5x5; entries within the ranges in harness/c04.cpp, up to two uses of a solver",
    "C06": "sets of up to 9 points of which one or two are anywhere in a box around the others, duplicates included; sets of up to 5 points on two rays; 20-gons with another point; other units and places",
    "C07": "eight quads, pairs in harness/configs.py, relative translation within 3 units (symbolic), slides, scalings, rotations, corner moves; quarter turns, other units and places",
    "C08": "grids up to 5x5 (some pairs up to 16x16, 2x150) nodes in harness/configs.py with a symbolic translation of the destination (and of the source in one); quarter turns, other units and places",
    "C09": "grids up to 3x3 (some pairs up to 15x14) nodes, all data symbolic, or symbolic translation with fixed data; quarter turns, other units and places",
    "C10": "histories of two uses of an interpolator with grids up to 4x3 (14x13 in two) nodes and a symbolic translation",
    "C11": "grids of up to 200, 17x16, 6x5x7 or 3x2x2x3 nodes, any index position",
    "C12": "grids of up to 150, 15x17, 3x2x2 or 2x2x2x2 nodes, any index position and target, symbolic coordinates where marked",
    "C13": "up to 3 Newton iterations (8 in thorough), 1 to 3 dimensions, grids up to 5 or 3x3 (16x17) nodes, any target; any start where marked; quarter turns, other units and places",
    "C14": "source grids up to 3x3 (some up to 16x16), destinations up to 3x3 (15x17) nodes, periodic or not, with symbolic translation, or all data symbolic; quarter turns, other units and places",
    "C15": "grids up to 5x5 (16x15) nodes, periodic or not, polygons of 3 to 8 and of 20 nodes in any order around, symbolic translation; quarter turns, other units and places",
    "C16": "five quads and quarter turns of them, both end points anywhere within a box around the quad, one or both coordinates symbolic per configuration; other units and places",
    "C17": "parallelograms, both end points anywhere in it or outside it, up to two uses",
    "C18": "source grids up to 3x3 (17x15) nodes, up to three (seventeen) destination segments, symbolic translation or symbolic data; quarter turns, other units and places",
    "C19": "1 to 4 dimensions, up to 7 levels in 1D, 5 in 2D, up to 12 points (100 with one symbolic), one or all of symbolic position",
    "C20": "grids up to 17x19 and 3x100 (rotated: 8x3, 3x5) nodes, symbolic corners, centres, radii, angles",
    "C22": "up to 4 arguments (42 of which two are chosen, lists of up to 47 elements, elements of up to 26 characters), each one of 26 words or up to 4 symbolic bytes over digits, sign, point, comma, space and letters; lists of up to 3 (thorough 4) symbolic bytes",
    "C23": "call sequences of length up to 6 on one object (thorough 7) and 4 on two (thorough 5), grid sizes 2 to 5",
    "C24": "sequences of 4 calls, or of 6 beginning with the two grids and the weights, grids up to 3x3 nodes with a symbolic offset (thorough 5 and 6); tripolar grids up to 6x6 (thorough 9x9)",
}
UTILS = {"c20.cpp": ["createGrids2D.cpp"], "c22.cpp": ["CmdLineArgParser.cpp"]}  # harnesses of the utilities: their sources
PYTHON_CHECKS = {"C23": "pywrap"}
CONFIGS = {}

CONFIGS["C01"] = [
    cfg("box1", "c01.cpp", cfg=0, nd=1, range=1000),
    cfg("box2", "c01.cpp", cfg=0, nd=2, range=8),
    cfg("box3", "c01.cpp", cfg=0, nd=3, range=8),
    cfg("inv1", "c01.cpp", cfg=1, nd=1, range=1000),
    cfg("inv2", "c01.cpp", cfg=1, nd=2, range=16),
    cfg("inv3", "c01.cpp", cfg=1, nd=3, range=8),
    cfg("inv4", "c01.cpp", cfg=1, nd=4, range=4),
    cfg("box4", "c01.cpp", cfg=0, nd=4, range=4), cfg("box5", "c01.cpp", cfg=0, nd=5, range=2), cfg("inv5", "c01.cpp", cfg=1, nd=5, range=3), cfg("inv6", "c01.cpp", cfg=1, nd=6, range=2),
    cfg("empty", "c01.cpp", cfg=2),
    cfg("side1", "c01.cpp", cfg=3, nd=1), cfg("side2", "c01.cpp", cfg=3, nd=2), cfg("side3", "c01.cpp", cfg=3, nd=3), cfg("side4", "c01.cpp", cfg=3, nd=4),
]
CONFIGS["C03"] = [cfg("shapes", "c03.cpp")]
CONFIGS["C04"] = [
    cfg("1x1", "c04.cpp", m=1, n=1), cfg("2x2", "c04.cpp", m=2, n=2), cfg("3x3", "c04.cpp", m=3, n=3),
    cfg("3x2", "c04.cpp", m=3, n=2, sym=2), cfg("2x3", "c04.cpp", m=2, n=3, sym=2), cfg("1x2", "c04.cpp", m=1, n=2), cfg("2x1", "c04.cpp", m=2, n=1), cfg("4x4", "c04.cpp", m=4, n=4, sym=4),
    cfg("very_large", "c04.cpp", m=9, n=9, sym=0, bs=2), cfg("very_large_ls", "c04.cpp", m=14, n=5, sym=0, bs=1), cfg("very_large_mn", "c04.cpp", m=6, n=17, sym=0),
    cfg("sing2", "c04.cpp", sing=1), cfg("sing3", "c04.cpp", m=3, n=3, sing=3, sym=4), cfg("sing23", "c04.cpp", m=2, n=3, sing=2), cfg("sing32", "c04.cpp", m=3, n=2, sing=1), cfg("sing_zero", "c04.cpp", m=3, n=3, sing=4, sym=4), cfg("sing_again", "c04.cpp", sing=2, reuse=1), cfg("sing_rhs", "c04.cpp", sing=1, reuse=3), cfg("sing5", "c04.cpp", m=5, n=5, sing=3, sym=0),
    cfg("4x2", "c04.cpp", m=4, n=2, sym=3),
    cfg("5x5", "c04.cpp", m=5, n=5, sym=3), cfg("6x3", "c04.cpp", m=6, n=3, sym=3), cfg("3x5", "c04.cpp", m=3, n=5, sym=3), cfg("7x7", "c04.cpp", m=7, n=7, sym=0), cfg("again5", "c04.cpp", m=5, n=5, sym=0, reuse=1), cfg("rhs5", "c04.cpp", m=5, n=5, sym=0, reuse=2),
    cfg("reuse", "c04.cpp", m=2, n=2, reuse=1), cfg("reuse_rhs", "c04.cpp", m=2, n=2, reuse=2), cfg("resolve", "c04.cpp", m=2, n=2, reuse=3), cfg("reuse3", "c04.cpp", m=3, n=3, reuse=1, sym=4),
]
CONFIGS["C06"] = (
    [cfg("one_%d" % b, "c06.cpp", cfg=0, base=b) for b in (0, 1, 2, 3, 4, 6)]
    + [cfg("one_5", "c06.cpp", time=100, cfg=0, base=5, poslo=0, poshi=1), cfg("one_5b", "c06.cpp", time=200, tier="thorough", cfg=0, base=5, poslo=2, poshi=6)]
    + [cfg("one_7", "c06.cpp", cfg=0, base=7, poslo=8), cfg("one_7b", "c06.cpp", cfg=0, base=7, poslo=3, poshi=3)]
    + [cfg("dup%d_%d" % (d, b), "c06.cpp", cfg=0, base=b, dup=d, apart=int(d == 4)) for d, b in ((1, 0), (2, 1), (3, 0), (4, 0), (4, 1), (1, 6))]
    + [cfg("degrees", "c06.cpp", cfg=0, base=2, unit=1, off=180), cfg("huge", "c06.cpp", cfg=0, base=1, dup=3, unit=3, off=-5000)]
    + [cfg("twenty_%d" % y, "c06.cpp", cfg=0, base=8, poslo=q, poshi=q, wide=5, y16=y) for q, y in ((0, 8), (11, 150), (20, -60))]
    + [cfg("near_0", "c06.cpp", cfg=0, base=0, dup=4, near=1)]
    + [cfg("line_%d_%d_%d" % (n, f, dy), "c06.cpp", cfg=1, n=n, free=f, dy=dy) for n, f, dy in ((3, 3, 0), (4, 2, 3), (5, 2, 0), (6, 1, 2))]
    + [cfg("ray_%d_%d_%d_%d" % (n, f, sh, fl), "c06.cpp", cfg=4, n=n, free=f, shear4=sh, flip=fl, h2=h2) for n, f, sh, fl, h2 in ((3, 1, 0, 0, 3), (3, 2, 1, 1, 2), (4, 1, 0, 1, 3), (5, 1, 2, 0, 4))]
    + [cfg("tri2", "c06.cpp", cfg=2, free=2), cfg("few", "c06.cpp", cfg=3)]
)
CONFIGS["C07"] = (
    [cfg("move_%d_%d" % (a, b), "c07.cpp", a=a, b=b) for a, b in ((0, 0), (0, 1), (1, 1), (3, 6), (0, 5), (7, 0))]
    + [cfg("move_%d_%d" % (a, b), "c07.cpp", a=a, b=b, lo=0, hi=1) for a, b in ((2, 4), (4, 1))]
    + [cfg("far_%d_%d" % (a, b), "c07.cpp", a=a, b=b, tier="thorough", thorough_time=200) for a, b in ((2, 4), (4, 1))]
    + [cfg("slide_%d_%d_%d" % (a, b, d), "c07.cpp", a=a, b=b, mode=1, dy4=d) for a, b, d in ((0, 0, 0), (0, 0, 4), (3, 0, 0), (6, 6, 0), (5, 0, 4), (1, 1, 0), (3, 3, 1))]
    + [cfg("scale_%d_%d" % (a, b), "c07.cpp", a=a, b=b, mode=2) for a, b in ((0, 0), (2, 1))]
    + [cfg("turn_%d_%d" % (a, b), "c07.cpp", a=a, b=b, mode=3) for a, b in ((0, 0), (0, 3))]
    + [cfg("corner_%d" % a, "c07.cpp", a=a, b=0, mode=4) for a in (0, 1)]
    + [cfg("round_%d_%d_%d" % (a, b, d), "c07.cpp", a=a, b=b, tier="thorough", thorough_time=200, mode=1, dy4=d, dgels_adv=1) for a, b, d in ((0, 0, 0), (3, 0, 2), (5, 0, 0))]
    + [cfg("degrees", "c07.cpp", a=3, b=1, mode=1, dy4=1, unit=1, off=180), cfg("huge", "c07.cpp", a=0, b=2, mode=1, dy4=-2, unit=3, off=-4000), cfg("off", "c07.cpp", a=7, b=0, unit=1, off=360, lo=0, hi=2)]
    + [cfg("turned_%d_%d_%d" % (a, b, t), "c07.cpp", a=a, b=b, mode=1, dy4=1, turn=t) for a, b, t in ((3, 1, 1), (0, 2, 2), (7, 4, 3))]
    + [cfg("again", "c07.cpp", a=0, b=0, reuse=1), cfg("near", "c07.cpp", a=0, b=3, mode=1, dy4=1, near=1)]
)
CONFIGS["C08"] = [
    cfg("large_src", "c08.cpp", s0=8, s1=7, d0=3, d1=3, sk=3, free=1, lo4=16, hi4=20, dy16=60), cfg("large_dst", "c08.cpp", s0=3, s1=3, d0=6, d1=7, dk=1, free=1, lo4=-8, hi4=-6, dy16=-20), cfg("large_gen", "c08.cpp", s0=6, s1=5, d0=5, d1=4, dk=3, free=1, lo4=0, hi4=1, dy16=5), cfg("long", "c08.cpp", s0=9, s1=2, d0=2, d1=9, free=1, lo4=8, hi4=28, dy16=-3),
    cfg("very_large_src", "c08.cpp", s0=16, s1=16, sk=3, d0=2, d1=3, free=1, lo4=42, hi4=43, dy16=150, apart=0), cfg("very_large_dst", "c08.cpp", s0=3, s1=2, d0=16, d1=15, dk=1, free=1, sc4=2, lo4=-6, hi4=-5, dy16=-25), cfg("very_long", "c08.cpp", s0=2, s1=150, d0=3, d1=2, free=1, lo4=1, hi4=2, dy16=1800, apart=0),
    cfg("cell_2x2", "c08.cpp", s0=3, s1=3), cfg("cell_1x1", "c08.cpp", s0=2, s1=2), cfg("cells2", "c08.cpp", s0=2, s1=3, d0=3, d1=2, lo4=-2, hi4=4),
    cfg("shear", "c08.cpp", s0=2, s1=3, sk=1, dk=0, lo4=-2, hi4=4), cfg("diamond", "c08.cpp", s0=2, s1=2, sk=0, dk=2, lo4=-2, hi4=4),
    cfg("row_4x4", "c08.cpp", s0=5, s1=5, d0=3, d1=3, free=1, sc4=2, lo4=-4, hi4=16), cfg("row_gen", "c08.cpp", s0=4, s1=4, sk=3, d0=3, d1=2, dk=3, free=1, lo4=-4, hi4=12, dy16=5),
    cfg("row_dia", "c08.cpp", s0=4, s1=3, sk=2, d0=3, d1=3, free=1, dy16=9), cfg("clock", "c08.cpp", s0=3, s1=3, sk=4, d0=2, d1=2, free=1, dy16=8),
    cfg("small", "c08.cpp", s0=3, s1=3, sk=3, free=1, dy16=9, unit=-1, lo4=-4, hi4=8), cfg("huge", "c08.cpp", s0=3, s1=3, sk=1, d0=3, free=1, dy16=9, unit=3, fine=3, lo4=-4, hi4=8), cfg("degrees", "c08.cpp", s0=4, s1=3, free=1, dy16=9, sk=3, unit=1, fine=1, off=180, lo4=-4, hi4=16), cfg("faraway", "c08.cpp", s0=3, s1=3, d0=3, sk=4, free=1, dy16=9, off=-1000, lo4=-4, hi4=12),
    cfg("turned_1", "c08.cpp", s0=4, s1=3, sk=3, free=1, dy16=9, turn=1), cfg("turned_2", "c08.cpp", s0=3, s1=3, d0=3, sk=1, free=1, dy16=9, turn=2), cfg("turned_3", "c08.cpp", s0=3, s1=3, sk=4, dk=2, d0=3, d1=3, free=1, dy16=9, turn=3),
    cfg("src_moves", "c08.cpp", cfg=4, s0=3, s1=3, d0=2, d1=2),
]
CONFIGS["C09"] = [
    cfg("turned_1", "c08.cpp", cfg=5, s0=3, s1=3, sk=3, d0=2, d1=3, free=1, dy16=10, lo4=4, hi4=6, turn=1), cfg("turned_2", "c08.cpp", cfg=5, s0=3, s1=2, sk=1, d0=3, d1=3, free=0, dx16=20, dy16=12, turn=2), cfg("turned_3", "c08.cpp", s0=3, s1=3, sk=2, d0=2, d1=3, free=1, dy16=30, lo4=-6, hi4=2, turn=3),
    cfg("very_large", "c08.cpp", s0=15, s1=14, sk=1, d0=3, d1=3, free=1, lo4=38, hi4=39, dy16=120), cfg("very_large_dst", "c08.cpp", s0=2, s1=3, sk=4, d0=14, d1=15, sc4=1, free=1, lo4=0, hi4=1, dy16=2),
    cfg("data_large", "c08.cpp", cfg=5, s0=7, s1=6, sk=1, d0=5, d1=5, dk=3, free=0, dx16=24, dy16=17), cfg("large", "c08.cpp", s0=6, s1=8, d0=4, d1=4, sk=4, free=1, lo4=4, hi4=6, dy16=20),
    cfg("data_2x2", "c08.cpp", cfg=5, s0=3, s1=3, d0=2, d1=3, free=0), cfg("data_gen", "c08.cpp", cfg=5, s0=3, s1=3, sk=3, d0=3, d1=3, dk=2, sc4=1, free=0, dx16=24, dy16=3),
    cfg("data_part", "c08.cpp", cfg=5, s0=3, s1=3, d0=3, d1=3, free=0, dx16=28, dy16=12), cfg("data_dia", "c08.cpp", cfg=5, s0=3, s1=3, sk=2, d0=2, d1=3, sc4=2, free=0, dx16=-3, dy16=9),
    cfg("data_move", "c08.cpp", cfg=5, s0=2, s1=3, d0=2, d1=2, free=1, lo4=-2, hi4=8), cfg("move", "c08.cpp", s0=4, s1=3, d0=2, d1=3, free=1, sc4=3, lo4=-4, hi4=14),
    cfg("one", "c08.cpp", s0=2, s1=2, sk=1, sc4=3, lo4=-4, hi4=4), cfg("move2", "c08.cpp", s0=3, s1=2, lo4=-4, hi4=8), cfg("degrees", "c08.cpp", cfg=5, s0=3, s1=3, sk=3, d0=2, d1=3, free=1, dy16=10, lo4=4, hi4=6, unit=1, off=180), cfg("huge", "c08.cpp", s0=3, s1=3, sk=2, d0=2, d1=3, free=1, dy16=30, lo4=-6, hi4=2, unit=3, fine=3, off=9000), cfg("data_one", "c08.cpp", cfg=5, s0=2, s1=2, d0=2, d1=2, free=1, lo4=-4, hi4=4), cfg("data_beyond", "c08.cpp", cfg=5, s0=3, s1=3, d0=3, d1=3, sk=3, sc4=6, free=0, dx16=20, dy16=12), cfg("data_low", "c08.cpp", cfg=5, s0=3, s1=3, d0=3, d1=3, sk=4, sc4=4, free=0, dx16=-10, dy16=-12),
]
CONFIGS["C10"] = [
    cfg("reuse_2x2", "c08.cpp", cfg=2, s0=3, s1=3, free=1), cfg("reuse_y", "c08.cpp", cfg=2, s0=2, s1=4, d0=2, d1=3, sk=1, free=1, dy16=7), cfg("twice", "c08.cpp", cfg=3, s0=3, s1=3, d0=3, d1=2, free=1),
    cfg("twice2", "c08.cpp", cfg=3, s0=2, s1=2, on=1), cfg("on", "c08.cpp", s0=3, s1=3, d0=3, d1=3, free=1, on=1), cfg("reuse2", "c08.cpp", cfg=2, s0=2, s1=2, lo4=-4, hi4=4), cfg("order", "c08.cpp", cfg=3, s0=3, s1=4, sk=3, d0=3, d1=3, free=1, dy16=12),
    cfg("near", "c08.cpp", cfg=6, s0=2, s1=3, free=1, lo4=0, hi4=2), cfg("near_at", "c08.cpp", cfg=6, s0=3, s1=2, d0=3, d1=2, free=0),
    cfg("very_large", "c08.cpp", cfg=2, s0=14, s1=13, d0=2, d1=3, free=1, lo4=30, hi4=31, dy16=100, apart=0), cfg("very_large_dst", "c08.cpp", cfg=3, s0=2, s1=3, sk=1, d0=13, d1=14, sc4=1, free=1, lo4=0, hi4=1, dy16=5),
    cfg("none", "c08b.cpp"),
]
CONFIGS["C11"] = [
    cfg("w1_2", "c11.cpp", nd=1, n0=2), cfg("w1_5", "c11.cpp", nd=1, n0=5), cfg("w2_2_2", "c11.cpp", nd=2), cfg("w2_3_4", "c11.cpp", nd=2, n0=3, n1=4), cfg("w2_5_2", "c11.cpp", nd=2, n0=5, n1=2),
    cfg("w3_2_2_2", "c11.cpp", nd=3), cfg("w3_3_2_3", "c11.cpp", nd=3, n0=3, n1=2, n2=3),
    cfg("w1_12", "c11.cpp", nd=1, n0=12), cfg("w2_7_6", "c11.cpp", nd=2, n0=7, n1=6), cfg("w3_3_4_5", "c11.cpp", nd=3, n0=3, n1=4, n2=5), cfg("w1_200", "c11.cpp", nd=1, n0=200), cfg("w2_17_16", "c11.cpp", nd=2, n0=17, n1=16), cfg("w3_6", "c11.cpp", nd=3, n0=6, n1=5, n2=7), cfg("w4", "c11.cpp", nd=4), cfg("w4_3_2_2_3", "c11.cpp", nd=4, n0=3, n3=3),
]
CONFIGS["C12"] = [
    cfg("p1_2", "c11.cpp", cfg=1, nd=1, n0=2, sym=1, tgt=1), cfg("p1_4", "c11.cpp", cfg=1, nd=1, n0=4, sym=1), cfg("p2_2_2", "c11.cpp", cfg=1, nd=2, sym=1), cfg("p2_3_3", "c11.cpp", cfg=1, nd=2, n0=3, n1=3, tgt=1), cfg("p2_3_2", "c11.cpp", cfg=1, nd=2, n0=3, n1=2, sym=2, tgt=1),
    cfg("p3_2_2_2", "c11.cpp", cfg=1, nd=3), cfg("p3_3_2_2", "c11.cpp", cfg=1, nd=3, n0=3), cfg("p3_2_3_2", "c11.cpp", cfg=1, nd=3, n1=3), cfg("p3_2_2_3", "c11.cpp", cfg=1, nd=3, n2=3, time=90), cfg("reuse", "c11.cpp", cfg=1, nd=2, n0=3, n1=2, reuse=1), cfg("near1", "c11.cpp", cfg=1, nd=1, n0=3, near=1), cfg("near2", "c11.cpp", cfg=1, nd=2, n0=3, n1=2, near=1), cfg("near3", "c11.cpp", cfg=1, nd=3, near=1),
    cfg("p1_12", "c11.cpp", cfg=1, nd=1, n0=12, tgt=1), cfg("p2_6_7", "c11.cpp", cfg=1, nd=2, n0=6, n1=7), cfg("p1_150", "c11.cpp", cfg=1, nd=1, n0=150), cfg("p2_15_17", "c11.cpp", cfg=1, nd=2, n0=15, n1=17), cfg("p4", "c11.cpp", cfg=1, nd=4),
]
def _s(name, nd, nmax, tier=None, time=60, **kw):
    return cfg(name, "c11.cpp", cfg=2, nd=nd, nmax=nmax, time=time, **({"tier": tier} if tier else {}), **kw)
CONFIGS["C13"] = [
    _s("s1", 1, 2, n0=3, start=1), _s("s1_3", 1, 3, n0=3), _s("s1_sym", 1, 1, n0=3, sym=1), _s("s1_sym1", 1, 1, "thorough", n0=3, sym=1, start=1), _s("s1_sym2", 1, 2, n0=2, sym=1), _s("s1_5", 1, 2, n0=5), _s("steep", 1, 3, n0=5, grid=3, start=2, atlo=0, athi=4), _s("steep_b", 1, 3, n0=5, grid=3, start=2, atlo=5), _s("steep6", 1, 6, "thorough", n0=5, grid=3, start=2, thorough_time=300), _s("s1_far", 1, 5, "thorough", n0=5), _s("s1_sym3", 1, 2, "thorough", n0=3, sym=1, start=1),
    _s("affine", 2, 2, n0=3, n1=3, start=1, inside=1), _s("affine_t", 2, 2, n0=3, n1=3), _s("affine1", 2, 1), _s("affine_sym", 2, 1, n0=2, n1=3, sym=1), _s("affine_any", 2, 3, "thorough", n0=3, n1=3, start=1),
    _s("turned_1", 2, 2, n0=3, n1=4, turn=1), _s("turned_2", 2, 2, n0=3, n1=3, inside=1, turn=2), _s("turned_shear", 2, 1, n0=3, n1=3, grid=1, turn=3), _s("turned_check", 2, 1, grid=2, check=1, turn=2),
    _s("degrees", 2, 2, n0=3, n1=3, inside=1, unit=1, off=180), _s("huge", 2, 2, n0=3, n1=4, unit=4, off=-90000), _s("very_large", 2, 2, n0=16, n1=17), _s("check1", 1, 2, n0=3, check=1), _s("check_bilin", 2, 1, grid=2, check=1), _s("check_shear", 2, 1, n0=3, n1=3, grid=1, check=1),
    _s("affine3", 3, 1), _s("shear", 2, 1, n0=3, n1=3, grid=1), _s("bilin", 2, 1, grid=2), _s("loose", 2, 3, n0=3, n1=2, grid=0, loose=1),
    _s("bilin2", 2, 2, "thorough", grid=2), _s("shear2", 2, 2, "thorough", n0=3, n1=3, grid=1), _s("affine3b", 3, 2, "thorough"),
    _s("per", 2, 2, n1=3, per=1), _s("reuse", 2, 2, n0=3, n1=2, reuse=1), _s("again", 2, 1, n0=3, n1=2, grid=1, reuse=2), _s("reuse1", 1, 3, n0=3, reuse=1), _s("again1", 1, 3, n0=3, reuse=2), _s("near", 2, 1, n0=2, n1=2, near=1), _s("near1", 1, 2, n0=3, near=1),
    _s("again2", 2, 2, "thorough", n0=3, n1=2, grid=1, reuse=2),
]
CONFIGS["C15"] = [
    cfg("large", "c15.cpp", n0=8, n1=7, poly=6, free=1, dy16=30), cfg("large_box", "c15.cpp", n0=5, n1=9, poly=5, kind=0, free=1, dy16=104, order=1), cfg("large_in", "c15.cpp", n0=7, n1=6, poly=6, kind=2, inside=1, free=1, dy16=50), cfg("large_rot", "c15.cpp", n0=6, n1=6, poly=6, kind=3, free=3, x0=0, x1=4, dy16=70, sc4=5),
    cfg("turned_1", "c15.cpp", kind=2, poly=2, free=1, dy16=18, turn=1), cfg("turned_2", "c15.cpp", n0=4, n1=3, free=1, turn=2), cfg("turned_3", "c15.cpp", kind=3, poly=4, sc4=6, free=1, dy16=20, turn=3), cfg("turned_in", "c15.cpp", kind=2, inside=1, sc4=2, free=1, dy16=10, turn=2),
    cfg("degrees", "c15.cpp", n0=4, n1=3, free=1, unit=1, off=180), cfg("degrees_rot", "c15.cpp", kind=3, poly=4, sc4=6, free=1, dy16=20, unit=1, off=-300), cfg("huge", "c15.cpp", kind=2, poly=2, free=1, dy16=18, unit=4, off=90000), cfg("small", "c15.cpp", kind=2, inside=1, sc4=2, free=1, dy16=10, unit=-2),
    cfg("very_large", "c15.cpp", n0=16, n1=15, poly=2, free=3, dy16=180, kind=2, x0=60, x1=80), cfg("very_large_all", "c15.cpp", n0=12, n1=14, poly=3, free=3, dy16=-5, x0=-2, x1=0, sc4=8),
    cfg("twenty", "c15.cpp", poly=7, n0=5, n1=5, free=1, dy16=33), cfg("twenty_in", "c15.cpp", poly=7, kind=2, n0=4, n1=4, inside=1, sc4=2, free=1, dy16=20),
    cfg("per1", "c15.cpp", free=1, per=1), cfg("per2", "c15.cpp", poly=1, kind=2, free=1, dy16=18, per=2, sc4=8), cfg("per3", "c15.cpp", kind=3, poly=2, free=1, dy16=3, per=3), cfg("per_in", "c15.cpp", kind=2, inside=1, sc4=2, per=2),
    cfg("sq", "c15.cpp", free=1), cfg("sq2", "c15.cpp"), cfg("tri", "c15.cpp", poly=1, kind=4, free=1), cfg("dia", "c15.cpp", poly=2, kind=4, free=1, dy16=20), cfg("cover", "c15.cpp", poly=3, n0=3, n1=3, free=1),
    cfg("shear_in", "c15.cpp", kind=2, inside=1, sc4=2), cfg("rot_in", "c15.cpp", kind=3, inside=1, poly=2), cfg("sq_in", "c15.cpp", kind=0, inside=1, poly=1, sc4=2, n0=4, n1=3),
    cfg("five", "c15.cpp", poly=4, free=1, order=1), cfg("six", "c15.cpp", poly=5, n0=4, n1=4, free=1, order=1, dy16=20), cfg("six_in", "c15.cpp", poly=5, kind=2, inside=1, sc4=2, n0=4, free=1, dy16=12), cfg("five_in", "c15.cpp", poly=4, kind=3, inside=1, sc4=2, order=1, free=1, dy16=30), cfg("six_any", "c15.cpp", poly=5, kind=2, inside=1, sc4=2, n0=4, tier="thorough", thorough_time=200), cfg("five_any", "c15.cpp", poly=4, kind=3, inside=1, sc4=2, order=1, tier="thorough", thorough_time=200), cfg("tri_order", "c15.cpp", poly=1, kind=4, free=1, order=1),
    cfg("sheared", "c15.cpp", kind=2, poly=1, sc4=8, free=1, dy16=18), cfg("sheared2", "c15.cpp", kind=2, free=1, dy16=-6), cfg("rotated", "c15.cpp", kind=3, poly=2, free=1, dy16=3), cfg("rotated5", "c15.cpp", kind=3, poly=4, sc4=6, free=1, dy16=-20), cfg("big", "c15.cpp", kind=2, poly=3, free=1, dy16=-30),
    cfg("sheared_any", "c15.cpp", kind=2, poly=1, sc4=8, tier="thorough", thorough_time=200), cfg("rotated_any", "c15.cpp", kind=3, poly=4, tier="thorough", thorough_time=200),
    cfg("reuse", "c15.cpp", kind=0, free=1, reuse=1), cfg("near", "c15.cpp", kind=0, n0=3, n1=3, free=3, near=1, sc4=2), cfg("again", "c15.cpp", kind=0, n0=4, free=1, again=1, poly=1), cfg("tall", "c15.cpp", n0=2, n1=5, free=1), cfg("wide", "c15.cpp", n0=5, n1=2, free=1, poly=2),
]
def _n(name, tier=None, time=60, **kw):
    return cfg(name, "c14.cpp", time=time, **({"tier": tier} if tier else {}), **kw)
CONFIGS["C14"] = [
    _n("large", free=1, s0=6, s1=5, d0=4, d1=3, dy16=20), _n("large_shear", sk=1, free=1, s0=5, s1=7, d0=3, d1=4, dy16=30, sc8=7), _n("large_data", sk=2, free=0, data=0, s0=6, s1=6, d0=2, d1=2, dx16=8, dy16=70),
    _n("turned_1", sk=1, free=1, dy16=12, turn=1), _n("turned_2", free=1, s0=4, turn=2), _n("turned_3", sk=3, dk=1, free=1, dy16=20, sc8=2, turn=3),
    _n("degrees", free=1, unit=1, off=180, s0=4), _n("degrees_rot", sk=2, dk=1, free=1, dy16=20, sc8=2, unit=1, off=-300), _n("huge", sk=1, free=1, dy16=12, s0=2, unit=3, off=7000), _n("small", sk=1, free=1, dy16=9, s0=3, s1=2, unit=-1),
    _n("very_large", free=1, s0=16, s1=16, d0=2, d1=2, dy16=200), _n("very_large_dst", free=3, s0=3, s1=4, d0=15, d1=17, dy16=5, sk=1, sc8=1),
    _n("per2", free=1, per=2, s0=2, s1=3), _n("per1", sk=1, free=1, per=1, s0=3, s1=2, dy16=12), _n("per_same", cfg=1, free=0, sk=2, per=2, d0=3, d1=3), _n("per_rot", sk=2, free=1, dk=1, dy16=20, sc8=2, per=3), _n("ring", sk=6, s0=2, s1=5, per=2, d0=1, d1=1, free=3, dy16=20, nmax=2), _n("ring2", sk=7, s0=2, s1=5, per=2, d0=1, d1=1, free=3, dy16=20, nmax=2),
    _n("rect", free=1), _n("rect2", d0=2, d1=2, s0=2, s1=2), _n("shear", sk=1, free=1, s0=2, s1=3, dy16=12), _n("rot", sk=2, free=1, dk=1, dy16=20, sc8=2), _n("flip", sk=5, free=1, dy16=-30), _n("nonuni", sk=3, free=1, nmax=8),
    _n("same", cfg=1, free=0, data=1, d0=3, d1=3), _n("same1", cfg=1, free=0, data=1, sk=1, s0=2, s1=4, d0=2, d1=4), _n("data", free=0, data=1, sk=1, dx16=20, dy16=9), _n("bilin", sk=4, s0=2, s1=2, free=1, nmax=3, loose=1, d0=2, d1=2, sc8=1),
    _n("side", sk=4, s0=3, s1=3, free=1, nmax=2, loose=1, d0=2, d1=2, sc8=1, dy16=8), _n("reuse", free=1, reuse=1), _n("near", free=3, near=1, s0=2, s1=3, dy16=12), _n("again", free=1, again=1, sk=1, dy16=12, s0=2, s1=3), _n("order", free=1, order=1, d0=3, d1=2, dy16=10),
]
CONFIGS["C16"] = (
    [cfg("turned_%d_%d" % (q, t), "c16.cpp", q=q, turn=t, mode=1, ax8=-8, ay8=0, bx8=16, by8=4) for q, t in ((1, 1), (1, 2), (1, 3), (3, 1), (3, 2), (4, 2), (2, 1))] +
    [cfg("end_%d" % q, "c16.cpp", q=q) for q in (0, 1, 2, 3, 4)] + [cfg("begin_%d" % q, "c16.cpp", q=q, mode=2) for q in (0, 1, 3)]
    + [cfg("far_%d" % q, "c16.cpp", q=q, ax8=-12, ay8=4) for q in (0, 3)] + [cfg("corner_%d" % q, "c16.cpp", q=q, ax8=-8, ay8=-8) for q in (0, 2)] + [cfg("oncorner", "c16.cpp", q=0, ax8=0, ay8=0), cfg("onedge", "c16.cpp", q=0, ax8=8, ay8=4)]
    + [cfg("move_%d_%d" % (q, i), "c16.cpp", q=q, mode=1, ax8=-8 if i else 0, ay8=0, bx8=(8, 16, 8)[i], by8=(8, 0, 4)[i]) for q in (0, 1, 2, 3, 4) for i in (0, 1, 2)]
    + [cfg("along", "c16.cpp", mode=3), cfg("along3", "c16.cpp", q=3, mode=3), cfg("reuse", "c16.cpp", reuse=1), cfg("reuse2", "c16.cpp", mode=1, reuse=2, order=1), cfg("near", "c16.cpp", q=1, mode=5, near=1), cfg("near1", "c16.cpp", q=0, mode=5, near=1)]
    + [cfg("degrees", "c16.cpp", q=1, mode=1, ax8=-8, ay8=0, bx8=8, by8=4, unit=1, off=180), cfg("degrees_end", "c16.cpp", q=0, unit=1, off=-300), cfg("huge", "c16.cpp", q=3, unit=3, mode=1, ax8=-8, ay8=0, bx8=16, by8=0, off=8000)]
    + [cfg("any_%d" % q, "c16.cpp", q=q, mode=4, tier="thorough", thorough_time=300) for q in (0, 1)]
)
CONFIGS["C17"] = (
    [cfg("any_%d" % q, "c17.cpp", q=q) for q in (0, 1, 2, 3, 4)] + [cfg("edges_%d" % q, "c17.cpp", q=q, mode=1) for q in (0, 1, 2)]
    + [cfg("turn_%d" % q, "c17.cpp", q=q, mode=2) for q in (0, 1)] + [cfg("split_%d" % q, "c17.cpp", q=q, mode=2, split=1) for q in (0, 3)] + [cfg("grad_%d" % q, "c17.cpp", q=q, mode=3) for q in (0, 1)]
    + [cfg("reuse_%d" % q, "c17.cpp", q=q, reuse=1) for q in (0, 4)] + [cfg("near_%d" % q, "c17.cpp", q=q, near=1) for q in (0, 1)]
    + [cfg("out_%d" % q, "c17.cpp", q=q, mode=4) for q in (0, 1, 2, 3)] + [cfg("round_%d" % q, "c17.cpp", q=q, mode=1, round=1) for q in (0, 5, 6)] + [cfg("degrees", "c17.cpp", q=5)]
)
CONFIGS["C18"] = (
    [cfg("turned_%d_%d_%d" % (k, g, t), "c18.cpp", sk=k, seg=g, free=1, dy16=d, turn=t) for k, g, d, t in ((0, 1, 16, 2), (1, 1, 12, 1), (3, 5, 7, 3), (2, 2, 24, 1), (0, 8, 10, 1), (2, 0, 40, 2))] +
    [cfg("row_%d_%d" % (k, g), "c18.cpp", sk=k, seg=g, free=1, dy16=d) for k, g, d in ((0, 0, 8), (0, 1, 16), (1, 1, 12), (2, 2, 24), (3, 5, 7), (4, 0, 10), (5, 1, 20), (0, 4, 40))]
    + [cfg("line_%d_%d_%d" % (k, g, d), "c18.cpp", sk=k, seg=g, free=1, dy16=d) for k, g, d in ((0, 2, 16), (0, 2, 0), (0, 2, 32), (5, 2, 32), (0, 3, 4), (4, 2, 16), (3, 3, 16))]
    + [cfg("large_%d_%d" % (k, g), "c18.cpp", sk=k, seg=g, free=1, apart=int(k == 1), s0=a, s1=b, dy16=d, sc4=c) for k, g, a, b, d, c in ((0, 8, 6, 5, 10, 8), (3, 8, 7, 7, 20, 12), (1, 8, 5, 8, 40, 12), (4, 4, 4, 9, 30, 16))] + [cfg("large_grad", "c18.cpp", seg=8, free=0, data=2, s0=7, s1=8, dx16=10, dy16=40, sc4=12), cfg("large_data", "c18.cpp", seg=8, sk=1, free=0, data=1, s0=5, s1=6, dx16=40, dy16=24, sc4=10)]
    + [cfg("very_large", "c18.cpp", seg=1, free=1, s0=17, s1=15, dy16=130, sc4=16), cfg("very_large_rot", "c18.cpp", sk=2, seg=1, free=1, s0=15, s1=16, dy16=200, sc4=8)]
    + [cfg("any_%d_%d" % (k, g), "c18.cpp", sk=k, seg=g, s0=2, s1=2) for k, g in ((0, 0), (1, 2), (2, 0))]
    + [cfg("any3_%d_%d" % (k, g), "c18.cpp", sk=k, seg=g, tier="thorough", thorough_time=300) for k, g in ((0, 0), (0, 2), (2, 0), (4, 3))]
    + [cfg("data_%d_%d" % (k, g), "c18.cpp", sk=k, seg=g, free=0, data=1, s0=a, s1=b, dx16=x, dy16=y) for k, g, a, b, x, y in ((0, 7, 3, 3, 24, 26), (1, 6, 3, 2, 24, 10), (2, 2, 2, 3, -8, 22), (0, 4, 4, 3, 4, 25), (4, 2, 3, 4, 5, 16), (0, 7, 3, 4, 16, 32))]
    + [cfg("grad_%d_%d" % (k, g), "c18.cpp", sk=k, seg=g, free=1, data=2, dy16=d, s0=a, s1=b) for k, g, d, a, b in ((0, 0, 8, 3, 3), (2, 2, 24, 3, 3), (1, 6, 10, 3, 2), (4, 2, 16, 2, 3))]
    + [cfg("deg_%d" % g, "c18.cpp", sk=6, seg=g, sc4=c, free=1, dy16=y) for g, c, y in ((5, 80, -1200), (0, 240, -1336), (2, 160, -960))]
    + [cfg("huge", "c18.cpp", seg=1, free=1, dy16=16, unit=3, off=8000), cfg("huge_rot", "c18.cpp", sk=2, seg=5, free=1, dy16=9, unit=2, off=-3000), cfg("small", "c18.cpp", sk=1, seg=6, free=1, dy16=10, unit=-2)]
    + [cfg("reuse", "c18.cpp", free=1, reuse=1), cfg("near", "c18.cpp", seg=1, free=1, near=1, dy16=8, s0=2, s1=3), cfg("again", "c18.cpp", sk=1, free=1, again=1, s0=2), cfg("again2", "c18.cpp", seg=6, free=1, again=2, dy16=8), cfg("order", "c18.cpp", sk=4, seg=2, free=1, order=1, reuse=2, dy16=16)]
)
CONFIGS["C19"] = (
    [cfg("at_%d_%d" % (d, l), "c19.cpp", d=d, lev=l) for d, l in ((1, 1), (1, 2), (1, 4), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2))]
    + [cfg("pts_%d_%d" % (d, l), "c19.cpp", d=d, lev=l, mode=1) for d, l in ((1, 1), (1, 2), (2, 1))] + [cfg("size_%d_%d" % (d, l), "c19.cpp", d=d, lev=l, mode=2) for d, l in ((1, 3), (2, 2), (3, 1))]
    + [cfg("many_%d_%d_%d" % (d, l, n), "c19.cpp", d=d, lev=l, np=n) for d, l, n in ((1, 3, 9), (2, 3, 8), (3, 2, 12))] + [cfg("size_2_2_7", "c19.cpp", d=2, lev=2, mode=2, np=7), cfg("at_1_5", "c19.cpp", d=1, lev=5), cfg("at_2_4", "c19.cpp", d=2, lev=4), cfg("one", "c19.cpp", d=1, lev=1, np=2), cfg("at_4_1", "c19.cpp", d=4, lev=1)]
    + [cfg("very_many_%d_%d_%d" % (d, l, n), "c19.cpp", d=d, lev=l, np=n) for d, l, n in ((1, 3, 100), (2, 2, 50), (3, 1, 40))] + [cfg("deep_%d_%d" % (d, l), "c19.cpp", d=d, lev=l, tile=0, nodes=0) for d, l in ((1, 7), (2, 5))]
    + [cfg("pts_2_2", "c19.cpp", d=2, lev=2, mode=1, tier="thorough"), cfg("at_3_3", "c19.cpp", d=3, lev=3, tile=0, tier="thorough"), cfg("at_1_6", "c19.cpp", d=1, lev=6, tier="thorough")]
)
CONFIGS["C20"] = (
    [cfg("rect_%d_%d" % s, "c20.cpp", mode=0, n0=s[0], n1=s[1]) for s in ((2, 2), (3, 4), (5, 2), (2, 6), (9, 7), (6, 13), (17, 15), (3, 100))] + [cfg("polar_%d_%d" % s, "c20.cpp", mode=1, n0=s[0], n1=s[1]) for s in ((2, 2), (3, 5), (4, 4), (2, 9), (3, 8), (4, 2), (5, 3), (7, 4), (9, 7), (5, 13), (16, 17), (3, 65))]
    + [cfg("pole_%d_%d" % s, "c20.cpp", mode=2, n0=s[0], n1=s[1], time=25, branch_timeout=800, assert_timeout=3000, weight=90) for s in ((2, 2), (3, 3), (3, 4), (4, 3), (3, 5), (2, 6))]
    + [cfg("lat_%d_%d_%d" % s, "c20.cpp", mode=2, fix=2, n0=s[0], n1=s[1], b2=s[2], time=25, branch_timeout=800, assert_timeout=3000, weight=80) for s in ((4, 3, 40), (3, 4, -180), (5, 3, 500))]
    + [cfg("lon_%d_%d_%d" % s, "c20.cpp", mode=2, fix=1, a2=s[2], n0=s[0], n1=s[1]) for s in ((4, 5, 61), (3, 7, 180), (5, 4, -330), (6, 3, 0))]
    + [cfg("none_%d_%d_%d_%d" % s, "c20.cpp", mode=2, fix=3, n0=s[0], n1=s[1], a2=s[2], b2=s[3]) for s in ((4, 6, 0, 0), (5, 5, 60, 40), (7, 9, 180, -90), (17, 19, 45, 75))]
    + [cfg("pole_8_3", "c20.cpp", mode=2, n0=8, n1=3, tier="thorough", thorough_time=300), cfg("lat_8_3", "c20.cpp", mode=2, fix=2, n0=8, n1=3, b2=40, tier="thorough", thorough_time=300)]
    + [cfg("products", "c20.cpp", mode=3)]
)
CONFIGS["C22"] = (
    [cfg("words2", "c22.cpp", n=2, wlo=0, whi=19), cfg("words3", "c22.cpp", n=3, wlo=0, whi=10), cfg("repeat4", "c22.cpp", n=4, wlo=2, whi=6), cfg("bad3", "c22.cpp", n=3, wlo=6, whi=13), cfg("two", "c22.cpp", n=2, two=1, whi=8), cfg("long3", "c22.cpp", n=3, wlo=19, whi=24)]
    + [cfg("sym_%d_of_%d_len%d" % (a, n, l), "c22.cpp", mode=1, n=n, sym=a, len=l, wlo=w, whi=w2) for a, n, l, w, w2 in ((1, 1, 4, 0, 0), (2, 2, 2, 0, 4), (1, 2, 2, 5, 7), (2, 3, 2, 0, 2))]
    + [cfg("ints_%d" % n, "c22.cpp", mode=2, n=n, time=30) for n in (2, 3)] + [cfg("doubles_%d" % n, "c22.cpp", mode=3, n=n, many=16) for n in (2, 3)]
    + [cfg("ints_wide", "c22.cpp", mode=2, n=2, pre=4, time=30), cfg("doubles_wide", "c22.cpp", mode=3, n=2, pre=4, many=16)]
    + [cfg("ints_direct", "c22.cpp", mode=2, n=3, direct=1, many=15, time=30), cfg("doubles_direct", "c22.cpp", mode=3, n=3, direct=1, many=16), cfg("text", "c22.cpp", mode=4, n=2), cfg("long6", "c22.cpp", n=6, wlo=5, whi=7), cfg("long7", "c22.cpp", n=7, wlo=3, whi=4), cfg("very_long", "c22.cpp", n=2, pad=40, wlo=0, whi=9), cfg("very_long_bad", "c22.cpp", n=2, pad=33, wlo=9, whi=15), cfg("many_options", "c22.cpp", n=2, two=2, whi=8), cfg("long_words", "c22.cpp", n=2, wlo=22, whi=25), cfg("very_long_doubles", "c22.cpp", mode=3, n=2, pre=3, many=16), cfg("very_long_ints", "c22.cpp", mode=2, n=1, pre=3, many=15, time=30), cfg("longints", "c22.cpp", mode=2, n=2, pre=1, many=15, time=30), cfg("longdoubles", "c22.cpp", mode=3, n=2, pre=2, many=16)]
    + [cfg("sym_2_of_2_len3", "c22.cpp", mode=1, n=2, sym=2, len=3, whi=4, tier="thorough", thorough_time=200), cfg("ints_4", "c22.cpp", mode=2, n=4, direct=1, tier="thorough", thorough_time=400), cfg("doubles_4", "c22.cpp", mode=3, n=4, direct=1, many=16, tier="thorough", thorough_time=400), cfg("words4", "c22.cpp", n=4, whi=10, tier="thorough")]
)
def _c24(name, m, **k):
    return cfg(name, "c24.cpp", defs=["-DM_" + m] if m else [], **k)


CONFIGS["C24"] = (
    [_c24(n + "_4", n.upper(), k=4, sym=0) for n in ("conserve", "flow", "node")] + [_c24(n + "_pre6", n.upper(), k=6, sym=0, pre=3) for n in ("conserve", "flow", "node")]
    + [_c24(n + "_sym", n.upper(), k=4, pre=3, grids=g, time=40) for n, g in (("conserve", 2), ("flow", 2), ("node", 2))] + [_c24("conserve_all", "CONSERVE", k=4, sym=0, grids=4, pre=3)]
    + [_c24("find_4", "NODE", mode=1, k=4), cfg("steep", "c11.cpp", cfg=2, nd=1, n0=5, nmax=4, grid=3, start=2, athi=4, time=60), cfg("steep_all", "c11.cpp", cfg=2, nd=1, n0=5, nmax=4, grid=3, start=2, tier="thorough", thorough_time=400), _c24("find_pre7", "NODE", mode=1, k=6, pre=3, grids=1, time=40), _c24("cells_4", "CONSERVE", mode=1, k=4), _c24("cells_pre5", "CONSERVE", mode=1, k=5, pre=3, sym=0)]
    + [_c24("quads", "QUAD", mode=0, k=3), _c24("quadline", "QUAD", mode=1, k=5), _c24("flows", "QUAD", mode=2, k=5)]
    + [_c24("solve", "", mode=0, k=4), _c24("tripolar", "", mode=1, k=2), _c24("iterators", "", mode=2), _c24("octree", "", mode=3), _c24("triangulate", "", mode=4, k=2), _c24("shapes", "", mode=5)]
    + [_c24(n + "_5", n.upper(), k=5, sym=0, tier="thorough") for n in ("conserve", "flow", "node")] + [_c24(n + "_sym6", n.upper(), k=6, pre=3, tier="thorough") for n in ("conserve", "flow", "node")] + [_c24("tripolar_9", "", mode=1, k=1, max=9, tier="thorough"), _c24("solve_5", "", mode=0, k=5, tier="thorough"), _c24("quads_4", "QUAD", mode=0, k=4, tier="thorough")]
)
