#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one place to edit; run to regenerate).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe or [], hook_needed=hook)))
def m(name, where): return dict(name=name, where=where)
def s(name, meaning, where): return dict(name=name, meaning=meaning, where=where)
PM="src/quadtrees/point/mod.rs"; PN="src/quadtrees/point/node.rs"; BM="src/quadtrees/bounds/mod.rs"; BN="src/quadtrees/bounds/node.rs"
ND="src/node.rs"; IT="src/iter.rs"; KN="src/quadtrees/knn.rs"; SO="src/quadtrees/sorted.rs"; QM="src/quadtrees/mod.rs"
GM="src/geom/mod.rs"; GG="src/geom/geometry.rs"; GX="src/geom/math.rs"; ED="src/geom/euclidean/dist.rs"; EM="src/geom/euclidean/math.rs"
SD="src/geom/spherical/dist.rs"; SM="src/geom/spherical/math.rs"; TR="src/geom/spherical/to_radians.rs"

p("C01","Insertion admits exactly the data that fit, and rejection changes nothing",
 "Inserting a datum succeeds exactly when its point (point tree) or its bounding box (bounds tree) lies inside the tree's bounds, edges and corners included; otherwise it fails with OutOfBounds, or with CannotMakeBbox when the geometry has no bounding box. Each success raises the reported size by one, and a failed insertion leaves size, stored data, layout and every later answer as if it had never been attempted.",
 ["histories","inputs","configurations"],
 "All sequences of accepted and rejected insertions, at every position relative to the bounds (inside, on each edge and corner, just outside, NaN, infinite, empty geometry), for every tree kind, bounds and depth/capacity setting.",
 "The one existing test tries a single far-away point on a tree with one datum; edges, corners, bounding boxes that stick out on one side, geometries without a box and rejections in the middle of a history are never tried.",
 [PM,BM,GX,PN,BN],
 [m("bounds check before delegating to the root",PM+": insert"),m("bounding-box check before delegating to the root",BM+": insert"),m("inclusive containment helpers",GX)],
 [s("size","count of accepted data",PM+", "+BM)],["QuadTree::insert","QuadTree::size","iteration","Display"])

p("C02","Iteration yields every stored datum exactly once, in preorder",
 "Iterating over a tree yields every accepted datum exactly once (equal data inserted twice appear twice) and nothing else, whatever subdivisions happened. Cells are visited in preorder - data held by a cell itself before the data of its sub-cells, and the sub-cells in the fixed order low-x/low-y, high-x/low-y, high-x/high-y, low-x/high-y. Iteration can be repeated, stays exhausted after its end, and gives the same data however the iterator is consumed (next, count, nth, last, fold, size hints).",
 ["histories","inputs","configurations"],
 "All insertion histories, including duplicates, empty sub-cells at any place and data kept in inner cells, at every depth/capacity setting.",
 "Existing tests iterate two fixed trees; a datum lost or repeated only when a given pattern of empty and filled sub-cells or of inner-cell data occurs is not sampled.",
 [IT,ND,PM,BM,PN,BN],
 [m("descendant iterator",IT+": DescendantIter"),m("children iterator (own and stuck data)",BN+": children"),m("re-insertion on subdivision",PN+", "+BN+": insert")],
 None,["IntoIterator for &tree","QuadTree::size"])

p("C03","Cell layout follows the depth and capacity limits, and prints faithfully",
 "A cell is divided at its midpoints exactly when more data have reached it than max_children allows and it is not yet at max_depth (max_depth wins, so deepest cells may overfill); no cell is ever deeper than max_depth. After division every datum moves to the sub-cell that holds it - a coordinate on a split line belongs to the low side, and a bounded datum goes to the sub-cell holding its box's centre if that encloses the box and stays in the dividing cell otherwise. The printed tree lists every cell once, in preorder, indented by depth, with its low corner and the number of data it holds.",
 ["histories","inputs","configurations"],
 "All insertion histories and all max_depth / max_children settings, with data on, next to and across split lines at every level.",
 "Two unit tests look at one tree each, with points well inside their cells; the existing tests only check that the printout contains a header.",
 [ND,PN,BN,PM,BM],
 [m("subdivide",ND+": subdivide"),m("sub-cell choice",ND+": find_sub_node"),m("capacity/depth condition",PN+", "+BN+": insert"),m("printing",ND+": display")],
 [s("children / stuck_children / nodes","data and sub-cells of a cell",PN+", "+BN)],["Display for trees","iteration order","QuadTree::retrieve"])

p("C04","Point-tree retrieval returns exactly the data sharing the query's cell",
 "For a query point inside the bounds (edges included), retrieving from a point tree returns exactly the stored data of the undivided cell that contains the query, each exactly once; in particular every stored datum at the query's own position is returned. A query outside the bounds yields nothing. The query never changes the tree.",
 ["histories","inputs","configurations"],
 "All insertion histories, configurations and query positions, including positions on split lines, edges and corners.",
 "Tests retrieve at three hand-picked positions well inside cells.",
 [PM,PN,ND,IT],
 [m("descent by sub-cell",PN+": retrieve"),m("bounds check",PM+": retrieve"),m("sub-cell choice",ND+": find_sub_node")],
 None,["QuadTree::retrieve"])

p("C05","Bounds-tree retrieval misses no overlapping datum and stays local",
 "For a query whose bounding box lies inside the bounds, retrieving from a bounds tree returns every stored datum whose box overlaps the query's box (merely touching along edges is not overlapping), and every datum equal to the query; nothing is returned twice or invented. What is returned is exactly the data held by the cells that enclose the query on the way down, plus - where the query straddles sub-cells - the whole content of every sub-cell its box touches. A query outside the bounds or without a bounding box yields nothing.",
 ["histories","inputs","configurations"],
 "All insertion histories, configurations and query boxes: contained, straddling one or both split lines at any level, touching a split line, degenerate (point or segment), covering the whole tree.",
 "One test uses seven data and four queries on one tree.",
 [BM,BN,IT,ND,GX],
 [m("descent / straddle handling",BN+": retrieve"),m("enclosure test",GX+": rect_in_rect"),m("chained iterators",IT+": ChainSelfIter, DescendantIter")],
 None,["QuadTree::retrieve"])

p("C06","Planar nearest search returns a truly nearest datum",
 "On a tree using Euclidean distance, whenever the comparator touches the tree's bounds and the tree is not empty, find returns a stored datum together with its distance, and no stored datum is closer to the comparator. This holds for both tree kinds, for point, line, linestring, polygon and rectangle comparators, and for all of these as data of a bounds tree.",
 ["histories","inputs","configurations"],
 "All sets of stored data, insertion histories, depth/capacity settings and comparators.",
 "Tests check four comparators against two fixed trees; wrong pruning shows only when the nearest datum lies in a cell other than the one visited first.",
 [PM,BM,GM,ED,EM],
 [m("branch-and-bound over cells",PM+", "+BM+": find_r"),m("cell distance",GM+": GeomCalc::dist_bbox"),m("datum distance",GM+": GeomCalc::dist_geom")],
 None,["QuadTreeSearch::find"])

p("C07","Radius-limited nearest search is exact at, inside and outside the radius",
 "find_r(cmp, r) returns a nearest datum, with its distance, exactly when some stored datum is at distance r or less (the radius itself is included, also for r = 0), and NoneInRadius otherwise; a sufficiently large radius gives the same answer as find. This holds for both tree kinds and both distance methods.",
 ["histories","inputs","configurations"],
 "All trees, comparators and radii, in particular a radius equal to the distance of a datum or of a cell edge, zero, infinite and negative radii.",
 "Only one find_r call exists in the tests, with a radius well below the nearest datum.",
 [PM,BM,QM],
 [m("pruning against the current best, starting at r",PM+", "+BM+": find_r")],
 None,["QuadTreeSearch::find_r","QuadTreeSearch::find"])

p("C08","k-nearest search returns exactly the k closest data, closest first",
 "On a tree using Euclidean distance, knn(cmp, k) and knn_r(cmp, k, r) return min(k, number of stored data within r) distinct stored data, each with its own distance, in non-decreasing order of distance, and no omitted datum is closer than a returned one or, when fewer than k come back, lies within r (r included). k = 0 gives an empty list, an empty tree gives an empty list, and any k up to the largest integer is accepted.",
 ["histories","inputs","configurations"],
 "All trees, comparators, k from 0 to beyond the number of data and all radii, including ties and radii equal to a datum's distance.",
 "Tests call knn_r twice on one four-point tree with k = 3.",
 [KN,PM,BM,GM],
 [m("best-first traversal with a sorted work list",KN),m("cell distance as lower bound",GM+": GeomCalc::dist_bbox")],
 None,["QuadTreeSearch::knn","QuadTreeSearch::knn_r"])

p("C09","Distance-sorted iteration is a complete, ordered enumeration",
 "On a tree using Euclidean distance and for a comparator touching the bounds, sorted yields every stored datum exactly once, each with its own distance, in non-decreasing order of distance, then ends and stays ended. Any prefix of it agrees in distances with knn of the same length, and its first element with find.",
 ["histories","inputs","configurations"],
 "All trees of both kinds, all comparators, all numbers of elements consumed.",
 "One test sorts nine points from one corner.",
 [SO,PM,BM,GM],
 [m("lazy best-first expansion",SO+": SortIter"),m("re-sort after each expansion",SO)],
 [s("stack / is_sorted","pending cells and data with distances",SO)],["QuadTreeSearch::sorted"])

p("C10","Spherical nearest search returns a truly nearest datum anywhere on the sphere",
 "On a tree using spherical distance, find and find_r return a stored datum and its great-circle distance such that no stored datum has a smaller distance to the comparator - including near the poles, at high latitudes, at large longitude differences and across the antimeridian. This holds for point comparators against all kinds of data and for rectangle comparators against point and rectangle data.",
 ["histories","inputs","configurations"],
 "All data sets and comparators on the sphere, with trees covering the whole globe or a part of it, at all depth/capacity settings.",
 "The three spherical tests stay in a small region near the equator where planar reasoning about cells happens to be right.",
 [PM,BM,GM,SD,SM],
 [m("cell distance on the sphere",SM+": dist_pt_rect, dist_rect_rect"),m("branch and bound",PM+", "+BM+": find_r")],
 None,["QuadTreeSearch::find","QuadTreeSearch::find_r"])

p("C11","Spherical k-nearest and sorted iteration are complete and ordered",
 "On a tree using spherical distance, knn, knn_r and sorted return distinct stored data with their great-circle distances in non-decreasing order; knn returns exactly the min(k, number within r) closest ones and sorted returns all of them - including near the poles, at high latitudes and across the antimeridian, for point comparators against all kinds of data and rectangle comparators against point and rectangle data.",
 ["histories","inputs","configurations"],
 "All data sets, comparators, k and radii on the sphere, with global and partial bounds.",
 "No existing test calls knn or sorted on a spherical tree.",
 [KN,SO,GM,SD,SM],
 [m("best-first traversal",KN+", "+SO),m("cell distance on the sphere",SM)],
 None,["QuadTreeSearch::knn_r","QuadTreeSearch::sorted"])

p("C12","Euclidean distance is the true planar distance for every pair of geometries",
 "For any two of point, line, linestring, polygon (with or without holes) and rectangle, the Euclidean distance offered is the smallest planar distance between a point of one and a point of the other: never negative, zero exactly when they touch or overlap, and the same in both argument orders and through every wrapper type. A rectangle measures like the polygon with its corners, also when it is degenerate.",
 ["inputs"],
 "All pairs of valid geometries of all 25 ordered kind combinations, in every relative position.",
 "The rectangle-rectangle code carries a TODO for tests; other pairs are touched by three examples.",
 [ED,EM,GM],
 [m("kind dispatch",ED),m("rectangle-rectangle case analysis",EM+": dist_rect_rect")],
 None,["DistEuclidean::dist_euclidean","GeomCalc::dist_geom"])

p("C13","Spherical distances are right, symmetric and defined for the promised pairs",
 "Point-to-point distance is the great-circle central angle (0 to pi, unaffected by adding full turns to a longitude); point-to-line, -linestring and -polygon distances are the great-circle distance to the nearest segment's planar-projected closest point, zero inside or on a polygon and measured to the hole's ring inside a hole; point-to-rectangle is the true minimum over the rectangle on the sphere, also across the antimeridian; rectangle-to-rectangle is zero exactly on overlap, follows the latitude gap when longitudes overlap and the nearer of both ways round otherwise. Point against any kind, and rectangle against rectangle, give a value in either argument order and the same one through every wrapper; all other pairs fail with InvalidDistance.",
 ["inputs"],
 "All positions on the sphere and all 25 ordered kind combinations.",
 "Unit tests sample a dozen positions, only one of them beyond the antimeridian, and never the reversed argument order.",
 [SD,SM],
 [m("haversine formula",SM+": dist_pt_pt"),m("rectangle cases with wrapping longitudes",SM+": dist_rect_rect, Lng"),m("kind dispatch",SD)],
 None,["DistHaversine::dist_haversine","spherical::math functions","GeomCalc::dist_geom"])

p("C14","A box is never reported farther away than something inside it",
 "For every comparator, every box and every geometry enclosed by that box, the distance from comparator to box never exceeds the distance from comparator to the geometry, for both distance methods; a box enclosed in another is never closer than the enclosing one; and the distance to a box is zero when the comparator touches it. Searches discard whole cells on the strength of this.",
 ["inputs"],
 "All comparator kinds, boxes (also degenerate) and enclosed geometries, planar and anywhere on the sphere.",
 "No test compares a box distance with the distance of its contents.",
 [GM,EM,SM,ED,SD],
 [m("box distance",GM+": GeomCalc::dist_bbox"),m("rectangle distances",EM+", "+SM)],
 None,["AsGeom::with_calc","GeomCalc::dist_bbox","GeomCalc::dist_geom"])

p("C15","Searches fail exactly as documented and never panic",
 "find and knn (with or without radius) fail with CalcMethodNotSet on a tree without distance method, with InvalidDistance when the comparator cannot be measured against the tree, and with OutOfBounds when the comparator does not touch the bounds; find on an empty tree fails with Empty while knn gives an empty list, and only find reports NoneInRadius. knn fails with InvalidDistance when a datum it has to examine cannot be measured or measures to a non-finite value, whereas sorted gives an empty iteration in the first cases and merely skips such data. No search panics, for any comparator whose coordinates are NaN, infinite or small enough to square without overflow, any radius and any k.",
 ["inputs","histories","configurations"],
 "All combinations of distance method, tree kind, comparator kind and position, empty and filled trees, unmeasurable data mixed with measurable ones, NaN and extreme radii.",
 "Only NoneInRadius and the empty-list case are exercised by tests.",
 [KN,SO,PM,BM,GM,SD,"src/error.rs"],
 [m("early checks",KN+", "+PM+", "+BM),m("skipping of unmeasurable items",SO)],
 None,["QuadTreeSearch methods' Result values"])

p("C16","Answers do not depend on insertion order, tuning or tree kind",
 "Two trees with the same bounds and settings holding the same data inserted in different orders have the same cells holding the same data, and give the same answers to every retrieval and search (up to choice and order among equally distant data). Changing max_depth or max_children, or keeping points in a bounds tree instead of a point tree, never changes which inserts succeed, the size, the set of stored data, or any distance reported by find, find_r, knn, knn_r and sorted.",
 ["histories","configurations"],
 "All permutations of insertion histories, all pairs of depth/capacity settings, both tree kinds.",
 "Each test builds one tree, in one order, with one configuration.",
 [PN,BN,ND,PM,BM,KN,SO],
 [m("re-insertion on subdivision",PN+", "+BN+": insert"),m("search independent of layout",KN+", "+SO+", find_r")],
 None,["all queries","Display"])

p("C17","Queries are read-only and independent of one another",
 "No sequence of retrievals, iterations, searches or printing changes the tree: every later answer is the same as on a tree that was never queried. Any number of iterators and searches may be in progress on one tree (and on different trees) at the same time, partially consumed, abandoned or driven from several threads in any interleaving, and each yields exactly what it yields when run alone.",
 ["schedules","histories"],
 "All interleavings of the next() calls of two or three iterators of any kind with each other and with searches, and of queries with insertions; all abandonment points.",
 "Tests run one query at a time to completion.",
 [IT,SO,KN,PM,BM],
 [m("iterators own their position",IT+", "+SO),m("queries take a shared reference",QM)],
 None,["retrieve","iteration","sorted","knn_r","find_r","Display"])

p("C18","Every numeric type gives the same tree as the same data in f64",
 "For data and bounds representable exactly in the type, trees over 16-, 32-, 64-, 128-bit and pointer-sized integers, f32 and f64 accept the same insertions, and hold, iterate and retrieve data consistently: each integer tree loses nothing, respects its depth and capacity limits and retrieves every datum at the query's position or overlapping the query's box, and, whenever all splits and box centres are whole numbers, has the same cells and contents as the f64 tree; all integer types give the same tree as one another. Searches on an f32 tree give the answers of the f64 tree up to f32 precision.",
 ["inputs","histories","configurations"],
 "All integer coordinates of a small range including negative and odd-sized bounds, cells of width 1 and 0, all histories over them, for every supported number type.",
 "All existing tests use f64 only, though the trees are generic over integers too.",
 [ND,PN,BN,PM,BM,GX,GM],
 [m("division by two in the tree's own number type",ND+": find_sub_node, subdivide"),m("box centre in the tree's own number type",BN+": datum_position"),m("cast of infinity",QM+": find, knn")],
 None,["QuadTree methods over i16..i128, f32"])

p("C19","Conversions and wrappers preserve geometry and answers",
 "Converting any supported geometry to radians multiplies every coordinate - of every vertex, exterior and interior ring - by pi/180 and nothing else, in place or by value alike, for bare types and the wrapper. Wrapping geometries (owned or borrowed), converting from the general geometry type, or using a custom datum that exposes them keeps kind, coordinates, bounding box and every distance and search answer; unsupported kinds are refused with UnsupportedGeometry.",
 ["inputs"],
 "All supported and unsupported geometry kinds and vertex patterns (including holes and degenerate shapes), every wrapper, both distance methods.",
 "Tests convert points and one rectangle only, and never use the wrappers.",
 [TR,GG,GM,PM],
 [m("coordinate mapping",TR),m("kind-preserving conversions",GG),m("AsGeom / AsPoint implementations",GM+", "+PM)],
 None,["ToRadians","From/TryFrom for Geometry","AsGeom","AsPoint","BoundingRect"])

p("C20","Extreme configurations and large trees neither crash, hang nor lose data",
 "With any max_depth from 0 to 255, any max_children from 0 upwards, degenerate (zero width or height) bounds, unboundedly many data at one position or distance, and tens of thousands of cells, every operation terminates without panic or stack overflow and obeys the same rules as on an ordinary tree: all data are kept and iterated, retrieval and all searches return what an exhaustive scan would. In particular distance-sorted iteration works in bounded call-stack space however many cells it passes before the next datum.",
 ["configurations","histories","inputs"],
 "All depth/capacity corner settings crossed with coincident, collinear, clustered and large regular data, degenerate bounds and comparators that touch very many cells.",
 "Tests never exceed nine data or depth four.",
 [ND,PN,BN,IT,KN,SO,PM,BM],
 [m("depth limit",PN+", "+BN+": insert"),m("iterative traversal",SO+", "+PM+", "+BM),m("nested iterators",IT)],
 None,["all QuadTree and QuadTreeSearch methods"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
