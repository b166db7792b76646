#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": m, "where": files[min(i, len(files) - 1)]} for i, m in enumerate(mech)]}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
A = "malstroem/algorithms/"
S = A + "speedups/"
p("C01", "Filled DEM is depressionless and minimally raised",
  "For every finite elevation raster of at least 3x3 cells, the filled DEM equals the DEM along the raster edge, is nowhere below the DEM, and gives every cell a non-uphill 8-neighbour path to the raster edge. No cell is raised higher than necessary: a raised cell never ends up higher than both its own terrain and any of its neighbours' filled level. This holds with the compiled speedups and with the pure Python fallback.",
  ["inputs", "configurations"], "all elevation rasters (all orderings of all cells), both implementations",
  "Tests fill one fixture DEM (compared with one stored answer) and a couple of tiny matrices; depressions shaped so that the sweep order matters are not in them.",
  [A + "fill.py", S + "_fill.pyx"], ["Planchon-Darboux style sweeps in four directions repeated until nothing changes"])
p("C02", "No-flats fill leaves every interior cell strictly draining",
  "For every finite elevation raster of at least 3x3 cells and positive minimum drops, the no-flats fill keeps the raster edge, is nowhere below the DEM, and leaves every interior cell strictly higher than at least one of its eight neighbours, by at least the drop requested for that kind of neighbour. The automatically chosen drops are large enough to survive floating-point rounding at every elevation whose magnitude does not exceed that of the DEM's most extreme value, and the diagonal drop is larger than the straight one.",
  ["inputs", "configurations"], "all elevation rasters and positive drops, both implementations; all finite magnitudes for the chosen drops",
  "Tests run it on one fixture and check a few stored cells; whether a sweep stops too early or a drop is absorbed by rounding depends on inputs they do not contain.",
  [A + "fill.py", S + "_fill.pyx"], ["sweeps with minimum increments", "nextafter-based increments"])
p("C03", "Bluespot depth is filled minus terrain, zero outside depressions",
  "Bluespot depths written by the DEM tool and by the depths command equal the filled DEM minus the terrain in every cell; they are never negative, zero on the raster edge, and positive exactly in the cells from which every way to the raster edge climbs above the cell's own elevation. The filled raster, depths and flow directions the tool writes all derive from the same input DEM, and non-square cells are rejected instead of processed.",
  ["inputs", "configurations"], "all DEMs, both entry points, with and without the accumulated-flow output",
  "Tests compare against one stored fixture; no test ranges over DEMs or over the output options.",
  ["malstroem/dem.py", "malstroem/scripts/dem.py"], ["filled - dem on the raster read once", "square-cell assertion"])
p("C04", "Flow direction is the steepest descent, never flat or uphill",
  "For every terrain raster of at least 3x3 cells, each interior cell's flow direction points to a strictly lower neighbour whose slope (drop over distance, with diagonal distance sqrt(2)) is the largest among the eight neighbours up to floating-point rounding, and is 'no direction' exactly when no neighbour is strictly lower. Edge cells point directly off the raster (corners diagonally) when edges flow outward and are 'no direction' otherwise, using the encoding Up=0, UpRight=1, ..., UpLeft=7, NoDirection=8.",
  ["inputs", "configurations"], "all terrains, both edge modes, both implementations",
  "Tests check a handful of hand-made matrices; ties, single-direction neighbours and every direction code at every position are not covered.",
  [A + "flow.py", S + "_flow.pyx"], ["neighbour-by-neighbour maximum of dz", "set_edges_flow_outward"])
p("C05", "Water from every cell leaves the raster",
  "For every finite DEM of at least 3x3 cells, following the flow directions produced by the no-flats fill and the D8 step with outward edges from any cell reaches the raster edge and leaves the raster in at most as many steps as there are cells: no cell is left without direction and no flow path is cyclic.",
  ["inputs"], "all DEMs, both implementations",
  "It is a property of the composition of two algorithms over all terrains; the tests run the composition on one fixture DEM.",
  [A + "fill.py", A + "flow.py", "malstroem/dem.py", "malstroem/scripts/dem.py"], ["strict drops from the fill make the steepest descent acyclic"])
p("C06", "Accumulated flow counts exactly the cells draining through",
  "For every flow-direction raster without cycles, including ones with cells that have no direction, the accumulated flow of each cell equals one plus the number of other cells whose downstream path passes through it. The computation always terminates and never fails on such a raster, in both implementations.",
  ["inputs", "configurations"], "all acyclic direction rasters, both implementations",
  "The result depends on the order in which leaves are processed relative to confluences; tests use one fixture and two small matrices.",
  [A + "flow.py", S + "_flow.pyx"], ["trace downstream from each cell, stop at unresolved confluences"])
p("C07", "Watershed of a cell is the first bluespot met downstream",
  "For every direction raster whose paths all leave through the raster edge and every labelling, each unlabelled cell is assigned the label of the first labelled cell on its downstream path, or stays unlabelled if the path meets none; labelled cells keep their label. This holds for every integer label type and for any value chosen to mean unlabelled.",
  ["inputs", "configurations"], "all draining direction rasters, all labellings, label types int32/int64/other, both implementations",
  "Tests use one fixture and one matrix; the traversal order, mixtures of labels along one path and label dtypes are quantifiers they do not vary.",
  [A + "flow.py", A + "_raster_utils.py", S + "_flow.pyx"], ["upstream traversal from every edge cell with the downstream label carried on a stack"])
p("C08", "Zonal statistics per label are exact and complete",
  "For every data raster and label raster of the same shape, the per-label minimum, maximum, sum and count, the per-label cell count, and the per-label list of values in raster order (background excluded, whatever label denotes background) agree with a direct evaluation over the cells of that label. Labels without cells report count 0, sum 0, min +inf and max -inf, and results have one entry per label from 0 to the highest label; all data and label types and both implementations agree.",
  ["inputs", "configurations"], "all data and label rasters, data types float32/float64/other, label types int32/int64, both implementations",
  "Tests use one random fixture and a few fixed arrays with the default background and types.",
  [A + "label.py", S + "_label.pyx"], ["single pass over cells updating a record per label"])
p("C09", "Bluespots are exactly the 8-connected wet regions that pass the filter",
  "For every depth raster, two cells carry the same non-zero bluespot id exactly when they are connected through cells of non-zero depth (diagonals included), dry cells carry 0, and ids are consecutive from 1. With a filter, a cell keeps a non-zero id exactly when the whole unfiltered region it belongs to satisfies the filter evaluated on that region's area, maximum depth and volume, and background never passes.",
  ["inputs", "configurations"], "all depth rasters and filters; tool and command",
  "Tests count labels on one fixture for a couple of filters.",
  [A + "label.py", "malstroem/bluespots.py", "malstroem/scripts/bluespot.py"], ["connected component labelling with a full 3x3 structure", "filterbluespots / keep_labels / relabel"])
p("C10", "Filter expressions mean what they say",
  "A filter expression built from area, maxdepth, volume, decimal numbers, the six comparison operators, and, or and parentheses evaluates, for every bluespot, to the ordinary boolean value of that expression over the bluespot's area (cells times cell area), maximum depth and volume (sum of depths times cell area). A missing or empty filter accepts everything, and text containing anything else is rejected before it is evaluated.",
  ["inputs", "programs"], "all expressions of the grammar up to a stated size, all bluespot statistics, all rejected characters",
  "Tests use two literal filter strings on one fixture; combinations of operators and names with symbolic statistics are not explored.",
  ["malstroem/scripts/_utils.py", "malstroem/bluespots.py"], ["whitelist check", "textual substitution and compilation"])
p("C11", "Each bluespot gets its pour point and true attributes",
  "For every bluespot the pour point lies inside the bluespot, at a cell with the highest accumulated flow of the bluespot when accumulated flow is given and otherwise at a cell with the lowest no-flats filled level. Its attributes are the bluespot's own id, maximum depth, cell count times cell area, depth sum times cell area, watershed cell count times cell area, and 1000 times volume over watershed area; its geometry is the world coordinate of the centre of that cell.",
  ["inputs", "configurations"], "all label, depth, watershed and ranking rasters, geotransforms; both variants",
  "Tests compare the fixture's pour points with stored numbers.",
  ["malstroem/bluespots.py", "malstroem/vector.py", A + "label.py", S + "_label.pyx", "malstroem/scripts/bluespot.py"],
  ["label_max_index / label_min_index", "assemble_pourpoints"])
p("C12", "Stream network follows the flow paths between bluespots",
  "For every labelled bluespot raster and draining direction raster, following downstream links from a pour point, skipping junctions, arrives at the first other bluespot on that pour point's flow path, or at no node if there is none. Inserting junctions where streams merge adds only nodes with fresh, unique ids of type junction and never changes which bluespot is downstream of which; every pour point appears exactly once, and links form a forest when every bluespot drains through its pour point.",
  ["inputs", "configurations"], "all direction and label rasters and pour points, with and without stream geometry",
  "Tests use one fixture; which streams merge, in what order and over how many cells is not varied.",
  [A + "net.py", A + "flow.py", "malstroem/streams.py"], ["trace to the next label", "recursive untangling of common flow"])
p("C13", "Stream lines trace the flow path from node to node",
  "Every stream line starts at its node's cell, every step follows the flow direction raster, and it ends where it first enters the downstream bluespot, at the cell of the junction it merges into, or at the raster edge. Two stream lines of the same network that share a flow path share it only downstream of a common junction, so concatenating lines along downstream links reproduces the traced flow path without gaps or duplicates; world coordinates are cell centres.",
  ["inputs"], "all direction and label rasters and pour points",
  "Tests count streams on one fixture.",
  [A + "net.py", "malstroem/streams.py", "malstroem/vector.py"], ["geometry collected while tracing", "shared path moved to the junction"])
p("C14", "Final state conserves water and cascades spill downstream",
  "For every forest of nodes with non-negative capacities and inflows, in whatever order the nodes are given, each node's stored volume is the smaller of its capacity and its total inflow (own plus all upstream spill), its spill is the excess, and percent filled is 100 times stored over capacity or absent for zero capacity. Total water stored plus water spilled from nodes without downstream node equals total initial water, and running the calculation again gives the same result.",
  ["inputs", "histories", "configurations"], "all node forests up to a stated size, all node orders, all volumes",
  "Tests run one fixture network; topologies, orders and volumes are not varied and conservation is not asserted.",
  ["malstroem/network.py"], ["leaves-to-root traversal", "min/max split of volume"])
p("C15", "Initial volumes are rain times area in cubic metres",
  "Uniform rain gives every node exactly rain in mm times its local watershed area divided by 1000. A precipitation raster gives every labelled node the sum of the raster over the cells carrying its id in the label raster, converted from mm, litres or cubic metres to cubic metres with the actual cell area, and gives zero to junctions and other nodes beyond the highest label; the chosen attribute is the only one changed and every node is written once.",
  ["inputs", "configurations"], "all rasters, units, geotransforms, node lists",
  "Tests use one fixture per unit with square cells.",
  ["malstroem/rain.py", "malstroem/scripts/initvolume.py"], ["label_stats sum times conversion factor"])
p("C16", "Hypsometry histograms account for every bluespot cell",
  "For every DEM, bluespot labelling and positive resolution, each bluespot's reported minimum and maximum are the extremes of its terrain, its histogram bounds enclose them and span bins of the requested width, and the bin counts sum to the number of its cells with every cell counted in the bin that contains it. The background gets no histogram, and writing the statistics as flat attributes and reading them back gives the same statistics.",
  ["inputs", "configurations"], "all DEMs (any sign of elevation), labellings and resolutions",
  "Tests use positive elevations of one fixture and one resolution.",
  ["malstroem/hyps.py"], ["histogram_bins", "numpy histogram per label", "flat dict encoding"])
p("C17", "Approximate water level is bounded and monotone in volume",
  "For every bluespot histogram and stored volume between zero and capacity, the approximated water level lies between the bluespot's lowest terrain and its spill level (lowest terrain plus maximum depth), is the spill level when the bluespot is full, never decreases when the stored volume increases, and the approximated maximum depth is the level minus the lowest terrain. Every pour-point node of the final state gets a level and junctions get none.",
  ["inputs"], "all histograms up to a stated number of bins, all volumes",
  "Tests check one fixture; monotonicity and bounds are statements over all volumes.",
  ["malstroem/approx.py"], ["interpolation of volume against bin centre elevations", "full-bluespot shortcut"])
p("C18", "Final extents and depths follow the water level",
  "For every label raster, water levels and DEM, a bluespot cell keeps its id in the final extent exactly when its terrain is not above that bluespot's water level, its final depth is the water level minus terrain there and zero elsewhere, and cells outside every bluespot have depth zero and stay background. No final depth is negative, and the file-based and in-memory variants give the same answer.",
  ["inputs", "configurations"], "all label rasters, levels and terrains including terrain below the nodata substitute",
  "Tests check one fixture.",
  ["malstroem/approx.py", A + "label.py"], ["label to level lookup", "mask of negative depths"])
p("C19", "Compiled speedups and pure Python give the same results",
  "For every input of the supported types, each function that has a compiled version returns the same result as its pure Python version (flow directions up to ties within floating-point rounding of the slope), so enabling or disabling speedups never changes any output; enabling and disabling restores exactly the versions it replaced, however often it is repeated.",
  ["inputs", "configurations", "histories"], "all inputs within the bounds, all enable/disable histories up to a stated length",
  "Tests compare the two on random arrays for some functions only, with default arguments.",
  [A + "fill.py", A + "flow.py", A + "label.py", S + "__init__.py", S + "_fill.pyx", S + "_flow.pyx", S + "_label.pyx"],
  ["parallel implementations", "monkeypatching enable/disable"])
p("C20", "Compiled speedups stay within their buffers",
  "For every raster shape and content the pure Python version accepts, including cells without flow direction, the compiled versions never read or write outside their arrays, never read an uninitialised value, never loop forever and never overflow their counters; unsupported argument types raise an exception instead.",
  ["inputs", "configurations"], "all shapes and contents within the bounds",
  "Out-of-bounds and uninitialised reads in unchecked compiled loops need not change the result of a test that happens to pass.",
  [S + "_fill.pyx", S + "_flow.pyx", S + "_label.pyx"], ["loop bounds derived from the array shapes", "is-in-raster tests before unchecked accesses"])
p("C21", "Nodata cells, and only those, get the substitute",
  "Reading a raster with a substitute for nodata replaces exactly the cells holding the dataset's nodata value (within the reader's comparison tolerance), whatever that value is - including 0 and NaN - and leaves all other cells unchanged; without a substitute or without a nodata value the data is returned as stored.",
  ["inputs", "configurations"], "all cell values, all nodata values (none, zero, NaN, other), all substitutes",
  "Tests use the fixture's single nodata value.",
  ["malstroem/io.py"], ["mask by isnan or isclose"])
p("C22", "Writing a raster never changes its values",
  "Every raster array written is stored in a GDAL data type that represents each of its values exactly, of the same shape and with the georeference, projection and nodata value given; arrays for which no such type exists are refused with an exception and nothing is written.",
  ["inputs", "configurations"], "all array dtypes and integer value ranges",
  "Tests write a few dtypes with small values; boundary values of each type are not covered.",
  ["malstroem/io.py"], ["dtype to GDAL type dispatch", "narrowing by value range"])
p("C23", "The complete command equals the documented chain of subcommands",
  "For every DEM, rain, resolution, filter and choice of options, the complete command produces the same bluespots, watersheds, pour points, nodes, streams, initial and final volumes, hypsometry, water levels and final rasters as running the documented chain of subcommands with the same parameters. Every intermediate result it feeds forward is the one the chain feeds forward.",
  ["inputs", "configurations"], "all raster contents and option combinations, with algorithms treated as arbitrary functions",
  "Tests run the complete command and the single commands on one fixture separately and compare feature counts.",
  ["malstroem/scripts/complete.py", "malstroem/scripts/dem.py", "malstroem/scripts/bluespot.py", "malstroem/scripts/stream.py", "malstroem/scripts/initvolume.py", "malstroem/scripts/finalstate.py", "malstroem/scripts/hyps.py"],
  ["tools wired to readers and writers of the intermediate files"])
p("C24", "Outputs are georeferenced like the inputs, at cell centres",
  "For every geotransform, including rotated ones, the world coordinate reported for a cell is the image of that cell's centre, and pour points, nodes and stream vertices use exactly that coordinate in x, y order. Every raster and vector layer produced is given the georeference and coordinate system of the dataset it is derived from.",
  ["inputs", "configurations"], "all affine geotransforms and cells; all commands",
  "Tests use one north-up geotransform.",
  ["malstroem/vector.py", "malstroem/streams.py", "malstroem/bluespots.py", "malstroem/scripts/complete.py"], ["ApplyGeoTransform at col+0.5, row+0.5"])
p("C25", "The complete command refuses a non-empty output directory",
  "The complete command writes nothing and processes nothing unless the output path is an existing empty directory; when it is one, all outputs are placed inside that directory.",
  ["inputs", "configurations"], "all outcomes of the directory queries and all option combinations",
  "Tests cover one non-empty and one empty directory.",
  ["malstroem/scripts/complete.py"], ["directory check before any reader or writer is used"])
p("C26", "Vector layers round-trip through OGR unchanged",
  "Features written to a vector layer and read back carry the same geometry and attribute values, for every supported OGR driver.",
  ["inputs", "configurations"], "all feature collections, all drivers",
  "Tests round-trip one fixture per driver.",
  ["malstroem/io.py"], ["temporary GeoJSON file copied feature by feature by OGR"])
p("C27", "Polygonized ids cover exactly the cells with that id",
  "The polygons produced from an id raster partition the non-nodata cells into 8-connected regions of equal id, each polygon carrying the id of its cells.",
  ["inputs"], "all id rasters",
  "Tests count polygons of one fixture.",
  ["malstroem/vector.py"], ["GDAL polygonize with 8-connectedness"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
